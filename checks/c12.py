"""C12: in restricted mode no shell command is run and no file outside the working directory is named.

Texts are abstract: txt[p] is the text found at p.  strchr/strrchr, strcmp and strcpy are given their meaning over it; a text
is safe when it has no '/' and is not "..".  Contracts:
  * file_name, is_valid_name, file_glob: restricted and a name is returned -> it is safe (and is_valid_name, file_glob: it does
    not begin with '!'; file_name: only if the input does)
  * expand_shell_command: returns a command only outside restricted mode
  * read_file, write_file: the name given is safe in restricted mode; every fopen in them opens that very name
  * read_pipe, write_pipe, system_shell, filter_lines (and popen, execl, fork, ... anywhere): not in restricted mode
  * invariant of every function that can touch it: in restricted mode the default file name, if any, is safe and no command
  * no store to the options changes the restricted bit (except main, which sets it)
"""
from checks.common import *
LEVEL = 'proof'
NORETURN = {'quit', 'script_die', 'main', 'handle_hup'}
RBIT = 10
HAS = z3.Function('text has a slash', IntS, z3.BoolSort())
LIT = {'..': 1001, '/dev/null': 1002, 'ed.hup': 1003}
SHELL = ('popen', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execve', 'system', 'fork', 'vfork', 'posix_spawn', 'posix_spawnp')
OPEN = ('fopen', 'fopen64', 'open', 'open64', 'openat', 'creat', 'freopen', 'freopen64', 'rename', 'link', 'symlink', 'unlink', 'remove',
        'truncate')
# they open the editor's own scratch files, or the script named by option -f
SCRATCH = {'append_script_file', 'init_stdio', 'create_disk_buffer', 'close_disk_buffer', 'quit', 'reopen_ed_buffer', 'close_ed_buffer',
           'handle_hup', 'filter_lines', 'one_time_init', 'open_ed_buffer', 'init_buffer_file', 'init_script_buffer', 'close_script_buffer'}
NEEDS_SHELL = ('read_pipe', 'write_pipe', 'system_shell', 'filter_lines')
NAMES = ('file_name', 'is_valid_name', 'file_glob', 'expand_shell_command')
ASSUMPTIONS = [
    'character stores through a pointer reach only the text that pointer was derived from: the default file name and a name just '
    'returned by file_name/file_glob are changed only through pointers to them',
    'stores through a pointer to a pointer made while a name is validated (realloc_buffer, decode_utf8_char) reach only the buffer of the caller, not the list of file names',
    'shell_cmd is entered with `!` as the command letter just read (C18)',
    'a text read by get_extended_line begins with the same character as the input, or with a newline',
    'symbolic links and the time between stat and open are outside the statement; option -f, HOME in the hang-up file and TMPDIR are '
    'given by whoever starts the editor',
]


def terms(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, int):
        return acc
    acc.add(t.get_id())
    for c in t.children():
        terms(c, acc)
    return acc


class NameView(BView):
    unroll = 0
    watch = True
    merge_limit = 8

    def __init__(self, prog):
        super().__init__(prog)
        self.nlits = None
        C = {}
        V = self

        def res(c):
            return tz(c.ret)

        def inv(c):
            return [('the default file name is safe in restricted mode', V.name_ok(c.ex, c.post_st))]

        def fn(c):
            ex, st = c.ex, c.post_st
            r = res(c)
            bang = tz(ex.rd(c.pre_st, '*8', tz(ex.path_read(c.pre_st, 'ed.input')))) == 33
            out = [('a name returned in restricted mode has no directory', z3.Implies(z3.And(r != 0, V.R(ex, st)), V.safe(ex, st, r))),
                   ('a name returned in restricted mode is no shell command', z3.Implies(z3.And(r != 0, V.R(ex, st), z3.Not(bang)), V.first(ex, st, r) != 33))]
            return out + V.keep(c)

        def nobang(c):
            ex, st = c.ex, c.post_st
            r = res(c)
            return [('a name returned in restricted mode has no directory', z3.Implies(z3.And(r != 0, V.R(ex, st)), V.safe(ex, st, r))),
                    ('a name returned in restricted mode is no shell command', z3.Implies(z3.And(r != 0, V.R(ex, st)), V.first(ex, st, r) != 33))] + V.keep(c)

        def ivn(c):
            ex, st = c.ex, c.post_st
            r, nm = res(c), tz(c.args[0].i())
            if c.mode == 'call':
                st.heap['*ptr'] = ex.mem(c.pre_st, '*ptr')     # see ASSUMPTIONS
            out = [('a name accepted in restricted mode has no directory', z3.Implies(z3.And(r != 0, V.R(ex, st)), V.safe(ex, st, nm)))]
            out += [('a name accepted in restricted mode is no shell command', z3.Implies(z3.And(r != 0, V.R(ex, st)), V.first(ex, st, nm) != 33))]
            return out + V.keep(c)
        C['file_name'] = Contract('file_name', ghost_mod=('txt',), ensures=fn)
        C['file_glob'] = Contract('file_glob', ghost_mod=('txt',), ensures=nobang)
        C['is_valid_name'] = Contract('is_valid_name', ghost_mod=('txt',), ensures=ivn)
        C['expand_shell_command'] = Contract('expand_shell_command', ghost_mod=('txt',), ensures=lambda c: [
            ('a shell command is accepted only outside restricted mode', z3.Implies(res(c) != 0, z3.Not(V.R(c.ex, c.post_st))))] + V.keep(c))

        def gel(c):
            ex, st = c.ex, c.post_st
            r = res(c)
            bang = tz(ex.rd(c.pre_st, '*8', tz(ex.path_read(c.pre_st, 'ed.input')))) == 33
            if c.mode != 'call':
                return []
            return [('text begins like the input', z3.Implies(z3.And(r != 0, z3.Not(bang)), V.first(ex, st, r) != 33))] + V.keep(c)
        C['get_extended_line'] = Contract('get_extended_line', ghost_mod=('txt',), ensures=gel)

        def opens(c):
            if c.mode == 'call' and c.ex.cur == 'handle_hup':
                return []       # HOME is given by whoever starts the editor
            return [('the file named is safe in restricted mode', V.okname(c.ex, c.pre_st, tz(c.args[0].i())))]
        for f in ('read_file', 'write_file'):
            C[f] = Contract(f, ghost_mod=('txt',), requires=opens, ensures=lambda c: V.keep(c))
        for f in NEEDS_SHELL:
            C[f] = Contract(f, ghost_mod=('txt',), requires=lambda c: [('no shell command is run in restricted mode', z3.Not(V.R(c.ex, c.pre_st)))],
                            ensures=lambda c: V.keep(c))
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    # ---- abstract text
    def R(self, ex, st):
        return tz(ex.bit(st, ex.path_read(st, 'ed.exec.opt'), RBIT))

    def lits(self, ex):
        return {a: v for s, a in ex.strs.items() for t, v in LIT.items() if s == '"%s"' % t}

    def T(self, ex, st, p):
        t = st.gh['txt'][p]
        for a, v in self.lits(ex).items():
            if z3.is_int_value(p):
                if p.as_long() == a:
                    return z3.IntVal(v)
                continue
            t = z3.If(p == a, z3.IntVal(v), t)
        return t

    def safe_t(self, t):
        return z3.And(z3.Not(HAS(t)), t != LIT['..'])

    def safe(self, ex, st, p):
        return self.safe_t(self.T(ex, st, p))

    def first(self, ex, st, p):
        return tz(ex.rd(st, '*8', p))

    def okname(self, ex, st, p):
        t = self.T(ex, st, p)
        return z3.Implies(self.R(ex, st), z3.Or(self.safe_t(t), t == LIT['/dev/null']))

    def name(self, ex, st):
        return tz(ex.path_read(st, 'ed.file.name'))

    def name_ok(self, ex, st):
        n = self.name(ex, st)
        return z3.Implies(z3.And(self.R(ex, st), n != 0), z3.And(self.safe(ex, st, n), self.first(ex, st, n) != 33))

    def keep(self, c):
        """what a call leaves alone"""
        ex = c.ex
        if c.mode != 'call':
            return [('the default file name is safe in restricted mode', self.name_ok(ex, c.post_st))]
        self.settle(ex, c.pre_st, c.post_st, recursive=False, havoc=False)
        return [('R', self.R(ex, c.pre_st) == self.R(ex, c.post_st)), ('name', self.name_ok(ex, c.post_st))]

    def protected(self, ex, st):
        return [self.name(ex, st)] + list(st.aux.get('names', ()))

    def settle(self, ex, pre, st, recursive, havoc=True):
        """after a call the texts other than the protected ones are unknown"""
        old = pre.gh['txt']
        if havoc:
            ex.havoc_ghost(st, 'txt')
        ps = [] if recursive else list(st.aux.get('names', ()))
        n0, n1 = self.name(ex, pre), self.name(ex, st)
        for p in ps:
            st.assume(st.gh['txt'][p] == old[p])
            st.assume(self.first(ex, st, p) == self.first(ex, pre, p))

    def init_state(self, ex, st):
        super().init_state(ex, st)
        for t in LIT:
            ex.strs.setdefault('"%s"' % t, GLOBAL_BASE + (1 << 44) + len(ex.strs) * (1 << 16))
        st.gh['txt'] = z3.Array('txt', IntS, IntS)
        st.aux['names'] = ()

    def entry(self, ex, name, args, st):
        st.assume(z3.Not(HAS(z3.IntVal(LIT['..']))))
        st.assume(HAS(z3.IntVal(LIT['/dev/null'])))
        st.assume(z3.Not(HAS(z3.IntVal(LIT['ed.hup']))))
        ps = []
        for a in args:
            if a.ty == ('ptr', CHAR) and not isc(a.i()):
                ps.append(tz(a.i()))
        st.aux['names'] = tuple(ps)
        st.assume(self.name_ok(ex, st))
        if name == 'shell_cmd':
            st.assume(self.first(ex, st, tz(ex.path_read(st, 'ed.input')) - 1) == 33)

    def exit(self, ex, name, c, s):
        if name not in self.contracts:
            ex.oblige(s, 'the default file name is safe in restricted mode', self.name_ok(ex, s))

    def after_auto(self, ex, name, args, pre, st, n):
        self.settle(ex, pre, st, self.reaches(name))
        st.assume(self.R(ex, pre) == self.R(ex, st))
        st.assume(self.name_ok(ex, st))

    def fnptr_call(self, ex, args, st, n, fnval):
        pre = st.copy()
        keys = set()
        for f in ex.ms.fnptr_targets():
            keys |= ex.ms.of_func(f)
        ex.havoc_keys(st, keys)
        self.settle(ex, pre, st, True)
        st.assume(self.R(ex, pre) == self.R(ex, st))
        st.assume(self.name_ok(ex, st))
        return [(ex.fresh_val(st, ex.prog.ptype(n), 'fnptr'), st)]

    def reaches(self, name):
        """may the function reach one that renews the buffers of file names"""
        r = self.__dict__.setdefault('_reach', {})
        if name not in r:
            seen, todo = set(), [name]
            while todo:
                f = todo.pop()
                if f in seen or f not in self.prog.funcs:
                    continue
                seen.add(f)
                todo += list(callees(self.prog.funcs[f].body))
            r[name] = bool(seen & (set(NAMES) | {'get_extended_line'}))
        return r[name]

    def touch(self, ex, st, d):
        """text stored through d"""
        old = st.gh['txt']
        pr = [p for p in self.protected(ex, st) if isc(d) or p.get_id() not in terms(d)]
        ex.havoc_ghost(st, 'txt')
        for p in pr:
            st.assume(st.gh['txt'][p] == old[p])
        return pr

    def on_store(self, ex, st, lv, v):
        if lv.k != 'mem':
            return
        if lv.key == 'ed_execute.opt':
            new, old = v.i(), ex.rd(st, lv.key, lv.idx)
            a, b = tz(ex.bit(st, new, RBIT)), tz(ex.bit(st, old, RBIT))
            ex.oblige(st, 'restricted mode is not left', z3.Implies(b, a), ex.curline)
            if ex.cur != 'main':
                ex.oblige(st, 'restricted mode is not entered in between', z3.Implies(a, b), ex.curline)
        if lv.key == '*8' and not isc(lv.idx):
            pr = self.touch(ex, st, lv.idx)
            for p in pr:
                st.assume(tz(lv.idx) != p)

    def on_call(self, ex, name, args, st, n):
        if name in SHELL:
            ex.oblige(st, 'no shell command is run in restricted mode', z3.Not(self.R(ex, st)), n_line(n))
            return None
        if name in OPEN and ex.cur not in SCRATCH:
            k = 1 if name == 'openat' else 0
            ex.oblige(st, 'the file opened is safe in restricted mode', self.okname(ex, st, tz(args[k].i())), n_line(n))
            return None
        if name in ('strchr', 'strrchr', 'index') and len(args) == 2 and isc(args[1].i()) and args[1].i() == 47:
            r = fresh('slash')
            st.assume((r != 0) == HAS(self.T(ex, st, tz(args[0].i()))))
            return [(Val(r, ex.prog.ptype(n)), st)]
        if name == 'strcmp':
            r = fresh('cmp')
            p, q = tz(args[0].i()), tz(args[1].i())
            st.assume((r == 0) == (self.T(ex, st, p) == self.T(ex, st, q)))
            st.assume(z3.Implies(r == 0, self.first(ex, st, p) == self.first(ex, st, q)))
            return [(Val(r, INT), st)]
        if name in ('strcpy', 'stpcpy') and name not in ex.prog.funcs:
            d, s = tz(args[0].i()), tz(args[1].i())
            t, f0 = self.T(ex, st, s), self.first(ex, st, s)
            pr = self.touch(ex, st, d)
            fs = [(p, self.first(ex, st, p)) for p in pr]
            ex.havoc_keys(st, {('*8', None)})
            for p, f in fs:
                st.assume(self.first(ex, st, p) == f)
                st.assume(p != d)
            st.assume(st.gh['txt'][d] == t)
            for a in self.lits(ex):
                st.assume(d != a)       # literals are not written
            st.assume(self.first(ex, st, d) == f0)
            return [(Val(d, ex.prog.ptype(n)), st)]
        if name in ('file_name', 'file_glob', 'expand_shell_command', 'get_extended_line') and name in self.contracts:
            st.aux['names'] = tuple(x for x in st.aux.get('names', ()))
            r = ex.apply_contract(self.contracts[name], name, args, st, n, n['inner'][1:], ex.prog.ptype(n))
            for v, s in r:
                s.aux['names'] = tuple(s.aux.get('names', ())) + (tz(v.i()),)
            return r
        if name in ('sprintf', 'snprintf', 'strncpy', 'memcpy', 'memmove', 'strcat', 'memset', 'fgets', 'fread') and args and not isc(args[0].i()):
            pr = self.touch(ex, st, args[0].i())
            fs = [(p, self.first(ex, st, p)) for p in pr]
            r = ex.ext_call(name, args, st, n, n['inner'][1:], ex.prog.ptype(n))
            for v, s in r:
                for p, f in fs:
                    s.assume(self.first(ex, s, p) == f)
            return r
        return None

    def loop_cands(self, ex, entry, head, locs, keys, n):
        R0 = self.R(ex, entry)
        out = [('restricted bit kept', lambda s: self.R(ex, s) == R0), ('default name safe', lambda s: self.name_ok(ex, s))]
        for k, p in enumerate(entry.aux.get('names', ())):
            t0, f0 = entry.gh['txt'][p], self.first(ex, entry, p)
            out.append(('text %d kept' % k, lambda s, p=p, t0=t0: s.gh['txt'][p] == t0))
            out.append(('start of text %d kept' % k, lambda s, p=p, f0=f0: self.first(ex, s, p) == f0))
        return out

    def merge_aux(self, a, sel, vs):
        if a == 'names':
            d = {}
            for v in vs:
                for p in v or ():
                    d[p.get_id()] = p
            return tuple(d.values())
        return None


class CoarseNameView(NameView):
    sep_out = False
    prune = False
    houdini = False
    merge_limit = 1
    coarse = {'ed_execute.opt', 'ed_file.name'}


def callees(n, acc=None):
    acc = set() if acc is None else acc
    if n.get('kind') == 'CallExpr':
        f = n['inner'][0]
        while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        if f.get('kind') == 'DeclRefExpr':
            acc.add(f['referencedDecl']['name'])
    for c in n.get('inner', []):
        if c:
            callees(c, acc)
    return acc


def tasks(prog):
    from run import Task
    from modset import ModSets
    v = NameView(prog)
    ms = ModSets(prog)
    ms.of_func(next(iter(prog.funcs)))
    fs = []
    want = set(SHELL) | set(OPEN) | set(v.contracts) - {'get_extended_line'}
    for f in sorted(prog.funcs):
        if f not in BASE or f in ('get_extended_line',):
            continue
        if f in v.contracts or callees(prog.funcs[f].body) & want or ms.own(f, BASE) & {'ed_execute.opt', 'ed_file.name'}:
            fs.append(f)
    cv = CoarseNameView(prog)
    return [Task(cv if f == 'main' else v, f, 150) for f in by_size(prog, fs)]
