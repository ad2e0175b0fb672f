"""C17: growing buffers are never overrun.

The buffers are found in the source: every pair (b, n) given to realloc_buffer, wherever it is kept.
  realloc_buffer   returns *b with *n greater than what was asked for and not less than before, or 0 with both unchanged
                   (so the previous buffer stays valid); the contents are kept (C07)
  its callers      every character stored, and every block copied, lies within one of the function's buffers, for all lengths;
                   a buffer or its size changes by realloc_buffer only; a request that fails makes the function fail
  contracts        what a caller may write beyond a returned text (get_buffer_line), and the length of a returned name or command
"""
from checks.listview import *

ASSUMPTIONS = [
    'malloc and realloc return blocks that overlap no other; no block is larger than 2^62 bytes',
    'the C library writes what its specification says: memcpy n bytes, strcpy up to the NUL, strncpy n bytes, fread at most size * nmemb, regexec offsets with 0 <= so <= eo or both -1',
    'a text whose length was measured keeps its terminating NUL until it is copied',
    'a shell command passed to expand_shell_command begins with ! (so that it is not empty); one repeated with !! has at least the two characters',
    'file_glob returns the default file name only if no pattern was given, with length 0',
    'reads, and stores into arrays of fixed size, are not covered',
]
REPLAY_ASAN = True        # a failing input is looked for with a program that reports overruns
NORETURN = {'quit', 'script_die'}
BIG = 1 << 62
COPY = {'memcpy': 2, 'memmove': 2, 'strncpy': 2}


def base_name(f):
    return f.replace('__builtin___', '').replace('__builtin_', '').replace('_chk', '')


def strip(n):
    while n.get('kind') in ('ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'ConstantExpr'):
        n = n['inner'][-1]
    return n


def calls(n, out):
    if n.get('kind') == 'CallExpr':
        out.append(n)
    for c in n.get('inner', []):
        if c:
            calls(c, out)
    return out


def callee(n):
    c = strip(n['inner'][0])
    return c.get('referencedDecl', {}).get('name', '')


class GrowView(BView):
    watch = True
    watch_loads = True
    all_memlocs = True
    inv_timeout = 1200
    max_acc = 5
    merge_limit = 2
    or_zero = True

    def __init__(self, prog):
        super().__init__(prog)
        self.ghost_deps = {}
        self.pairs, self._words = {}, {}
        for f in prog.funcs:
            ps = []
            for c in calls(prog.funcs[f].body, []):
                if callee(c) != 'realloc_buffer' or len(c['inner']) < 4:
                    continue
                p = []
                for a in c['inner'][1:3]:
                    a = strip(a)
                    if a.get('kind') == 'UnaryOperator' and a.get('opcode') == '&':
                        p.append(strip_paren(a['inner'][0]))
                    else:
                        p.append({'kind': 'UnaryOperator', 'opcode': '*', 'inner': [a], 'type': {'qualType': a['type']['qualType'].rstrip('*').strip() if a['type']['qualType'].endswith('*') else 'char'}})
                if len(p) == 2:
                    ps.append(p)
            self.pairs[f] = ps
        # a helper enlarges buffers its callers name
        self.helpers = {}
        for f in prog.funcs:
            self.helpers[f] = [c for c in calls(prog.funcs[f].body, []) if callee(c) in prog.funcs and callee(c) not in self.known]
        for _ in range(3):
            for f in prog.funcs:
                for c in self.helpers[f]:
                    h = prog.funcs[callee(c)]
                    at = {p.get('name'): strip(a) for p, a in zip(h.params, c['inner'][1:])}
                    for b, n in list(self.pairs[callee(c)]):
                        p = [self.actual(x, at) for x in (b, n)]
                        if None not in p and not any(p[0] is q[0] and p[1] is q[1] for q in self.pairs[f]):
                            self.pairs[f].append(p)
        C = {}
        r = lambda c: tz(c.ret)

        def rb(c):
            ex = c.ex
            b0, n0 = self.cell(ex, c.pre_st, c.args[0]), self.cell(ex, c.pre_st, c.args[1])
            b1, n1 = self.cell(ex, c.post_st, c.args[0]), self.cell(ex, c.post_st, c.args[1])
            i = tz(c.args[2].i())
            if c.mode == 'call':
                c.post_st.gh['failed'] = z3.If(r(c) == 0, z3.BoolVal(True), c.pre_st.gh['failed'])
                return [('ghost', z3.Implies(r(c) != 0, z3.And(r(c) == b1, n1 > i, n1 >= n0, b1 > 0, n1 < BIG, b1 < BIG, n1 >= 8, z3.Implies(n1 == n0, b1 == b0), z3.Implies(i < n0, n1 == n0),
                                                           n1 % 8 == 0 if self.words(ex) else z3.BoolVal(True)))),
                        ('ghost', z3.Implies(r(c) == 0, z3.And(b1 == b0, n1 == n0)))]
            return [('the buffer holds more than what is needed', z3.Implies(r(c) != 0, z3.And(r(c) == b1, n1 > i, n1 >= n0))),
                    ('the buffer is kept if it cannot be enlarged', z3.Implies(r(c) == 0, z3.And(b1 == b0, n1 == n0))),
                    ('a buffer large enough is left alone', z3.Implies(i < n0, z3.And(r(c) == b0, b1 == b0, n1 == n0))),
                    ('the size is a multiple of the size of a pointer', z3.Implies(z3.And(n0 % 8 == 0, i < BIG), n1 % 8 == 0)),
                    ('the buffer is that allocated, of the size asked for', z3.Implies(r(c) != 0, z3.Or(z3.And(b1 == b0, n1 == n0), z3.And(b1 == c.post_st.gh['ab'], n1 == c.post_st.gh['an']))))]

        def rb_frame(c):
            out = [(k, None) for k, p in c.ex.ms.of_func('realloc_buffer') if not k.startswith('*')]
            for a in c.args[:2]:
                if a.prov is not None:
                    out.append((a.prov[0], a.prov[1]))
                elif a.ty[0] == 'ptr':
                    out.append(('*ptr' if a.ty[1][0] in ('ptr', 'void') else tykey(a.ty[1]), a.i()))
            return out
        def rbk(c):
            w = lambda s, k: tz(c.ex.path_read(s, 'ed.display.' + k))
            m0, m1 = tz(c.pre.glob('_mutex')), tz(c.post.glob('_mutex'))
            return rb(c) + [('sections are balanced', z3.Implies(m0 > 0, m1 == m0)),
                            ('the screen size is kept inside a section', z3.Implies(m0 > 0, z3.And(*[w(c.post_st, k) == w(c.pre_st, k) for k in ('ws_row', 'ws_col')])))]
        C['realloc_buffer'] = Contract('realloc_buffer', ensures=rbk, requires=lambda c: [], ghost_mod=(), assigns=rb_frame)

        # a resize signal is not taken inside a section
        def spl(d):
            def ens(c):
                m0, m1 = tz(c.pre.glob('_mutex')), tz(c.post.glob('_mutex'))
                w = lambda s, k: tz(c.ex.path_read(s, 'ed.display.' + k))
                keep = z3.And(*[w(c.post_st, k) == w(c.pre_st, k) for k in ('ws_row', 'ws_col')])
                return [('the section is entered', m1 == m0 + 1) if d > 0 else ('the section is left', z3.Implies(m0 > 1, m1 == m0 - 1)),
                        ('the screen size is kept inside a section', keep if d > 0 else z3.Implies(m0 > 1, keep))]
            return ens
        C['spl1'] = Contract('spl1', requires=lambda c: [], ensures=spl(1))
        C['spl0'] = Contract('spl0', requires=lambda c: [], ensures=spl(-1))

        def gbl(c):
            ex = c.ex
            ln = tz(ex.rd(c.post_st, 'ed_line_node.len', tz(c.args[0].i())))
            if c.mode == 'call':
                G = c.post_st.gh
                G['tb'], G['tn'] = r(c), ln + 1
                return [('ghost', z3.And(r(c) >= 0, r(c) < BIG, ln >= 0, ln < BIG))]
            reg = [z3.And(r(c) == b, n >= ln + 1) for b, n in self.regions(ex, c.post_st)]
            return [('the text returned has room for one more character', z3.Implies(r(c) != 0, z3.Or(*reg) if reg else z3.BoolVal(False)))] + self.fail(c)
        C['get_buffer_line'] = Contract('get_buffer_line', ensures=gbl, requires=lambda c: [])

        def named(k):
            def ens(c):
                ex = c.ex
                ln = self.cell(ex, c.post_st, c.args[k])
                if c.mode == 'call':
                    self.valid(ex, c.post_st)
                    c.post_st.gh['sl'] = z3.Store(c.post_st.gh['sl'], r(c), ln)
                    return [('ghost', z3.And(r(c) >= 0, r(c) < BIG, ln >= 0, ln < BIG))]
                sl = c.post_st.gh['sl'][r(c)]
                m = ex.mem(c.post_st, '*8').z()
                return [('the length returned covers the text', z3.Implies(r(c) != 0, z3.Or(z3.And(0 <= sl, sl <= ln), m[r(c) + ln] == 0)))] + self.fail(c)
            return ens
        for f, k in (('get_extended_line', 0), ('file_name', 0), ('expand_shell_command', 0)):
            C[f] = Contract(f, ensures=named(k), requires=lambda c: [])
        C['get_extended_line'].requires = lambda c: [('a newline is stripped, or none', z3.And(0 <= tz(c.args[1].i()), tz(c.args[1].i()) <= 1))]

        def ast(c):
            ex = c.ex
            if c.mode == 'call':
                self.valid(ex, c.post_st)
                return [('ghost', z3.Implies(r(c) >= 0, self.small(ex, c.post_st, self.cell(ex, c.post_st, c.args[3]))))]
            return [('the text made fits the buffer', z3.Implies(r(c) >= 0, self.small(ex, c.post_st, self.cell(ex, c.post_st, c.args[3]))))] + self.fail(c)
        C['apply_subst_template'] = Contract('apply_subst_template', ensures=ast, requires=lambda c: [])

        def fglob(c):
            ex = c.ex
            ln = self.cell(ex, c.post_st, c.args[0])
            k = c.post_st.gh['sl']
            nm = tz(ex.path_read(c.post_st, 'ed.file.name'))
            if c.mode == 'call':
                self.valid(ex, c.post_st)
                n = fresh('n')
                c.post_st.assume(z3.And(n >= 0, n <= ln))
                c.post_st.gh['sl'] = z3.Store(k, r(c), z3.If(r(c) == nm, -1, n))
                c.post_st.assume(z3.Implies(r(c) == nm, ln == 0))
                return [('ghost', z3.And(r(c) >= 0, r(c) < BIG, ln >= 0, ln < BIG))]
            return [('the length returned is that of the name', z3.Or(r(c) == 0, r(c) == nm, z3.And(0 <= k[r(c)], k[r(c)] <= ln)))]
        C['file_glob'] = Contract('file_glob', ensures=fglob, requires=lambda c: [])

        def tpl(c):
            ex = c.ex
            if c.mode == 'call':
                return []
            g = lambda s, x: tz(ex.rd(s, x, 0))
            if not {'rhs', 'rhs_i'} <= set(ex.prog.globals):
                return self.fail(c)
            return [('a template ends with a NUL', z3.Implies(r(c) >= 0, z3.Or(ex.mem(c.post_st, '*8').z()[g(c.post_st, '@rhs') + g(c.post_st, '@rhs_i')] == 0,
                                                                              z3.And(g(c.post_st, '@rhs') == g(c.pre_st, '@rhs'), g(c.post_st, '@rhs_i') == g(c.pre_st, '@rhs_i')))))] + self.fail(c)
        C['substitution_template'] = Contract('substitution_template', ensures=tpl, requires=lambda c: [])

        def gsl(c):
            if c.mode == 'call':
                self.valid(c.ex, c.post_st)
                ln = self.cell(c.ex, c.post_st, c.args[0])
                return [('ghost', z3.And(r(c) >= 0, r(c) < BIG, z3.Implies(r(c) != 0, z3.And(ln >= 1, ln < 1 << 46))))]
            return []
        C['get_stdin_line'] = Contract('get_stdin_line', ensures=gsl, requires=lambda c: [])

        def esc(c):
            return [('no more escapes than characters', z3.And(0 <= r(c), r(c) <= tz(c.args[1].i()) - tz(c.args[0].i())))]
        C['trailing_escapes'] = Contract('trailing_escapes', ensures=esc, requires=lambda c: [('the text is not empty', tz(c.args[0].i()) <= tz(c.args[1].i()))])

        def cls(c):
            return [('the end of a class follows its start', z3.Or(r(c) == 0, z3.And(r(c) >= tz(c.args[0].i()), r(c) < BIG)))]
        C['character_class'] = Contract('character_class', ensures=cls, requires=lambda c: [])

        def dec(c):
            s0, s1 = self.cell(c.ex, c.pre_st, c.args[0]), self.cell(c.ex, c.post_st, c.args[0])
            return [('a character takes one to four bytes', z3.And(s0 <= s1, s1 <= s0 + 4))]
        C['decode_utf8_char'] = Contract('decode_utf8_char', ensures=dec, requires=lambda c: [])
        C['utf8_char_size'] = Contract('utf8_char_size', ensures=lambda c: [('a character has at most four bytes', z3.And(0 <= r(c), r(c) <= 4))], requires=lambda c: [])

        def dflt(c):
            return [] if c.mode == 'call' else self.fail(c)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}
        for f in FUNCS:
            if f in prog.funcs and f not in self.contracts:
                self.contracts[f] = Contract(f, ensures=dflt, requires=lambda c: [])

    # ------------------------------------------------ the buffers of a function
    def actual(self, n, at):
        """what the expression *parameter stands for, given the arguments"""
        if n.get('kind') != 'UnaryOperator' or n.get('opcode') != '*':
            return None
        r = strip(n['inner'][0])
        a = at.get(r.get('referencedDecl', {}).get('name')) if r.get('kind') == 'DeclRefExpr' and r.get('referencedDecl', {}).get('kind') == 'ParmVarDecl' else None
        if a is None:
            return None
        if a.get('kind') == 'UnaryOperator' and a.get('opcode') == '&':
            return strip_paren(a['inner'][0])
        if a.get('kind') == 'DeclRefExpr':
            return dict(n, inner=[a])
        return None

    def inlined(self, f):
        out, todo = [], [f]
        while todo:
            for c in self.helpers.get(todo.pop(), []):
                if callee(c) not in out:
                    out.append(callee(c))
                    todo.append(callee(c))
        return out

    def cell(self, ex, st, v):
        if v.prov is None:
            return tz(ex.rd(st, '*ptr' if v.ty[1][0] in ('ptr', 'void') else tykey(v.ty[1]), v.i()))
        return tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

    def places(self, ex, st):
        """lvalues (b, n) of the buffers the function being checked, or a helper inlined into it, enlarges"""
        out, seen = [], set()
        fs = [ex.cur] + self.inlined(ex.cur)
        for f in fs:
            for b, n in self.pairs.get(f, []):
                mute = ex.mute
                ex.mute = True
                try:
                    s = st.copy()
                    lb = ex.lv(b, s)
                    ln = ex.lv(n, lb[0][1])
                    if len(lb) != 1 or len(ln) != 1:
                        continue
                    lb, ln = lb[0][0], ln[0][0]
                except Exception:
                    continue
                finally:
                    ex.mute = mute
                key = (lb.k, lb.key, str(lb.idx), ln.key, str(ln.idx))
                if key not in seen:
                    seen.add(key)
                    out.append((lb, ln))
        return out

    def regions(self, ex, st, extra=True, shared=False):
        out = []
        for lb, ln in self.places(ex, st):
            if shared and (not lb.key.startswith('@') or '.' in lb.key):
                continue
            s = st.copy()
            out.append((tz(ex.load(s, lb).i()), tz(ex.load(s, ln).i())))
        if extra:
            out.append((st.gh['tb'], st.gh['tn']))
        return out

    def valid(self, ex, st):
        """what realloc_buffer guarantees and nothing else changes"""
        for b, n in self.regions(ex, st, False):
            st.assume(z3.And(b >= 0, b < BIG, n >= 0, n < BIG, (n > 0) == (b > 0), z3.Or(n == 0, n >= 8)))
            if self.words(ex):
                st.assume(n % 8 == 0)

    def words(self, ex):
        """does the function keep pointers in a buffer?"""
        if ex.cur not in self._words:
            def w(n):
                t = n.get('type', {}).get('qualType', '')
                return n.get('kind') in ('CStyleCastExpr', 'DeclRefExpr') and t == 'char **' or any(w(c) for c in n.get('inner', []) if c)
            self._words[ex.cur] = bool(self.pairs.get(ex.cur)) and w(ex.prog.funcs[ex.cur].body)
        return self._words[ex.cur]

    def gen_skip(self, name):
        return name in ('@_mutex', '@_sigflags') or name.startswith('@ed_')

    def after_auto(self, ex, name, args, pre, st, n):
        self.valid(ex, st)

    def small(self, ex, st, t):
        return z3.Or(*[z3.And(t >= 0, t <= n) for b, n in self.regions(ex, st, False, True)])

    def fail(self, c):
        """a request that cannot be satisfied is an error of the function"""
        if c.ret is None:
            return []
        bad = tz(c.ret) == 0 if self.rptr(c.ex) else tz(c.ret) < 0
        return [('a request that fails is reported', z3.Implies(c.post_st.gh['failed'], bad))]

    def rptr(self, ex):
        return ex.prog.funcs[ex.cur].ret.endswith('*')

    # ------------------------------------------------ states
    def init_state(self, ex, st):
        super().init_state(ex, st)
        G = st.gh
        G['failed'] = z3.BoolVal(False)
        if '_mutex' in ex.prog.globals:
            m = tz(ex.rd(st, '@_mutex', 0))
            st.assume(z3.And(m >= (1 if ex.cur == 'spl0' else 0), m < 1 << 20))
        G['sl'] = z3.Array('sl', IntS, IntS)
        G['tb'] = G['tn'] = G['ab'] = G['an'] = z3.IntVal(0)
        self.valid(ex, st)
        q = z3.Int('q')
        ll = ex.mem(st, 'ed_line_node.len').z()
        st.assume(FA([q], z3.And(0 <= ll[q], ll[q] < 1 << 46), [ll[q]]))
        st.assume(ll[tz(ex.path_read(st, 'ed.core.line_head'))] == 0)
        ti = ex.mem(st, 'ed_frame_node.text_i').z()
        st.assume(FA([q], z3.And(0 <= ti[q], ti[q] < 1 << 46), [ti[q]]))
        for p in ex.prog.funcs[ex.cur].params:
            if 'regmatch_t' in p['type']['qualType']:
                self.offsets(ex, st)
        for k in ex.ms.statics.values():
            if k.startswith('@' + ex.cur + '.'):
                st.assume(z3.And(tz(ex.rd(st, k, 0)) >= 0, tz(ex.rd(st, k, 0)) < BIG))
        for g in GLOBS:
            if g[1:] in ex.prog.globals:
                st.assume(z3.And(tz(ex.rd(st, g, 0)) >= 0, tz(ex.rd(st, g, 0)) < BIG))

    def offsets(self, ex, st):
        q = z3.Int('q')
        so, eo = ex.mem(st, 'regmatch_t.rm_so').z(), ex.mem(st, 'regmatch_t.rm_eo').z()
        st.assume(FA([q], z3.Or(z3.And(so[q] == -1, eo[q] == -1), z3.And(0 <= so[q], so[q] <= eo[q], eo[q] < 1 << 31)), [so[q]]))
        st.assume(FA([q], z3.Or(z3.And(so[q] == -1, eo[q] == -1), z3.And(0 <= so[q], so[q] <= eo[q], eo[q] < 1 << 31)), [eo[q]]))

    # ------------------------------------------------ stores
    def inside(self, ex, st, a, n):
        return z3.Or(*[z3.And(b <= a, a + n <= b + k, b > 0) for b, k in self.regions(ex, st)])

    def on_store(self, ex, st, lv, v):
        if ex.cur == 'realloc_buffer' or lv.k != 'mem' or lv.key is None:
            return
        if lv.key == '*8':
            g = self.inside(ex, st, tz(lv.idx), 1)
            if ex.cur == 'expand_shell_command':
                g = z3.Or(g, self.empty_command(ex, st, tz(lv.idx)))
            ex.oblige(st, 'a character is stored within its buffer', g, ex.curline)
            a, sl = tz(lv.idx), st.gh['sl']
            nul = z3.simplify(tz(v.i()) == 0)
            for b, k in self.regions(ex, st, False):
                new = z3.If(z3.And(sl[b] >= 0, sl[b] <= a - b), sl[b], a - b) if z3.is_true(nul) else z3.IntVal(-1)
                sl = self.put(st, sl, b, z3.If(z3.And(b <= a, a < b + k), new, sl[b]))
            st.gh['sl'] = sl
            return
        if lv.key.startswith('*32'):
            if isc(lv.idx):
                return
            ex.oblige(st, 'a number is stored within its buffer', self.inside(ex, st, tz(lv.idx), 4), ex.curline)
            return
        if lv.key.startswith('regmatch_t.') and not isc(lv.idx):
            ex.oblige(st, 'an offset is stored within its buffer', self.inside(ex, st, tz(lv.idx), 8), ex.curline)
            return
        if lv.key == '*ptr':
            ex.oblige(st, 'a pointer is stored within its buffer', self.inside(ex, st, tz(lv.idx), 8), ex.curline)
        strs = st.aux.get('strs') or {}
        if isc(v.i()) and v.i() in strs:
            st.gh['sl'] = z3.Store(st.gh['sl'], v.i(), len(strs[v.i()]))
        for lb, ln in self.places(ex, st):
            for l in (lb, ln):
                if l.key == lv.key and str(l.idx) == str(lv.idx):
                    old = tz(ex.load(st.copy(), l).i())
                    ex.oblige(st, 'a buffer and its size are changed by realloc_buffer only', z3.Or(tz(v.i()) == old, z3.And(tz(v.i()) == 0)), ex.curline)

    def put(self, st, sl, b, v):
        t = fresh('len')
        st.assume(t == v)
        return z3.Store(sl, b, t)

    def written(self, ex, st, a):
        """a text is no longer known to end where it did"""
        sl = st.gh['sl']
        for b, k in self.regions(ex, st, False):
            sl = self.put(st, sl, b, z3.If(z3.And(b <= a, a < b + k), -1, sl[b]))
        st.gh['sl'] = sl

    def empty_command(self, ex, st, a):
        return z3.Or(*[z3.And(b == 0, n == 0, a == 0) for b, n in self.regions(ex, st, False)])

    # ------------------------------------------------ calls
    def on_call(self, ex, name, args, st, n):
        if name is None:
            return None
        G = st.gh
        ln = n_line(n)
        nm = base_name(name)
        argn = n['inner'][1:]
        if ex.cur == 'realloc_buffer':
            if nm == 'realloc':
                f = st.copy()
                nb = fresh('nb')
                st.assume(z3.And(nb > 0, tz(args[1].i()) < 1 << 63))
                st.gh['ab'], st.gh['an'] = nb, tz(args[1].i())
                ex.oblige(st, 'the block enlarged is the previous one', tz(args[0].i()) == tz(self.cellp(ex, 0)), ln)
                return [(Val(nb, ('ptr', VOID)), st), (Val(0, ('ptr', VOID)), f)]
            return None
        if nm in COPY or nm == 'fread':
            d = tz(args[0].i())
            L = tz(args[2].i()) if nm != 'fread' else tz(args[1].i()) * tz(args[2].i())
            g = self.inside(ex, st, d, L)
            if ex.cur == 'expand_shell_command' and nm == 'memmove':
                st.assume(z3.And(L >= 1, L < 1 << 63))
            ex.oblige(st, 'a block is copied within its buffer', z3.Or(L == 0, g), ln)
            self.written(ex, st, d)
            ex.havoc_keys(st, {('*8', None)})
            if nm == 'fread':
                v = fresh('fread')
                st.assume(z3.And(0 <= v, v <= tz(args[2].i())))
                return [(Val(v, SIZE), st)]
            return [(Val(d, ('ptr', CHAR)), st)]
        if nm in ('strcpy', 'stpcpy'):
            d, s = tz(args[0].i()), tz(args[1].i())
            k = self.length(ex, st, args[1], argn[1])
            ex.oblige(st, 'the length of the text copied is known', z3.Or(k >= 0, d == s), ln)
            ex.oblige(st, 'a text is copied within its buffer', z3.Or(self.inside(ex, st, d, k + 1), d == s), ln)
            self.written(ex, st, d)
            G['sl'] = self.put(st, G['sl'], d, k)
            ex.havoc_keys(st, {('*8', None)})
            return [(Val(d, ('ptr', CHAR)), st)]
        if nm in ('sprintf', 'snprintf'):
            a, an = (args[1:], argn[1:])
            at = 1
            if nm == 'snprintf':
                at = 2
            if '_chk' in name:
                at = {'sprintf': 3, 'snprintf': 4}[nm]
            d = tz(args[0].i())
            strs = st.aux.get('strs') or {}
            if nm == 'snprintf':
                L = tz(args[1].i())
            else:
                f = args[at].i()
                import re
                # the format, or all those chosen from
                fmts = [strs[f]] if isc(f) and f in strs else self.literals(argn[at])
                ex.oblige(st, 'the format is known', z3.BoolVal(bool(fmts)), ln)
                Ls = []
                for fm in fmts:
                    ps = re.findall(rb'%[^%a-z]*[a-z]+', fm)
                    L = z3.IntVal(1 + len(fm) - sum(map(len, ps)))
                    for j, x in enumerate(ps):
                        if x == b'%s':
                            k = self.length(ex, st, args[at + 1 + j], argn[at + 1 + j])
                            ex.oblige(st, 'the length of the text printed is known', k >= 0, ln)
                            L = L + k
                        else:
                            L = L + 24
                    Ls.append(L)
                L = fresh('printed')
                st.assume(z3.And(*[L >= x for x in Ls] + [z3.Or(*[L == x for x in Ls])]) if Ls else L == 0)
            ex.oblige(st, 'a text is printed within its buffer', self.inside(ex, st, d, L), ln)
            self.written(ex, st, d)
            ex.havoc_keys(st, {('*8', None)})
            v = fresh('printed')
            st.assume(z3.And(0 <= v, v < 1 << 31))
            return [(Val(v, INT), st)]
        if nm == 'strlen':
            s = tz(args[0].i())
            strs = st.aux.get('strs') or {}
            if isc(args[0].i()) and args[0].i() in strs:
                G['sl'] = z3.Store(G['sl'], args[0].i(), len(strs[args[0].i()]))
                return [(Val(len(strs[args[0].i()]), SIZE), st)]
            v = fresh('strlen')
            st.assume(z3.And(0 <= v, v < 1 << 46, z3.Implies(G['sl'][s] >= 0, v <= G['sl'][s])))
            G['sl'] = z3.Store(G['sl'], s, v)
            return [(Val(v, SIZE), st)]
        if nm == 'strchr':
            v = fresh('strchr')
            st.assume(z3.Or(v == 0, z3.And(v >= tz(args[0].i()), v < BIG)))
            return [(Val(v, ('ptr', CHAR)), st)]
        if nm in ('regexec', 'rpl_regexec'):
            m = tz(args[3].i())
            ex.oblige(st, 'the offsets of a match are stored within their buffer', z3.Or(m == 0, self.inside(ex, st, m, 8 * tz(args[2].i()))), ln)
            ex.havoc_keys(st, {('regmatch_t.rm_so', None), ('regmatch_t.rm_eo', None)})
            f = st.copy()
            self.offsets(ex, st)
            st.assume(tz(ex.rd(st, 'regmatch_t.rm_so', tz(args[3].i()))) >= 0)
            return [(Val(0, INT), st), (Val(1, INT), f)]
        return None

    def cellp(self, ex, k):
        p = z3.Int('arg:%s' % ex.prog.funcs[ex.cur].params[k].get('name'))
        return ex.rd(ex.pre, '*out:%s' % ex.prog.funcs[ex.cur].params[k].get('name'), 0)

    def literals(self, n):
        import ast
        if n.get('kind') == 'StringLiteral':
            try:
                return [ast.literal_eval('b' + n['value'])]
            except Exception:
                return []
        if n.get('kind') == 'ConditionalOperator':
            a, b = self.literals(n['inner'][1]), self.literals(n['inner'][2])
            return a + b if a and b else []
        if n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            return self.literals(n['inner'][-1])
        return []

    def length(self, ex, st, v, n):
        n = strip(n)
        if n.get('kind') == 'StringLiteral':
            import ast
            try:
                return z3.IntVal(len(ast.literal_eval('b' + n['value'])))
            except Exception:
                pass
        q = n.get('type', {}).get('qualType', '')
        if n.get('kind') == 'DeclRefExpr' and q.endswith(']') and 'char' in q:
            return z3.IntVal(int(q[q.rindex('[') + 1:-1]) - 1)
        strs = st.aux.get('strs') or {}

        def lit(t):
            """the length of a literal, or of that chosen of several"""
            if isc(t) or z3.is_int_value(t):
                a = t if isc(t) else t.as_long()
                return z3.IntVal(len(strs[a])) if a in strs else None
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                a, b = lit(t.arg(1)), lit(t.arg(2))
                return None if a is None or b is None else z3.If(t.arg(0), a, b)
            return None
        k = lit(v.i())
        if k is not None:
            return k
        k = st.gh['sl'][tz(v.i())]
        st.assume(k < BIG)
        return k

    def on_load(self, ex, st, lv):
        if lv.k == 'mem' and lv.key == '*8' and not isc(lv.idx):
            k = ('rd', lv.idx.get_id())
            if k not in st.ranged:
                st.ranged.add(k)
                ex._keep(lv.idx)
                st.assume(z3.And(lv.idx > 0, lv.idx < BIG))
            if ex.cur == 'apply_subst_template' and 'rhs' in ex.prog.globals and 'rhs_i' in ex.prog.globals:
                st.assume(z3.Implies(lv.idx == tz(ex.rd(st, '@rhs', 0)) + tz(ex.rd(st, '@rhs_i', 0)), tz(ex.rd(st, '*8', lv.idx)) == 0))

    # ------------------------------------------------ loops
    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        vals = []
        for i in entry.vars:
            t = ex.lty(entry, i)
            if t[0] == 'int' and t[1] in (32, 64):
                vals.append((short(i), t, lambda s, i=i: tz(ex.lrd(s, i))))
            elif t[0] == 'ptr' and t[1][0] == 'int' and t[1][1] == 8:
                vals.append((short(i), t, lambda s, i=i: tz(ex.lrd(s, i))))
        for w in entry.vars.values():
            if w.prov is not None and w.prov[0].startswith('*out:') and w.ty[0] == 'ptr' and w.ty[1][0] == 'int' and w.ty[1][1] in (32, 64):
                vals.append(('*' + w.prov[0], w.ty[1], lambda s, w=w: self.cell(ex, s, w)))
        for g in GLOBS:
            if g[1:] in ex.prog.globals:
                vals.append((g, ('int', 64, False), lambda s, g=g: tz(ex.rd(s, g, 0))))
        if ('ed_buffer.input', None) in keys or any(k == 'ed_buffer.input' for k, p in keys):
            vals.append(('input', ('ptr', CHAR), lambda s: tz(ex.path_read(s, 'ed.input'))))
        ps = self.places(ex, entry)
        for l in ps:
            rec = l[0].key.split('.')[0] + '.'
            if '.' in l[0].key and not l[0].key.startswith('@') and not l[0].key.startswith('%'):
                for k in sorted({k for k, p in keys if k.startswith(rec) and k not in (l[0].key, l[1].key)}):
                    t = ex.key_type(k)
                    if t and t[0] == 'int' and t[1] == 64:
                        vals.append(('*' + k, t, lambda s, k=k, l=l: tz(ex.rd(s, k, l[0].idx))))
        B = [(lambda s, l=l: tz(ex.load(s.copy(), l[0]).i()), lambda s, l=l: tz(ex.load(s.copy(), l[1]).i())) for l in ps]
        G = lambda s: s.gh
        if ex.cur not in ('apply_subst_template', 'substitution_template'):
            vals = [v for v in vals if v[0] not in GLOBS]
        if any(k == '@_mutex' for k, p in keys):
            m0 = tz(ex.rd(entry, '@_mutex', 0))
            out.append(('the section is kept', lambda s: z3.And(tz(ex.rd(s, '@_mutex', 0)) == m0, m0 > 0)))
        out.append(('no request failed', lambda s: z3.Not(G(s)['failed'])))
        for k, (b, sz) in enumerate(B):
            nm = 'buffer %d' % k
            out.append((nm + ' valid', lambda s, b=b, sz=sz: z3.And(b(s) >= 0, b(s) < BIG, sz(s) >= 0, sz(s) < BIG, z3.Implies(sz(s) > 0, b(s) > 0))))
            out.append((nm + ' allocated', lambda s, b=b, sz=sz: z3.And(b(s) > 0, sz(s) > 0)))
            for vn, t, f in vals:
                if t[0] == 'int' and self.words(ex):
                    out.append(('%s pointers and one more fit %s' % (vn, nm), lambda s, f=f, sz=sz: z3.And(0 <= f(s), 8 * f(s) + 8 <= sz(s))))
                    out.append(('%s pointers and one more fit %s, if it is allocated' % (vn, nm), lambda s, f=f, sz=sz, b=b: z3.And(0 <= f(s), z3.Or(z3.And(f(s) == 0, b(s) == 0, sz(s) == 0), 8 * f(s) + 8 <= sz(s)))))
                    out.append(('%s pointers and two more fit %s, if it is allocated' % (vn, nm), lambda s, f=f, sz=sz, b=b: z3.And(0 <= f(s), z3.Or(f(s) == 0, 8 * f(s) + 16 <= sz(s)))))
                if t[0] == 'int' and t[1] == 64:
                    out.append(('%s <= size of %s' % (vn, nm), lambda s, f=f, sz=sz: z3.And(0 <= f(s), f(s) <= sz(s))))
                    out.append(('%s < size of %s, if it is allocated' % (vn, nm), lambda s, f=f, sz=sz, b=b: z3.And(0 <= f(s), z3.Or(f(s) < sz(s), z3.And(f(s) == 0, sz(s) == 0, b(s) == 0)))))
                    out.append(('%s < size of %s' % (vn, nm), lambda s, f=f, sz=sz: z3.And(0 <= f(s), f(s) < sz(s))))
                if t[0] == 'ptr':
                    out.append(('%s in %s' % (vn, nm), lambda s, f=f, b=b, sz=sz: z3.And(b(s) <= f(s), f(s) <= b(s) + sz(s))))
        ptrs = [(vn, f) for vn, t, f in vals if t[0] == 'ptr']
        for vn, t, f in vals:
            if t[0] == 'int':
                out.append(('%s is a length' % vn, lambda s, f=f: z3.And(0 <= f(s), f(s) < BIG)))
                out.append(('%s is not 0' % vn, lambda s, f=f: z3.And(1 <= f(s), f(s) < BIG)))
                for pn, p in ptrs if not B else []:
                    e = z3.simplify(f(entry) + p(entry))
                    out.append(('%s + %s const' % (vn, pn), lambda s, f=f, p=p, e=e: f(s) + p(s) == e))
            if t[0] == 'ptr':
                out.append(('%s is an address' % vn, lambda s, f=f: z3.And(f(s) > 0, f(s) < BIG)))
                if isinstance(entry.vars, dict):
                    e = f(entry)
                    out.append(('%s is not below entry' % vn, lambda s, f=f, e=e: f(s) >= e))
        ints = [(vn, f) for vn, t, f in vals if t[0] == 'int' and t[1] == 64]
        loc = [(vn, f) for vn, f in ints if not vn.startswith('@') and not vn.startswith('*')]
        acc = [(vn, f) for vn, f in ints if vn.startswith('@') or vn.startswith('*')] + loc
        if ex.cur == 'apply_subst_template' and '@rhs' in [g for g in ('@' + x for x in ex.prog.globals)]:
            rhs, ri = (lambda s: tz(ex.rd(s, '@rhs', 0))), (lambda s: tz(ex.rd(s, '@rhs_i', 0)))
            for vn, f in loc:
                for pn, p in ptrs:
                    out.append(('%s grows half as fast as %s' % (vn, pn), lambda s, f=f, p=p: z3.And(f(s) >= 1, 2 * (f(s) - 1) <= p(s) - rhs(s))))
            for pn, p in ptrs:
                out.append(('%s is not after the end of the template' % pn, lambda s, p=p: z3.And(rhs(s) <= p(s), p(s) <= rhs(s) + ri(s) + 1)))
            for k, (b, sz) in enumerate(B):
                out.append(('buffer %d holds the marks' % k, lambda s, sz=sz: sz(s) > (ri(s) / 2 + 1) * 4))
        if ex.cur == 'exec_global':
            def new(s, i, f, b):
                inp = tz(ex.path_read(s, 'ed.input'))
                k = G(s)['sl'][inp]
                return z3.Or(tz(ex.lrd(s, i)) != 0, inp == b(s), z3.And(0 <= k, k <= f(s) + 1, f(s) < BIG))
            for i in entry.vars:
                if ex.lty(entry, i) == INT:
                    for vn, f in ints:
                        for k, (b, sz) in enumerate(B):
                            out.append(('the text is new, of length %s' % vn, lambda s, i=i, f=f, b=b: new(s, i, f, b)))
        for vn, f in acc:
            for an, a in loc:
                if vn != an and vn.startswith('*'):
                    out.append(('%s > %s' % (vn, an), lambda s, f=f, a=a: z3.And(a(s) >= 0, f(s) > a(s))))
                if vn != an and '.' in vn:
                    for k, (b, sz) in enumerate(B):
                        out.append(('%s + %s <= size of buffer %d' % (vn, an, k), lambda s, f=f, a=a, sz=sz: z3.And(f(s) >= 0, a(s) >= 0, f(s) + a(s) <= sz(s))))
        mod = {short(i) for i in locs}
        if B and not self.words(ex):
            every = ex.cur == 'apply_subst_template' or ex.stack
            for vn, f in acc:
                for an, a in loc:
                    for bn, b2 in loc:
                        if an == bn or vn in (an, bn) or not every and (an in mod or bn not in mod):
                            continue
                        for k, (b, sz) in enumerate(B):
                            out.append(('%s + %s - %s < size of buffer %d' % (vn, an, bn, k),
                                        lambda s, f=f, a=a, b2=b2, sz=sz: z3.Implies(b2(s) <= a(s), f(s) + a(s) - b2(s) < sz(s))))
        return out


def strip_paren(n):
    while n.get('kind') == 'ParenExpr':
        n = n['inner'][0]
    return n


SIZE = ('int', 64, False)
INT = ('int', 32, True)
CHAR = ('int', 8, True)
GLOBS = ['@rhs_i']
FUNCS = ['get_buffer_line', 'get_stream_line', 'get_extended_line', 'join_lines', 'exec_global', 'regular_expression', 'substitution_template',
         'substitute_matching', 'apply_subst_template', 'fb_putc', 'fb_putwc', 'file_name', 'expand_shell_command', 'is_valid_name', 'write_stream',
         'realloc_buffer', 'getenv_init_argv', 'append_address_command', 'append_script_file', 'collect_address_args', 'create_disk_buffer', 'next_edit', 'save_edit',
         'dup_argv', 'file_glob', 'normalize_frame_buffer', 'count_matches', 'E_cmd', 'f_cmd', 'r_cmd', 'w_cmd', 'trailing_escapes', 'character_class', 'decode_utf8_char', 'utf8_char_size', 'init_frame_buffer', 'spl1', 'spl0']


def tasks(prog):
    from run import Task
    v = GrowView(prog)
    # any other function that enlarges a buffer, unless it is a helper inlined into those that call it
    more = [f for f in prog.funcs if v.pairs.get(f) and f not in FUNCS and f in v.known]
    return [Task(v, f, 150) for f in FUNCS + more if f in prog.funcs]
