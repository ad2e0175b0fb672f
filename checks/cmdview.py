"""The command layer: every command function of exec.c, the editing primitives it calls, and the
scalar state (current line, line count, modified flag, undo state) they must keep.

Ghost state
  node     the line sequence (index -> line), as in listview; the primitives' contracts say how it changes
  touched  some link of the list or the line count was changed since the function was entered
  reset    the undo record was reset since the function was entered
  dest     last destination parsed (region.end after the last address_range)
  inp      start of the text a command suffix is read from (entry input, or the end of the last parsed operand)
  wrote    the last successful write_file wrote the whole buffer
"""
from checks.listview import *
from checks.dispview import disp_range

DOT, MOD, EMPTY = 'ed.state.dot', 'ed.state.is_modified', 'ed.state.is_empty'
TR, FL = z3.BoolVal(True), z3.BoolVal(False)
k0 = z3.Int('k!any')


class S(object):
    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def p(self, path):
        return tz(self.ex.path_read(self.st, path))
    N = property(lambda s: s.p(LINES))
    dot = property(lambda s: s.p(DOT))
    mod = property(lambda s: s.p(MOD))
    empty = property(lambda s: s.p(EMPTY))
    node = property(lambda s: s.st.gh['node'])
    touched = property(lambda s: s.st.gh['touched'])
    start = property(lambda s: s.p('ed.exec.region.start'))
    end = property(lambda s: s.p('ed.exec.region.end'))
    addrs = property(lambda s: s.p('ed.exec.region.addrs'))
    glob = property(lambda s: s.p('ed.exec.global'))
    io_f = property(lambda s: s.p('ed.core.regbuf.io_f'))
    inp = property(lambda s: s.p('ed.input'))
    opt = property(lambda s: s.p('ed.exec.opt'))

    def ch(self, a):
        return tz(self.ex.rd(self.st, '*8', a))

    def opt_bit(self, m):
        b = self.ex.bit(self.st, self.opt, m.bit_length() - 1)
        return z3.BoolVal(b) if isinstance(b, bool) else b


def AB(c):
    return S(c.ex, c.pre_st), S(c.ex, c.post_st)


def mx(a, b):
    return z3.If(a >= b, a, b)


def mn(a, b):
    return z3.If(a <= b, a, b)


def nz(a):
    return mx(a, z3.IntVal(1))


def inv(ex, st):
    s = S(ex, st)
    d1, l1, e1 = s.p('ed.state.1.dot'), s.p('ed.state.1.lines'), s.p('ed.state.1.is_empty')
    return [
        ('the line count is not negative', s.N >= 0),
        ('the current line is a line of the buffer', z3.And(0 <= s.dot, s.dot <= s.N)),
        ('only a buffer without lines counts as empty', z3.Implies(s.empty != 0, s.N == 0)),
        ('the current line undo returns to is a line of that buffer',
         z3.Or(d1 == -1, l1 == -1, z3.And(0 <= d1, d1 <= l1, z3.Implies(e1 != 0, l1 == 0)))),
    ]


def inv_pre(c):
    return inv(c.ex, c.pre_st)


def inv_post(c):
    return inv(c.ex, c.post_st)


def kept(c, cond=TR, what=('N', 'dot', 'mod', 'touched', 'node')):
    """if cond, the buffer is as before"""
    a, b = AB(c)
    f = []
    if 'N' in what:
        f.append(a.N == b.N)
    if 'dot' in what:
        f.append(a.dot == b.dot)
    if 'mod' in what:
        f.append(a.mod == b.mod)
    if 'touched' in what:
        f.append(b.touched == a.touched)
    if 'node' in what and c.mode == 'call':
        f.append(a.node == b.node)
    return z3.Implies(cond, z3.And(*f))


def run_ins(c, A):
    """lines are inserted after position A, nothing else changes (node facts: contracts proved with C01)"""
    a, b = AB(c)
    i = i_
    d = b.N - a.N
    out = [('lines are only added', d >= 0)]
    if c.mode == 'call':
        out += [('ghost', FA([i], z3.Implies(z3.And(0 <= i, i <= A), b.node[i] == a.node[i]), [b.node[i]])),
                ('ghost', FA([i], z3.Implies(z3.And(i > A + d, i <= b.N), b.node[i] == a.node[i - d]), [b.node[i]])),
                ('ghost', b.touched == z3.Or(a.touched, d > 0)),
                ('ghost', z3.Implies(d == 0, a.node == b.node))]
    else:
        out += [('the list is relinked only if lines are added', z3.Implies(d == 0, b.touched == a.touched))]
    return out


LISTKEYS = (F, B, 'ed_state.lines')
GM = ('touched', 'node')


class CmdView(BView):
    merge_limit = 10
    watch = True
    inv_timeout = 2000
    max_acc = 10
    or_sign = property(lambda s: 'c01' in s.want and s.cur_cmd == 'd_cmd')
    cur_cmd = None
    ghosts_on = True
    qkeys = frozenset()
    ranges = {'ed_display.ws_row': (2, (1 << 31) - 1), '@des_n': (0, 8), '@des_ct': (-1, 8)}
    no_houdini = ('exec_global',)
    # which families of obligations are generated
    want = {'c03', 'c01', 'c02', 'c08', 'c18'}
    COMMANDS = {}

    def __init__(self, prog, want=None):
        super().__init__(prog)
        if want:
            self.want = set(want)
        self.ghost_deps = {'node': list(LISTKEYS)}
        self.make(prog)
        self.contracts = {k: v for k, v in self.contracts.items() if k in prog.funcs}
        self.inlines |= {'is_valid_range', 'c_cmd', 'E_cmd', 'normalize_frame_buffer', 'invalid_cmd',
                         'check_address_bounds', 'init_ed_state'}

    # ------------------------------------------------ state
    def init_state(self, ex, st):
        super().init_state(ex, st)
        ex.wr(st, 'ed_core.line_head', z3.Int('ed_core'), HEAD)
        st.assume(HEAD > 0)
        st.gh['node'] = z3.Array('node', IntS, IntS)
        st.gh['touched'] = FL
        st.gh['reset'] = FL
        st.gh['wrote'] = FL
        st.gh['dest'] = z3.Int('dest0')
        st.gh['inp'] = tz(ex.path_read(st, 'ed.input'))
        st.gh['eff'] = FL
        st.gh['adr'] = FL
        st.gh['dot0'] = tz(ex.path_read(st, DOT))
        st.gh['eos'] = FL
        st.gh['noteof'] = FL
        for p in ('ed.state.1.dot', 'ed.state.1.lines', 'ed.state.1.is_empty', DOT, LINES, MOD, EMPTY,
                  'ed.exec.region.start', 'ed.exec.region.end', 'ed.exec.region.addrs', 'ed.exec.global', 'ed.exec.opt',
                  'ed.core.regbuf.io_f'):
            ex.path_read(st, p)

    def on_store(self, ex, st, lv, v):
        if lv.k != 'mem':
            return
        if lv.key in (F, B):
            if not any(same(f, lv.idx) for f in st.fr):
                st.gh['touched'] = TR
        elif lv.key == 'ed_state.lines' and not (isc(lv.idx)):
            a = self.lines_cell(ex, st)
            if same(a, lv.idx):
                st.gh['touched'] = TR

    def lines_cell(self, ex, st):
        return ex.path_cell(st, LINES.split('.'))[1]

    def after_auto(self, ex, name, args, pre, st, n):
        ks = {k for k, p in ex.ms.of_func(name)}
        if ks & set(LISTKEYS):
            st.gh['touched'] = fresh_bool('touched')
            st.gh['reset'] = fresh_bool('reset')
        if name in ('address_range',) or 'ed_buffer.input' in ks:
            st.gh['inp'] = tz(ex.path_read(st, 'ed.input'))

    def entry(self, ex, name, args, st):
        self.cur_cmd = name
        s = S(ex, st)
        st.assume(s.inp > 0)
        if name == 'exec_command':
            ex.const_tables(st, [g for g in ex.prog.static_globals_init if 'ed_command_t' in ex.prog.globals.get(g, '') or g == 'ed_cmd'])
        if ex.variant in ('plain', 'read'):
            key, idx = ex.path_cell(st, 'ed.core.regbuf.io_f'.split('.'))
            ex.wr(st, key, idx, 0 if ex.variant == 'plain' else self.enums['REGISTER_READ'])

    # ------------------------------------------------ contracts of the primitives
    def make(self, prog):
        C = self.contracts
        V = self

        def mk(name, **kw):
            kw.setdefault('ghost_mod', GM)
            C[name] = Contract(name, **kw)

        def fresh_undo(c):
            """a change is recorded against an undo state taken at the start of the command"""
            if 'c02' not in V.want or c.ex.cur in V.NOUNDO:
                return []
            return [('undo was reset at the start of the command (or a global command did)',
                     z3.Or(c.pre_st.gh['reset'], c.pre.p('ed.exec.global') != 0))]

        rngok = lambda c: [('the range lies in the buffer', And(
            cmp('>=', c.args[0].i(), 1), cmp('<=', c.args[0].i(), c.args[1].i()), cmp('<=', c.args[1].i(), c.pre.p(LINES))))]

        def atok(k):
            return lambda c: [('the destination is a line of the buffer', And(
                cmp('>=', c.args[k].i(), 0), cmp('<=', c.args[k].i(), c.pre.p(LINES))))]

        # delete_lines
        def del_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            out = [('the line count drops by the size of the range', b.N == a.N - z3.If(ok, t - f + 1, 0)),
                   ('the current line precedes the range', z3.Implies(ok, b.dot == f - 1)),
                   ('the buffer counts as modified', z3.Implies(ok, b.mod != 0)),
                   ('a failure changes nothing', kept(c, z3.Not(ok)))]
            if c.mode == 'call':
                out += [('ghost', z3.Implies(ok, z3.And(b.touched, FA([i_], b.node[i_] == z3.If(
                    i_ < f, a.node[i_], a.node[i_ + t - f + 1]), [b.node[i_]]))))]
            return out + inv_post(c)
        mk('delete_lines', requires=lambda c: inv_pre(c) + rngok(c) + fresh_undo(c), ensures=del_ens,
           frame=lambda c: [V.same(c, EMPTY), V.same(c, 'ed.state.is_binary')])

        # runs of lines
        def run(arg, name, mod, dotq, extra=None, req=None):
            def ens(c):
                A = tz(c.args[arg].i())
                a, b = AB(c)
                d = b.N - a.N
                out = run_ins(c, A) + [('the current line is the last line added' + ('' if dotq else ' (or stays)'),
                                        b.dot == A + d if dotq else z3.Or(b.dot == A + d, z3.And(d == 0, b.dot == a.dot)))]
                if mod:
                    out += [('the buffer counts as modified if lines were added', z3.Implies(d > 0, b.mod != 0)),
                            ('no lines added: status as before', z3.Implies(d == 0, b.mod == a.mod))]
                else:
                    out += [('a modified buffer stays modified', z3.Implies(a.mod != 0, b.mod != 0))]
                if extra:
                    out += extra(c, a, b, d, A)
                return out + inv_post(c)
            mk(name, requires=lambda c: inv_pre(c) + atok(arg)(c) + fresh_undo(c) + (req(c) if req else []), ensures=ens)
        run(0, 'append_lines', True, True)

        def reads(c, a, b, d, A):
            out = [('a failure after lines were read counts as a modification', z3.Implies(z3.And(tz(c.ret) < 0, d > 0), b.mod != 0))]
            return out

        def reads1(c, a, b, d, A):
            v = V.out(c, 2)
            return reads(c, a, b, d, A) + ([('lines read count bytes', z3.Implies(z3.And(tz(c.ret) >= 0, d > 0), v > 0))] if v is not None else [])

        def counts(k):
            def f(c, a, b, d, A):
                v = V.out(c, k)
                return reads(c, a, b, d, A) + ([('the number of lines read is reported', z3.Implies(tz(c.ret) >= 0, v == d))] if v is not None else [])
            return f
        run(1, 'read_file', False, False, counts(2))
        run(1, 'read_pipe', False, False, counts(2))
        run(1, 'read_stream', False, True, reads1)
        run(1, 'read_stream_r', False, False, reads)
        run(0, 'append_from_register', False, False, lambda c, a, b, d, A: [('the buffer counts as modified if lines were added', z3.Implies(d > 0, b.mod != 0))])
        run(2, 'copy_lines', True, False, lambda c, a, b, d, A: [
            ('the whole range is copied', z3.Implies(tz(c.ret) >= 0, d == tz(c.args[1].i()) - tz(c.args[0].i()) + 1))], req=rngok)

        def move_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            f, t, w = [tz(c.args[k].i()) for k in range(3)]
            out = [('the line count is unchanged', b.N == a.N),
                   ('the current line is the last line moved', z3.Implies(ok, b.dot == z3.If(w >= t, w, z3.If(w == f - 1, t, w + t - f + 1)))),
                   ('the buffer counts as modified', z3.Implies(ok, b.mod != 0)),
                   ('a failure leaves the current line and the list', z3.Implies(z3.Not(ok), z3.And(b.dot == a.dot, b.touched == a.touched, b.mod == a.mod)))]
            if c.mode == 'call':
                n1, x1 = b.node, fresh_arr('idx')

                class A2:
                    node, idx = a.node, x1
                d = V.def_move(A2, n1, x1, f, t, w)
                noop = z3.Or(w == t, w == f - 1)
                out += [('ghost', z3.Implies(z3.And(ok, z3.Not(noop)), z3.And(d[0], b.touched))),
                        ('ghost', z3.Implies(z3.Or(z3.Not(ok), noop), z3.And(n1 == a.node, b.touched == a.touched)))]
            return out + inv_post(c)
        mk('move_lines', requires=lambda c: inv_pre(c) + rngok(c) + atok(2)(c) + fresh_undo(c) + [
            ('the destination is outside the range', Or(cmp('<', c.args[2].i(), c.args[0].i()), cmp('>=', c.args[2].i(), c.args[1].i())))],
            ensures=move_ens)

        # join: the range becomes one line
        def edge_facts(c, f, t, out):
            """lines before f and after t keep their content and order (node facts proved with C01)"""
            a, b = AB(c)
            d = b.N - a.N
            if c.mode == 'call':
                out += [('ghost', FA([i_], z3.Implies(z3.And(0 <= i_, i_ < f), b.node[i_] == a.node[i_]), [b.node[i_]])),
                        ('ghost', FA([i_], z3.Implies(z3.And(i_ > t + d, i_ <= b.N), b.node[i_] == a.node[i_ - d]), [b.node[i_]])),
                        ('ghost', z3.Implies(z3.And(b.N == a.N, b.touched == a.touched), a.node == b.node)) if False else ('ghost', TR)]
            return out

        def join_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            out = [('the range becomes one line', z3.Implies(ok, b.N == a.N - (t - f))),
                   ('the current line is the joined line', z3.Implies(ok, b.dot == f)),
                   ('the buffer counts as modified', z3.Implies(b.touched, z3.Or(a.touched, b.mod != 0))),
                   ('a failure that touches nothing keeps the current line', z3.Implies(z3.And(z3.Not(ok), b.touched == a.touched, z3.Not(a.touched)), z3.And(b.dot == a.dot, b.N == a.N, b.mod == a.mod))),
                   ('a modified buffer stays modified', z3.Implies(a.mod != 0, b.mod != 0)),
                   ('no line outside the range is lost', b.N >= a.N - (t - f + 1))]
            if c.mode == 'call':
                out += [('ghost', z3.Implies(ok, b.touched)), ('ghost', z3.Implies(a.touched, b.touched)),
                        ('ghost', z3.Implies(z3.Not(b.touched), a.node == b.node))]
            edge_facts(c, f, t, out)
            return out + inv_post(c)
        mk('join_lines', requires=lambda c: inv_pre(c) + rngok(c) + fresh_undo(c), ensures=join_ens)

        def subst_ens(c):
            a, b = AB(c)
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            out = [('the buffer counts as modified if a line was changed (output read into an empty buffer counts as loading it)', z3.Implies(z3.And(b.touched, a.N > 0), z3.Or(a.touched, b.mod != 0))),
                   ('a modified buffer stays modified', z3.Implies(a.mod != 0, b.mod != 0)),
                   ('no line changed: the count is as before, and on success the current line', z3.Implies(z3.Not(b.touched), z3.And(b.N == a.N, z3.Implies(tz(c.ret) >= 0, b.dot == a.dot))))]
            if c.mode == 'call':
                out += [('ghost', z3.Implies(a.touched, b.touched)), ('ghost', z3.Implies(z3.Not(b.touched), a.node == b.node))]
                out += [('ghost', b.N >= a.N - (t - f + 1))]
            edge_facts(c, f, t, out)
            return out + inv_post(c)
        mk('substitute_lines', requires=lambda c: inv_pre(c) + rngok(c) + fresh_undo(c), ensures=subst_ens)

        def filt_ens(c):
            a, b = AB(c)
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            out = [('the buffer counts as modified if a line was changed (output read into an empty buffer counts as loading it)', z3.Implies(z3.And(b.touched, a.N > 0), z3.Or(a.touched, b.mod != 0))),
                   ('a modified buffer stays modified', z3.Implies(a.mod != 0, b.mod != 0)),
                   ('untouched: count and current line as before', z3.Implies(z3.And(z3.Not(b.touched)), z3.And(b.N == a.N))),
                   ('no line outside the range is lost', b.N >= a.N - (z3.If(a.addrs != 0, t - f + 1, 0))),
                   ('on success the output follows the lines before the range', z3.Implies(tz(c.ret) >= 0, z3.If(
                       a.addrs != 0, t + b.N - a.N >= 0, z3.BoolVal(True))))]
            if c.mode == 'call':
                out += [('ghost', z3.Implies(a.touched, b.touched)), ('ghost', z3.Implies(z3.Not(b.touched), a.node == b.node))]
            fe, te = z3.If(a.addrs != 0, f, a.dot + 1), z3.If(a.addrs != 0, t, a.dot)
            edge_facts(c, fe, te, out)
            return out + inv_post(c)
        mk('filter_lines', requires=lambda c: inv_pre(c) + [
            ('the range lies in the buffer (or the buffer is empty)', z3.Implies(c.pre.p('ed.exec.region.addrs') != 0, And(
                cmp('>=', c.args[0].i(), 1), cmp('<=', c.args[0].i(), c.args[1].i()), cmp('<=', c.args[1].i(), c.pre.p(LINES))))),
            ('without a range nothing is replaced', z3.Implies(tz(c.pre.p('ed.exec.region.addrs')) == 0, z3.And(
                tz(c.pre.p(LINES)) == 0, tz(c.args[0].i()) == 0, tz(c.args[1].i()) == 0)))] + fresh_undo(c), ensures=filt_ens)

        # input streams
        def gsl_ens(c):
            a, b = AB(c)
            n = V.out(c, 1)
            out = nolist(c) + [('other state is kept', V.samestate(c))]
            if n is not None:
                nm, nm0 = b.p('ed.state.newline_missing'), a.p('ed.state.newline_missing')
                out += [('a line has at least one byte', z3.Implies(tz(c.ret) != 0, n >= 1)),
                        ('only a line with text lacks its newline', z3.Implies(tz(c.ret) != 0, z3.Or(nm == 0, nm == nm0, z3.And(nm == 1, n >= 2))))]
                if c.mode == 'call' and c.ex.cur in ('read_stream', 'read_stream_r'):
                    out.append(('ghost', z3.Implies(tz(c.ret) == 0, nm == nm0)))     # proved under C07
                    c.ex.assumptions.add('fewer than 2^62 bytes are read at a time: byte counts do not overflow')
                    out += [('ghost', x + n < 1 << 62) for x in cells64(c)]
            return out
        def cells64(c):
            """the 64-bit counts the caller keeps (results and local variables), but the length of the line"""
            ex, st = c.ex, c.post_st
            for w in list(st.vars.values()):
                if w.prov is not None and w.prov[0].startswith('*out:') and w.ty[0] == 'ptr' and w.ty[1] == ('int', 64, True):
                    yield tz(ex.load(st, LV('mem', w.prov[0], w.prov[1], w.ty[1])).i())
            for i in list(st.vars):
                if ex.lty(st, i) == ('int', 64, True):
                    yield tz(ex.lrd(st, i))
        def gsl_entry(ex, st):
            ex.assumptions.add('get_stream_line never fails to return its (allocated) text buffer: a grown buffer is not null')
        mk('get_stream_line', ghost_mod=('eos',), ensures=gsl_ens, entry=gsl_entry)
        eosq = lambda c: [('end of file is reported only at the end of the stream, or on a read error', z3.Implies(tz(c.ret) < 0, c.post_st.gh['eos']))]
        mk('get_des_char', ghost_mod=('eos',), ensures=lambda c: nolist(c) + eosq(c) + [('other state is kept', V.samestate(c)), ('a byte or EOF', z3.And(tz(c.ret) >= -1, tz(c.ret) <= 255))])
        def rb_ens(c):
            n1, n0 = V.out(c, 1), V.outpre(c, 1)
            i = tz(c.args[2].i())
            out = nolist(c) + [('other state is kept', V.samestate(c))]
            if n1 is not None:
                out += [('the buffer holds what was asked for', z3.Implies(tz(c.ret) != 0, n1 >= i)),
                        ('a failure leaves the size alone', z3.Implies(tz(c.ret) == 0, n1 == n0))]
                if c.mode == 'call':
                    c.ex.assumptions.add('no allocation exceeds PTRDIFF_MAX bytes')
                    out += [('ghost', z3.Implies(tz(c.ret) != 0, n1 < (1 << 63)))]
            return out
        mk('realloc_buffer', ghost_mod=(), ensures=rb_ens)
        mk('cbc_encode', ghost_mod=(), ensures=lambda c: nolist(c) + [('other state is kept', V.samestate(c)), ('at most a block', z3.And(tz(c.ret) >= -1, tz(c.ret) <= 8))],
           requires=lambda c: [('at most a block', z3.And(tz(c.args[1].i()) >= 0, tz(c.args[1].i()) <= 8))])
        mk('cbc_decode', ghost_mod=('eos',), ensures=lambda c: nolist(c) + [('other state is kept', V.samestate(c)),
           ('nothing is decoded only at the end of the stream, or on a read error', z3.Implies(tz(c.ret) <= 0, c.post_st.gh['eos'])), ('at most a block', z3.And(tz(c.ret) >= -1, tz(c.ret) <= 8))])

        # output streams
        ws_ens = lambda c: [('lines, current line and status are kept', kept(c)) if c.mode != 'call' else ('ghost', kept(c)),
                            ('other state is kept', V.samestate(c)), V.plainerr(c)]
        mk('write_stream', ghost_mod=(), ensures=ws_ens)
        mk('put_stream_line', ghost_mod=(), ensures=ws_ens)

        # leaf list operations
        def pbl_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) != 0
            out = [('one line is added on success only', b.N == a.N + z3.If(ok, 1, 0)),
                   ('the current line is the new line', b.dot == a.dot + z3.If(ok, 1, 0)),
                   ('the modified status is left alone', b.mod == a.mod),
                   ('the buffer is not empty once it holds a line', z3.Implies(ok, b.empty == 0))]
            if c.mode == 'call':
                out += [('ghost', b.touched == z3.Or(a.touched, ok))]
            else:
                out += [('a failure changes nothing', z3.Implies(z3.Not(ok), b.touched == a.touched))]
            return out + inv_post(c)
        def pbl_entry(ex, st):
            ex.assumptions.add('put_buffer_line is given a valid text pointer; a pointer into a text is not null')
            st.assume(z3.Int('arg:%s' % ex.prog.funcs['put_buffer_line'].params[0].get('name')) > 0)
        mk('put_buffer_line', requires=inv_pre, entry=pbl_entry, ensures=pbl_ens)

        def aln_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) != 0
            out = [('one line is added on success only', b.N == a.N + z3.If(ok, 1, 0)),
                   ('the current line is kept', b.dot == a.dot),
                   ('the modified status is left alone', b.mod == a.mod),
                   ('the buffer is not empty once it holds a line', z3.Implies(ok, b.empty == 0))]
            if c.mode == 'call':
                out += [('ghost', b.touched == z3.Or(a.touched, ok))]
            else:
                out += [('a failure changes nothing', z3.Implies(z3.Not(ok), b.touched == a.touched))]
            return out + inv_post(c)
        mk('append_line_node', requires=inv_pre, ensures=aln_ens)
        nolist = lambda c: [('lines and current line are kept', kept(c))] if c.mode != 'call' else [('ghost', kept(c))]
        mk('append_undo_node', requires=lambda c: [], ensures=lambda c: nolist(c) + [('other state is kept', V.samestate(c))], ghost_mod=())
        mk('get_line_node', ghost_mod=(), ensures=nolist)
        mk('get_buffer_line', ghost_mod=(), ensures=nolist)
        mk('spl1', assigns=lambda c: [('@_mutex', 0)], ghost_mod=())
        mk('spl0', assigns=lambda c: ListView.spl_frame(V, c), ghost_mod=())
        mk('delete_global_nodes', ghost_mod=(), ensures=nolist)
        mk('reset_global_queue', ghost_mod=(), ensures=nolist)

        # undo
        def rst_req(c):
            if 'c02' not in V.want or c.ex.cur in V.NOUNDO or c.mode == 'verify':
                return []
            a = S(c.ex, c.pre_st)
            e = S(c.ex, c.ex.pre)
            return [('undo is reset before the command changes anything', z3.And(
                z3.Not(a.touched), a.dot == c.pre_st.gh['dot0'], a.mod == e.mod, a.N == e.N)),
                ('commands run by a global command leave its undo record alone', z3.Or(a.glob == 0, c.ex.cur == 'exec_global'))]

        def rst_ens(c):
            a, b = AB(c)
            out = [('undo returns to the state at this point (%s)' % f, b.p('ed.state.1.' + f) == a.p('ed.state.' + f))
                   for f in ('dot', 'lines', 'is_modified', 'is_empty', 'is_binary', 'newline_appended')]
            out += [('the current line is kept', b.dot == a.dot), ('the line count is kept', b.N == a.N),
                    ('the status is kept', b.mod == a.mod), ('the buffer stays as it is', b.empty == a.empty)]
            if c.mode == 'call':
                out += [('ghost', c.post_st.gh['reset']), ('ghost', b.node == a.node), ('ghost', b.touched == a.touched)]
            return out
        mk('reset_undo_queue', requires=lambda c: inv_pre(c) + rst_req(c), ensures=rst_ens, ghost_mod=GM + ('reset',))

        def und_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            out = []
            for f in ('dot', 'lines', 'is_modified', 'is_empty', 'is_binary', 'newline_appended'):
                p0, p1 = 'ed.state.' + f, 'ed.state.1.' + f
                out += [('undo brings back %s' % f, z3.Implies(ok, b.p(p0) == a.p(p1))),
                        ('undo remembers %s' % f, z3.Implies(ok, b.p(p1) == a.p(p0)))]
            if c.mode != 'call':
                out += [('nothing to undo: nothing changes', kept(c, z3.Not(ok)))]
            else:
                out += [('ghost', z3.Implies(z3.Not(ok), z3.And(kept(c), b.empty == a.empty)))]
            out += [('with nothing recorded, undo is an error', z3.Implies(z3.Or(a.p('ed.state.1.dot') == -1, a.p('ed.state.1.lines') == -1), z3.Not(ok)))]
            return out + inv_post(c)
        mk('undo_last_command', requires=inv_pre, ensures=und_ens)

        # addresses, display, global
        def ar_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            out = [('the range lies within 0..last', z3.Implies(ok, z3.And(0 <= b.start, b.start <= b.N, 0 <= b.end, b.end <= b.N))),
                   ('the number of addresses is 0, 1 or 2', z3.Implies(ok, z3.And(b.addrs == tz(c.ret), b.addrs >= 0, b.addrs <= 2))),
                   ('no address: the current line', z3.Implies(z3.And(ok, b.addrs == 0), z3.And(b.start == b.end, b.end == b.dot, b.dot == a.dot))),
                   ('one address: a range of one line', z3.Implies(z3.And(ok, b.addrs == 1), b.start == b.end)),
                   ('lines and status are kept', kept(c, what=('N', 'mod', 'touched', 'node'))),
                   ('the current line stays valid', z3.And(0 <= b.dot, b.dot <= b.N))]
            if c.mode == 'call':
                post = c.post_st
                post.gh['dest'] = b.end
                post.gh['inp'] = b.inp
                post.gh['adr'] = TR
                post.gh['dot0'] = b.dot
            return out
        mk('address_range', requires=inv_pre, ensures=ar_ens, ghost_mod=(), frame=lambda c: [V.same(c, EMPTY)] + V.same1(c))

        def na_ens(c):
            a, b = AB(c)
            v = V.outpre(c, 0)
            return [('lines and status are kept', kept(c, what=('N', 'mod', 'touched', 'node'))),
                    ('the current line stays, or is where the search starts', z3.Or(b.dot == a.dot, z3.And(b.dot == v, 0 <= v, v <= a.N)))]
        for f in ('next_address', 'line_address'):
            mk(f, requires=inv_pre, ensures=na_ens, ghost_mod=(), frame=lambda c: [V.same(c, EMPTY)] + V.same1(c))

        def glna_ens(c):
            a, b = AB(c)
            v = V.out(c, 1)
            out = nolist(c) + [('other state is kept', V.samestate(c))]
            if v is not None:
                out += [('the address reported is a line of the buffer', z3.And(0 <= v, v <= b.N))]
            return out
        mk('get_line_node_address', ghost_mod=(), ensures=glna_ens, requires=lambda c: [('the line count is not negative', cmp('>=', c.pre.p(LINES), 0))])

        def disp_ens(c):
            a, b = AB(c)
            return [('lines and status are kept', kept(c, what=('N', 'mod', 'touched', 'node'))),
                    ('the current line stays valid', z3.And(0 <= b.dot, b.dot <= b.N))]
        mk('display_lines', requires=lambda c: [('the range lies in the buffer', disp_range(c))] + inv_pre(c),
            ensures=disp_ens, ghost_mod=(), frame=lambda c: [V.same(c, EMPTY)] + V.same1(c))
        C['mark_global_nodes'] = Contract('mark_global_nodes', requires=lambda c: inv_pre(c) + [
            ('the range lies in the buffer', z3.And(S(c.ex, c.pre_st).start >= 1, S(c.ex, c.pre_st).start <= S(c.ex, c.pre_st).end,
                                                   S(c.ex, c.pre_st).end <= S(c.ex, c.pre_st).N))],
            ensures=lambda c: [('lines and current line are kept', kept(c))], frame=lambda c: [V.same(c, EMPTY)] + V.same1(c),
            at_call=lambda ex, c, v, st: V.parsed(ex, v, st))

        def gl_ens(c):
            a, b = AB(c)
            return inv_post(c) + ([('ghost', z3.Implies(a.touched, b.touched))] if c.mode == 'call' else [])
        C['exec_global'] = Contract('exec_global', requires=lambda c: inv_pre(c) + [('a global command is marked as running', tz(c.pre.p('ed.exec.global')) != 0)],
                                    ensures=gl_ens, ghost_mod=GM + ('reset', 'dest'))
        C['exec_command'] = Contract('exec_command', requires=lambda c: V.cmd_req(c), ensures=lambda c: inv_post(c), ghost_mod=GM + ('reset', 'dest'))
        # the command functions: verified one by one, called through the dispatch table
        for f in V.CMD_FUNCS:
            if f in prog.funcs and f not in ('c_cmd', 'E_cmd'):
                C[f] = Contract(f, requires=(lambda f: lambda c: V.cmd_req(c, f) + V.cmd_req2(c))(f),
                                ensures=(lambda f: lambda c: V.cmd_post(c, f))(f), ghost_mod=GM + ('reset', 'dest'))
        for f in ('c_cmd', 'E_cmd'):
            self.plain = getattr(self, 'plain', {})
            self.plain[f] = Contract(f, requires=(lambda f: lambda c: V.cmd_req(c, f) + V.cmd_req2(c))(f),
                                     ensures=(lambda f: lambda c: V.cmd_post(c, f))(f), ghost_mod=GM + ('reset', 'dest'))

        def wf_ens(c):
            a, b = AB(c)
            ok = tz(c.ret) >= 0
            f, t = tz(c.args[2].i()), tz(c.args[3].i())
            v = V.out(c, 4)
            out = [('lines, current line and status are kept', kept(c)), V.plainerr(c)]
            if v is not None:
                out += [('the number of lines written is reported', z3.Implies(ok, v == z3.If(a.N == 0, 0, z3.If(f == 0, 0, t - f + 1))))]
            if c.mode == 'call':
                out += [('ghost', c.post_st.gh['wrote'] == z3.And(ok, z3.Or(a.N == 0, z3.And(f == 1, t == a.N))))]
            return out
        C['write_file'] = Contract('write_file', ensures=wf_ens, ghost_mod=('wrote',), frame=lambda c: [V.same(c, EMPTY)] + V.same1(c),
                                   requires=lambda c: [('the range lies in the buffer', V.wrange(c, 2, 3))])
        C['write_pipe'] = Contract('write_pipe', ensures=lambda c: [('lines, current line and status are kept', kept(c)), V.plainerr(c)],
                                   frame=lambda c: [V.same(c, EMPTY)] + V.same1(c), requires=lambda c: [('the range lies in the buffer', V.wrange(c, 1, 2))])

    def plainerr(self, c):
        """a failure is a plain error, not one of the codes that leave the editor"""
        return ('a failure is reported as an error', z3.Implies(tz(c.ret) < 0, tz(c.ret) == self.enums['ERR']))

    def wrange(self, c, i, j):
        f, t, N = tz(c.args[i].i()), tz(c.args[j].i()), tz(c.pre.p(LINES))
        return z3.Or(z3.And(1 <= f, f <= t, t <= N), z3.And(f == 0, t == 0, N == 0))

    NOUNDO = ('E_cmd', 'e_cmd')
    CMD_FUNCS = ('address_cmd', 'comment_cmd', 'E_cmd', 'H_cmd', 'P_cmd', 'Z_cmd', 'a_cmd', 'c_cmd', 'd_cmd', 'e_cmd',
                 'f_cmd', 'global_cmd', 'h_cmd', 'i_cmd', 'invalid_cmd', 'j_cmd', 'k_cmd', 'l_cmd', 'm_cmd', 'exec_macro',
                 'n_cmd', 'newline_cmd', 'p_cmd', 'q_cmd', 'r_cmd', 's_cmd', 'scroll_forward_half', 'scroll_backward_half',
                 'shell_cmd', 't_cmd', 'u_cmd', 'w_cmd', 'x_cmd', 'z_cmd')

    REGCMDS = ('m_cmd', 't_cmd', 'exec_macro')

    def cmd_tasks(self, prog, budget=150, only=None):
        from run import Task
        out = []
        for f in self.CMD_FUNCS:
            if f not in prog.funcs or (only and f not in only):
                continue
            if f in self.REGCMDS:
                out += [Task(self, f, budget, 'plain'), Task(self, f, budget, 'read')]
            else:
                out.append(Task(self, f, budget))
        return out

    def parsed(self, ex, v, st):
        st.gh['inp'] = tz(ex.path_read(st, 'ed.input'))
        return [(v, st)]

    def same(self, c, path):
        a, b = AB(c)
        return a.p(path) == b.p(path)

    def same1(self, c):
        return [self.same(c, 'ed.state.1.' + f) for f in ('dot', 'lines', 'is_empty', 'is_modified')]

    def samestate(self, c):
        return z3.And(*[self.same(c, EMPTY)] + self.same1(c))

    def outpre(self, c, k):
        v = c.args[k]
        if v.prov is not None:
            return self.cell(c.ex, c.pre_st, v)
        return fresh('unknown')

    def out(self, c, k):
        """value an out-parameter points to after the call"""
        v = c.args[k]
        if v.prov is not None:
            return self.cell(c.ex, c.post_st, v)
        return None

    def cell(self, ex, st, v):
        """typed value of the object pointer value v points to"""
        return tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

    # ------------------------------------------------ command contracts
    def cmd_req(self, c, f=None):
        s = S(c.ex, c.pre_st)
        if f == 'd_cmd':
            return self.cmd_req(c) + [('no printing was asked for yet', s.p('ed.display.io_f') == 0)]
        if f in ('z_cmd', 'Z_cmd'):
            return inv_pre(c) + self.scroll_key(c, f) + [('the last address lies within 0..last', z3.And(0 <= s.end, s.end <= s.N)),
                                 ('0, 1 or 2 addresses were given', z3.And(0 <= s.addrs, s.addrs <= 2))]
        return inv_pre(c) + self.scroll_key(c, f) + [
            ('addresses lie within 0..last', z3.And(0 <= s.start, s.start <= s.N, 0 <= s.end, s.end <= s.N)),
            ('0, 1 or 2 addresses were given', z3.And(0 <= s.addrs, s.addrs <= 2)),
            ('no address given: the range is the current line', z3.Implies(s.addrs == 0, z3.And(s.start == s.end, s.end == s.dot))),
            ('one address given: the range is that line', z3.Implies(s.addrs == 1, s.start == s.end)),
        ]

    def cmd_req2(self, c):
        """after the prefix was parsed"""
        s = S(c.ex, c.pre_st)
        if c.ex.cur in self.REGCMDS and c.mode == 'verify':
            return []
        return [('no register prefix', s.io_f == 0)]

    # documented command characters of each command function
    KEYS = {
        'newline_cmd': '\n', 'shell_cmd': '!', 'comment_cmd': '#', 'address_cmd': '=', 'exec_macro': '@', 'E_cmd': 'E',
        'global_cmd': 'GVgv', 'H_cmd': 'H', 'P_cmd': 'P', 'q_cmd': 'qQ', 'w_cmd': 'wW', 'Z_cmd': 'Z',
        'scroll_backward_half': '[', 'scroll_forward_half': ']', 'a_cmd': 'a', 'c_cmd': 'c', 'd_cmd': 'd', 'e_cmd': 'e',
        'f_cmd': 'f', 'h_cmd': 'h', 'i_cmd': 'i', 'j_cmd': 'j', 'k_cmd': 'k', 'l_cmd': 'l', 'm_cmd': 'm', 'n_cmd': 'n',
        'p_cmd': 'p', 'r_cmd': 'r', 's_cmd': 's', 't_cmd': 't', 'u_cmd': 'u', 'x_cmd': 'x', 'z_cmd': 'z'}
    NOADDR = ('E_cmd', 'e_cmd', 'f_cmd', 'h_cmd', 'H_cmd', 'P_cmd', 'q_cmd', 'u_cmd', 'x_cmd')
    QUIET = ('l_cmd', 'n_cmd', 'p_cmd', 'z_cmd', 'Z_cmd', 'scroll_forward_half', 'scroll_backward_half', 'address_cmd',
             'k_cmd', 'h_cmd', 'H_cmd', 'P_cmd', 'f_cmd', 'q_cmd', 'w_cmd', 'x_cmd', 'newline_cmd', 'comment_cmd',
             'invalid_cmd')
    KEEPDOT = ('address_cmd', 'k_cmd', 'h_cmd', 'H_cmd', 'P_cmd', 'f_cmd', 'q_cmd', 'w_cmd', 'x_cmd', 'comment_cmd',
               'invalid_cmd')
    SUFFIXED = ('a_cmd', 'c_cmd', 'd_cmd', 'H_cmd', 'h_cmd', 'i_cmd', 'j_cmd', 'k_cmd', 'l_cmd', 'm_cmd', 'n_cmd', 'P_cmd',
                'p_cmd', 'q_cmd', 's_cmd', 't_cmd', 'u_cmd', 'x_cmd', 'Z_cmd', 'z_cmd', 'address_cmd')
    NAMED = ('E_cmd', 'e_cmd', 'f_cmd', 'r_cmd', 'w_cmd')

    def cmd_post(self, c, name):
        out = inv_post(c)
        a, b = AB(c)
        if c.mode == 'call':
            if name in self.QUIET:
                out.append(('ghost', kept(c, what=('N', 'touched', 'node'))))
                if name != 'w_cmd':
                    out.append(('ghost', b.mod == a.mod))
            if name in self.KEEPDOT:
                out.append(('ghost', b.dot == a.dot))
            if name in ('z_cmd', 'Z_cmd'):
                out.append(('ghost', z3.Implies(tz(c.ret) >= 0, z3.And(0 <= b.start, b.start <= b.N, 0 <= b.end, b.end <= b.N))))
                out.append(('ghost', z3.Implies(tz(c.ret) >= 0, z3.And(0 <= b.addrs, b.addrs <= 2))))
            return out
        ret = tz(c.ret)
        ok = ret >= 0
        R = lambda nm, f: out.append((nm, f))
        P = self.enums
        PT = P['POSIXLY_CORRECT'] | P['TRADITIONAL']

        def rng_(df, dt, adj=False):
            s_, e_ = a.start, a.end
            if adj:
                s_, e_ = nz(s_), nz(e_)
            s_, e_ = z3.If(a.addrs == 0, df, s_), z3.If(a.addrs == 0, dt, e_)
            bad = z3.Or(s_ < 1, s_ > a.N, e_ < 1, e_ > a.N, s_ > e_)
            return s_, e_, bad
        unch = z3.And(kept(c, what=('N', 'dot', 'mod', 'touched')), z3.Not(ok))

        def reject(bad, what='a range that is backwards, out of the buffer or zero'):
            if 'c03' in self.want:
                R('%s is an error and changes nothing' % what, z3.Implies(bad, unch))

        def edges(A, cut, guard=TR):
            """lines 1..A stay; the rest follows the cut lines replaced by whatever was added; guard selects the case"""
            if 'c01' not in self.want:
                return
            d = b.N - (a.N - cut)
            R('lines before the range keep their place', z3.Implies(z3.And(guard, 0 <= k0, k0 <= A), b.node[k0] == a.node[k0]))
            R('lines after the range keep their order', z3.Implies(z3.And(guard, k0 > A + d, k0 <= b.N, d >= 0), b.node[k0] == a.node[k0 - d + cut]))
            R('lines outside the range are not lost', z3.Implies(guard, d >= 0))

        def dotis(cond, v):
            if 'c01' in self.want:
                R('the current line is the documented one', z3.Implies(cond, b.dot == v))
        noeff = z3.Not(b.touched)
        dot = a.dot
        # ---- C03: addresses
        if name in self.NOADDR:
            reject(a.addrs != 0, 'an address where none is allowed')
        if name in ('d_cmd', 's_cmd'):
            s_, e_, bad = rng_(dot, dot)
            reject(bad)
        elif name == 'c_cmd':
            s_, e_, bad = rng_(dot, dot, True)
            reject(bad)
        elif name in ('l_cmd', 'n_cmd', 'p_cmd'):
            s_, e_, bad = rng_(dot, dot)
            reject(z3.And(bad, z3.Not(z3.And(a.addrs == 0, a.N == 0))))
        elif name == 'j_cmd':
            s_, e_, bad = rng_(dot, dot + 1)
            reject(z3.And(bad, z3.Not(z3.And(a.addrs == 0, a.N == 0))))
        elif name in ('m_cmd', 't_cmd', 'exec_macro'):
            s_, e_, bad = rng_(dot, dot)
            rd = a.io_f != 0
            reject(z3.If(rd, s_ > e_, bad))
        elif name in ('w_cmd', 'global_cmd'):
            s_, e_, bad = rng_(z3.IntVal(1), a.N)
            reject(z3.And(bad, z3.Not(z3.And(a.addrs == 0, a.N == 0))) if name == 'w_cmd' else bad)
            if name == 'global_cmd':
                reject(a.glob != 0, 'a nested global command')
        elif name == 'newline_cmd':
            e_ = z3.If(a.addrs == 0, dot + z3.If(a.glob == 0, 1, 0), a.end)
            reject(z3.Or(e_ < 1, e_ > a.N), 'a line outside the buffer')
        elif name in ('z_cmd', 'Z_cmd'):
            reject(z3.And(a.addrs != 0, z3.Or(a.end < 1, a.end > a.N)), 'a line outside the buffer')
            R('the addresses stay within 0..last', z3.Implies(ok, z3.And(0 <= b.start, b.start <= b.N, 0 <= b.end, b.end <= b.N, 0 <= b.addrs, b.addrs <= 2)))
        elif name in ('scroll_forward_half', 'scroll_backward_half'):
            s_, e_, bad = rng_(dot, dot)
            reject(z3.And(a.addrs != 0, bad))
        elif name == 'shell_cmd':
            s_, e_, bad = rng_(dot, dot, True)
            reject(z3.And(a.addrs != 0, bad, z3.Not(z3.And(a.N == 0, a.start == 0, a.end == 0))))
            if 'c03' in self.want:
                R('without an address the buffer is left alone', z3.Implies(a.addrs == 0, kept(c, what=('N', 'dot', 'mod', 'touched'))))
        elif name == 'invalid_cmd' and 'c03' in self.want | {'c18'}:
            R('an unknown command is an error and changes nothing', unch)
        # ---- C01: what happens to the lines
        if name in self.QUIET and self.want & {'c01', 'c03', 'c18'}:
            R('the lines are left alone', z3.And(noeff, b.N == a.N))
        if name in self.KEEPDOT and self.want & {'c01', 'c03', 'c18'}:
            R('the current line is left alone', b.dot == a.dot)
        if name == 'a_cmd':
            g = z3.Not(z3.And(a.empty != 0, a.N != 0))
            edges(a.end, 0, g)
            dotis(z3.And(g, ok), a.end + b.N - a.N)
        elif name == 'i_cmd':
            A = nz(a.end) - 1
            edges(A, 0)
            dotis(z3.And(ok, b.N > a.N), A + b.N - a.N)
            dotis(z3.And(ok, b.N == a.N), mn(a.N, nz(a.end)))
        elif name == 'c_cmd':
            cut = e_ - s_ + 1
            edges(s_ - 1, cut, z3.And(z3.Not(bad), b.touched))
            d = b.N - (a.N - cut)
            dotis(z3.And(ok, d > 0), s_ - 1 + d)
            dotis(z3.And(ok, d == 0), mn(b.N, s_))
        elif name == 'd_cmd':
            cut = e_ - s_ + 1
            edges(s_ - 1, cut, z3.And(z3.Not(bad), b.touched))
            if 'c01' in self.want:
                R('exactly the range is deleted', z3.Implies(ok, b.N == a.N - cut))
                R('a failure deletes nothing', z3.Implies(z3.Not(ok), z3.And(noeff, b.N == a.N, b.dot == a.dot)))
            dotis(ok, mn(s_, b.N))
        elif name == 'j_cmd':
            cut = e_ - s_ + 1
            edges(s_ - 1, cut, z3.And(z3.Not(bad), b.touched))
            if 'c01' in self.want:
                R('the range becomes one line', z3.Implies(z3.And(ok, z3.Not(z3.And(a.addrs == 0, a.N == 0))), b.N == a.N - (e_ - s_)))
            dotis(z3.And(ok, s_ != e_, z3.Not(z3.And(a.addrs == 0, a.N == 0))), s_)
            dotis(z3.And(ok, s_ == e_), a.dot)
        elif name in ('m_cmd', 't_cmd') and 'c01' in self.want:
            w = c.post_st.gh['dest']
            iof = b.io_f
            rdf, wrf = P['REGISTER_READ'], P['REGISTER_WRITE']
            n_ = e_ - s_ + 1
            if name == 't_cmd':
                edges(w, 0, z3.And(b.touched, iof != wrf, iof != (rdf | wrf)))
                R('the range is copied once', z3.Implies(z3.And(ok, iof == 0), b.N == a.N + n_))
                dotis(z3.And(ok, iof == 0), w + n_)
                R('copying into a register leaves the buffer alone', z3.Implies(z3.Or(iof == wrf, iof == (rdf | wrf)), z3.And(noeff, b.N == a.N)))
            else:
                edges(w, 0, z3.And(b.touched, iof == rdf))
                edges(s_ - 1, n_, z3.And(b.touched, iof == wrf))
                R('moving between registers leaves the buffer alone', z3.Implies(iof == (rdf | wrf), z3.And(noeff, b.N == a.N)))
                R('moving keeps the number of lines', z3.Implies(iof == 0, b.N == a.N))
                R('a destination inside the range is refused', z3.Implies(z3.And(iof == 0, ok), z3.Or(w < s_, w >= e_)))
                x1 = fresh_arr('idx')

                class A2:
                    node, idx = a.node, x1
                n1 = z3.Array('n1!', IntS, IntS)
                dn = z3.If(z3.Or(k0 < s_, k0 > w), a.node[k0], z3.If(k0 <= w - n_, a.node[k0 + n_], a.node[k0 - (w - e_)]))
                up = z3.If(z3.Or(k0 <= w, k0 > e_), a.node[k0], z3.If(k0 <= w + n_, a.node[k0 - w - 1 + s_], a.node[k0 - n_]))
                exp = z3.If(z3.Or(w == e_, w == s_ - 1), a.node[k0], z3.If(w > e_, dn, up))
                R('the range is relocated after the destination, everything else keeps its order',
                  z3.Implies(z3.And(ok, iof == 0, 0 <= k0, k0 <= a.N), b.node[k0] == exp))
                dotis(z3.And(ok, iof == 0), z3.If(w >= e_, w, w + n_))
        elif name == 'r_cmd':
            A = z3.If(z3.And(a.addrs != 0, a.N != 0), a.end, a.N)
            g = z3.Not(z3.And(a.empty != 0, a.N != 0))
            edges(A, 0, z3.And(g, b.touched))
            dotis(z3.And(ok, g, b.N > a.N), A + b.N - a.N)
        elif name == 's_cmd':
            edges(s_ - 1, e_ - s_ + 1, z3.And(z3.Not(bad), b.touched))
        elif name == 'shell_cmd':
            g = z3.And(a.addrs != 0, b.touched)
            ex_ = z3.And(a.N == 0, a.start == 0, a.end == 0)
            edges(z3.If(ex_, 0, s_ - 1), z3.If(ex_, 0, e_ - s_ + 1), g)
        elif name == 'e_cmd' and self.want & {'c08'}:
            R('editing another file with unsaved changes is refused', z3.Implies(a.mod != 0, z3.And(ret == P['EMOD'], kept(c, what=('N', 'dot', 'mod', 'touched')))))
        # ---- C08: modified status
        if 'c08' in self.want:
            if name not in ('E_cmd', 'e_cmd', 'u_cmd', 'w_cmd', 'r_cmd', 'shell_cmd', 'exec_macro', 'global_cmd'):
                R('changed lines leave the buffer modified', z3.Implies(b.touched, b.mod != 0))
            if name == 'shell_cmd':
                R('changed lines leave the buffer modified', z3.Implies(z3.And(b.touched, a.N > 0), b.mod != 0))
            if name == 'r_cmd':
                R('reading lines into a buffer that has lines leaves it modified', z3.Implies(z3.And(b.touched, b.N != a.N, a.N > 0, b.N > 0), b.mod != 0))
            if name not in ('E_cmd', 'e_cmd', 'u_cmd', 'w_cmd', 'exec_macro', 'global_cmd'):
                R('unsaved changes stay unsaved', z3.Implies(a.mod != 0, b.mod != 0))
            if name in self.QUIET and name != 'w_cmd':
                R('the modified status is left alone', b.mod == a.mod)
            if name == 'w_cmd':
                R('the buffer counts as saved only if all of it was written to a file',
                  z3.Implies(b.mod != a.mod, z3.And(b.mod == 0, c.post_st.gh['wrote'])))
                R('saving the buffer marks the undone contents as unsaved', z3.Implies(z3.And(b.mod != a.mod), b.p('ed.state.1.is_modified') != 0))
                sc = (a.opt_bit(P['SCRIPTED']))
                ends = z3.Or(*[ret == P[k] for k in ('EOF_NEXT', 'EOF_PREV', 'EOF_GLOB') if k in P] + [ret == -1])
                R('write and leave only once the buffer is saved', z3.Implies(ends, z3.Or(b.mod == 0, sc)))
            if name == 'q_cmd':
                sc = (a.opt_bit(P['SCRIPTED']))
                cc = a.ch(a.inp - 1)
                R('quit with unsaved changes is refused', z3.Implies(z3.And(a.mod != 0, z3.Not(sc), cc != ord('Q')), ret != -1))
                R('the forced form quits', z3.Implies(ret == P['EMOD'], z3.And(a.mod != 0, cc != ord('Q'))))
        # ---- C18: suffixes
        if 'c18' in self.want:
            if name in self.SUFFIXED:
                succ = z3.Or(ok, ret == -1) if name == 'q_cmd' else ok
                R('nothing unexpected follows the command', z3.Implies(z3.And(succ, z3.Not(c.post_st.gh['eff'])), self.suffix_ok(c.ex, c.post_st)))
            if name in self.NAMED:
                a0 = a.ch(a.inp)
                sp = self.isspace_(a0)
                if name in ('E_cmd', 'e_cmd', 'f_cmd'):
                    alt = z3.Or(a0 == ord('n'), a0 == ord('p'))
                    alt = z3.And(alt, a.p('ed.file.is_glob') != 0, self.isspace_(a.ch(a.inp + 1)))
                elif name == 'w_cmd':
                    alt = z3.Or(z3.And(a.p('ed.file.is_glob') != 0, z3.Or(a0 == ord('n'), a0 == ord('p'))), a0 == ord('q'))
                    alt = z3.And(alt, self.isspace_(a.ch(a.inp + 1)))
                else:
                    alt = FL
                R('a file name is separated from the command', z3.Implies(z3.Not(z3.Or(sp, alt)), z3.And(
                    z3.Not(ok), ret != -1, kept(c, what=('N', 'dot', 'mod', 'touched')))))
        return out

    def isspace_(self, ch):
        return z3.Or(ch == 32, z3.And(ch >= 9, ch <= 13))

    def operand_end(self, ex, st):
        """where a command suffix begins: after the documented operand"""
        s = S(ex, st)
        i0 = st.gh['inp']
        if ex.cur == 'k_cmd':
            return i0 + 1
        if ex.cur in ('m_cmd', 't_cmd'):
            w = z3.If(s.ch(i0 + 1) == ord('>'), z3.IntVal(2), z3.IntVal(1))
            c = s.ch(i0 + w)
            w = w + z3.If(z3.And(c >= 48, c <= 57), z3.IntVal(1), z3.IntVal(0))
            P = self.enums
            pt = z3.Or(s.opt_bit(P['POSIXLY_CORRECT']), s.opt_bit(P['TRADITIONAL']))
            return z3.If(z3.And(s.ch(i0) == ord('>'), z3.Not(pt), z3.Not(st.gh['adr'])), i0 + w, i0)
        return i0

    def suffix_ok(self, ex, st):
        s = S(ex, st)
        i0 = self.operand_end(ex, st)
        return z3.And(s.ch(s.inp - 1) == 10, s.inp - 1 >= i0, z3.Implies(z3.And(i0 <= k0, k0 < s.inp - 1), self.pln(s.ch(k0))))

    def pln(self, c):
        return z3.Or(c == ord('p'), c == ord('l'), c == ord('n'))

    EFFECTS = ('delete_lines', 'append_lines', 'read_file', 'read_pipe', 'copy_lines', 'move_lines', 'join_lines',
               'substitute_lines', 'filter_lines', 'append_from_register', 'append_to_register', 'reset_register_buffer',
               'inter_register_move', 'inter_register_copy', 'reset_undo_queue', 'undo_last_command', 'display_lines',
               'mark_line_node', 'get_des_keyword')

    def stream_call(self, ex, name, args, st, n):
        """stdio input: a short read or EOF means end of file or an error is indicated on the stream"""
        if name in ('getc', 'fgetc', 'getchar', 'getc_unlocked'):
            t = fresh('ch')
            st.assume(z3.And(t >= -1, t <= 255))
            st.gh['eos'] = t == -1
            return [(Val(t, INT), st)]
        if name == 'fread':
            r = ex.ext_call(name, args, st, n, n['inner'][1:], ('int', 64, False))
            for v, s in r:
                s.assume(z3.And(tz(v.i()) >= 0, tz(v.i()) <= tz(args[2].i())))
                s.gh['eos'] = tz(v.i()) < tz(args[2].i())
            return r
        if name == 'feof':
            t = fresh('feof')
            st.gh['noteof'] = t == 0
            return [(Val(t, INT), st)]
        if name == 'ferror':
            t = fresh('ferror')
            st.assume(z3.Implies(z3.And(st.gh['eos'], st.gh['noteof']), t != 0))
            return [(Val(t, INT), st)]
        return None

    def on_call(self, ex, name, args, st, n):
        r = self.stream_call(ex, name, args, st, n)
        if r is not None:
            return r
        if name == 'z_cmd' and ex.cur in ('scroll_forward_half', 'scroll_backward_half'):
            ex.assumptions.add('the command line of `[` and `]` is still there after the frame buffer has been normalised')
            e, s = S(ex, ex.pre), S(ex, st)
            st.assume(s.ch(s.inp - 1) == e.ch(e.inp - 1))
        if name == 'exec_command' and ex.stack and ex.stack[-1] == 'normalize_frame_buffer':
            ex.assumptions.add('the command line built by normalize_frame_buffer executes Z_cmd (contract of Z_cmd used)')
            return ex.apply_contract(self.contracts['Z_cmd'], 'Z_cmd', args, st, n, n['inner'][1:], INT)
        if name in ('strtoul', 'strtol', 'strtoll', 'strtoull') and ex.cur in ('z_cmd', 'Z_cmd', 'scroll_forward_half', 'scroll_backward_half'):
            s = S(ex, st)
            if 'c18' in self.want:
                ch = s.ch(tz(args[0].i()))
                ex.oblige(st, 'a number starts with a digit right after the command', z3.And(
                    tz(args[0].i()) == self.operand_end(ex, st), ch >= 48, ch <= 57), n_line(n))
            r = ex.ext_call(name, args, st, n, n['inner'][1:], ('int', 64, name.find('u') < 0))
            for v, t in r:
                t.gh['inp'] = S(ex, t).inp
            return r
        if 'c18' in self.want:
            if ex.cur in self.SUFFIXED and name in self.EFFECTS:
                ex.oblige(st, 'the command acts only if nothing unexpected follows it', z3.Or(st.gh['eff'], self.suffix_ok(ex, st)), n_line(n))
                st.gh['eff'] = TR
            if ex.cur == 'exec_command' and name in self.KEYS:
                self.dispatch(ex, st, name, n)
            if ex.cur == 'exec_command' and name == 'invalid_cmd':
                self.dispatch(ex, st, name, n)
        return None

    def dispatch(self, ex, st, name, n):
        s, e = S(ex, st), S(ex, ex.pre)
        cc = s.ch(s.inp - 1)
        P = self.enums
        pt = z3.Or(s.opt_bit(P['POSIXLY_CORRECT']), s.opt_bit(P['TRADITIONAL']))
        isin = lambda ks: z3.Or(*[cc == ord(k) for k in ks])
        if name == 'invalid_cmd':
            doc = ''.join(self.KEYS.values())
            ex.oblige(st, 'a documented command is not refused', z3.Or(z3.Not(isin(doc)), pt), n_line(n))
        else:
            ex.oblige(st, 'the command letter is the documented one', isin(self.KEYS[name]), n_line(n))
            g = s.p('ed.file.is_glob')
            ex.oblige(st, 'a file-glob prefix is accepted only by file commands', z3.Implies(g != 0, isin('EefrwW')), n_line(n))
            ex.oblige(st, 'a register prefix is accepted only by register commands', z3.Implies(s.io_f != 0, isin('mt@')), n_line(n))

    def fnptr_call(self, ex, args, st, n, fnval):
        """the call through the command table: every possible target is a command function; its precondition is obliged,
        then what any of them may write is forgotten and what all of them guarantee is assumed"""
        if ex.cur != 'exec_command':
            return None
        targets = [f for f in self.CMD_FUNCS if f in ex.prog.funcs]
        fv = tz(fnval.i())
        is_ = {f: fv == ex.func_addr(f) for f in targets}
        if 'c18' in self.want:
            for f in targets:
                if f not in self.KEYS and f != 'invalid_cmd':
                    continue
                s2 = st.copy()
                s2.assume(is_[f])
                if ex.feasible(s2):
                    self.dispatch(ex, s2, f, n)
        line = n_line(n)
        ex.oblige(st, 'the command table is indexed within its bounds', z3.Or(*is_.values()), line)
        c0 = Ctx(ex, args, st.copy(), mode='call')
        for nm, f in self.cmd_req(c0):
            ex.oblige(st, 'precondition of every command function: %s' % nm, f, line, 'pre')
        s = S(ex, st)
        reg = z3.Or(*[is_[f] for f in self.REGCMDS if f in is_])
        ex.oblige(st, 'a register prefix reaches only register commands',
                  z3.If(reg, z3.Or(s.io_f == 0, s.io_f == self.enums['REGISTER_READ']), s.io_f == 0), line, 'pre')
        ex.oblige(st, 'precondition of d_cmd: no printing was asked for yet', s.p('ed.display.io_f') == 0, line, 'pre')
        for f in ('z_cmd', 'Z_cmd'):
            for nm, g in self.scroll_key(c0, f):
                ex.oblige(st, 'precondition of %s: %s' % (f, nm), z3.Implies(is_[f], g), line, 'pre')
        for f in ('scroll_forward_half', 'scroll_backward_half', 'q_cmd', 'w_cmd', 'global_cmd'):
            for nm, g in self.scroll_key(c0, f):
                ex.oblige(st, 'precondition of %s: %s' % (f, nm), z3.Implies(is_[f], g), line, 'pre')
        keys = set()
        for f in targets:
            keys |= ex.ms.of_func(f)
        ex.havoc_keys(st, keys)
        for g in GM + ('reset', 'dest'):
            ex.havoc_ghost(st, g)
        for nm, f in inv(ex, st):
            st.assume(f)
        return [(ex.fresh_val(st, INT, 'cmd'), st)]

    def scroll_key(self, c, f):
        s = S(c.ex, c.pre_st)
        ch = s.ch(s.inp - 1)
        if f in ('q_cmd', 'w_cmd', 'global_cmd'):
            return [('the command letter is one of %s' % self.KEYS[f], z3.Or(*[ch == ord(x) for x in self.KEYS[f]]))]
        if f == 'z_cmd':
            return [('the command letter is z, [ or ]', z3.Or(ch == ord('z'), ch == ord('['), ch == ord(']')))]
        if f in ('scroll_forward_half', 'scroll_backward_half'):
            return [('the command letter is [ or ]', z3.Or(ch == ord('['), ch == ord(']')))]
        return []

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        pre = ex.pre
        ks = {k for k, p in keys}
        if ex.cur in self.SUFFIXED and 'ed_buffer.input' in ks and 'c18' in self.want:
            for nm, i0 in (('entry', lambda s: self.operand_end(ex, s)),):
                out.append(('suffix so far', lambda s, i0=i0: z3.And(S(ex, s).inp >= i0(s), z3.Implies(
                    z3.And(i0(s) <= k0, k0 < S(ex, s).inp), self.pln(S(ex, s).ch(k0))))))
        if ex.cur == 'd_cmd' and 'ed_display.io_f' in ks:
            out.append(('printing flags', lambda s: z3.And(S(ex, s).p('ed.display.io_f') >= 0)))
        for nm, f in inv(ex, entry):
            out.append((nm, (lambda nm: lambda s: dict(inv(ex, s))[nm])(nm)))
        for i, v in entry.vars.items():
            if v.prov is not None and v.prov[0].startswith('*out:') and v.ty == ('ptr', ('int', 64, False)):
                out.append(('%s bounded' % v.prov[0], lambda s, v=v: self.cell(ex, s, v) <= (1 << 63)))
        if ex.cur == 'address_range':
            for i, v in entry.vars.items():
                if ex.lty(entry, i) == ('int', 64, True):
                    x = lambda s, i=i: tz(ex.lrd(s, i))
                    out.append(('no address: %s as at entry' % short(i), lambda s, x=x, x0=x(entry): z3.Implies(S(ex, s).addrs == 0, x(s) == x0)))
            out.append(('addresses counted', lambda s: S(ex, s).addrs >= 0))
            out.append(('no address: current line as at entry', lambda s: z3.Implies(S(ex, s).addrs == 0, S(ex, s).dot == S(ex, pre).dot)))
        if ks & set(LISTKEYS) and ex.cur != 'exec_global':
            out += self.run_cands(ex, entry, pre)
        return out

    def run_cands(self, ex, entry, pre):
        out = []
        a = S(ex, pre)
        st = lambda s: S(ex, s)
        fn = ex.prog.funcs[ex.cur]
        out.append(('modified stays', lambda s: z3.Implies(a.mod != 0, st(s).mod != 0)))
        out.append(('touched => modified', lambda s: z3.Implies(st(s).touched, st(s).mod != 0)))
        out.append(('untouched => same', lambda s: z3.Implies(z3.Not(st(s).touched), z3.And(st(s).N == a.N, st(s).dot == a.dot))))
        out.append(('untouched => same count', lambda s: z3.Implies(z3.Not(st(s).touched), st(s).N == a.N)))
        out.append(('count only grows', lambda s: st(s).N >= a.N))
        out.append(('touched iff grown', lambda s: st(s).touched == (st(s).N > a.N)))
        out.append(('no growth: dot kept', lambda s: z3.Implies(st(s).N == a.N, st(s).dot == a.dot)))
        out.append(('no growth: status kept', lambda s: z3.Implies(st(s).N == a.N, st(s).mod == a.mod)))
        out.append(('grown: modified', lambda s: z3.Implies(st(s).N > a.N, st(s).mod != 0)))
        bases = [('entry dot', a.dot)]
        for p in fn.params:
            if ex.prog.ptype(p) == ('int', 64, True):
                bases.append((p.get('name'), z3.Int('arg:%s' % p.get('name'))))
        for bn, A in bases:
            out.append(('dot is the last line added [%s]' % bn, lambda s, A=A: st(s).dot == A + st(s).N - a.N))
            out.append(('dot is the last line added, if any [%s]' % bn, lambda s, A=A: z3.Or(st(s).N == a.N, st(s).dot == A + st(s).N - a.N)))
        if 'ed_state.dot' in ex.loop_keys:
            e = S(ex, entry)
            out.append(('dot-N const', lambda s, e=e: st(s).dot - st(s).N == e.dot - e.N))
        for i, v in entry.vars.items():
            if ex.lty(entry, i) == ('int', 64, True):
                x = lambda s, i=i: tz(ex.lrd(s, i))
                e = S(ex, entry)
                out += [('%s in 0..last' % short(i), lambda s, x=x: z3.And(0 <= x(s), x(s) <= st(s).N)),
                        ('%s-N const' % short(i), lambda s, x=x, e=e, x0=x(entry): x(s) - st(s).N == x0 - e.N),
                        ('%s+N const' % short(i), lambda s, x=x, e=e, x0=x(entry): x(s) + st(s).N == x0 + e.N),
                        ('dot-N-%s const' % short(i), lambda s, x=x, e=e, x0=x(entry): st(s).dot - st(s).N - x(s) == e.dot - e.N - x0),
                        ('dot-N+%s const' % short(i), lambda s, x=x, e=e, x0=x(entry): st(s).dot - st(s).N + x(s) == e.dot - e.N + x0),
                        ('%s >= 0' % short(i), lambda s, x=x: x(s) >= 0),
                        ('untouched: %s as before' % short(i), lambda s, x=x, x0=x(entry): z3.Implies(z3.Not(st(s).touched), x(s) == x0))]
        for k, t in ListView.local_cells(self, ex, entry):
            out.append(('%s counts down' % k, lambda s, t=t, e=t(entry), N1=S(ex, entry).N: tz(t(s)) + st(s).N == tz(e) + N1))
            out.append(('%s unchanged' % k, lambda s, t=t, e=t(entry): tz(t(s)) == tz(e)))
            out.append(('%s >= 0' % k, lambda s, t=t: tz(t(s)) >= 0))
        for k, v in list(entry.vars.items()):
            if v.prov is not None and v.prov[0].startswith('*out:') and v.ty == ('ptr', ('int', 64, True)):
                o = lambda s, v=v: self.cell(ex, s, v)
                nm_ = lambda s: tz(ex.path_read(s, 'ed.state.newline_missing'))
                out.append(('%s does not overflow' % v.prov[0], lambda s, o=o: o(s) < 1 << 62))
                out.append(('%s >= lines added' % v.prov[0], lambda s, o=o: o(s) >= st(s).N - a.N))
                out.append(('%s >= lines added and missing newline' % v.prov[0], lambda s, o=o: o(s) >= st(s).N - a.N + z3.If(nm_(s) != 0, 1, 0)))
                out.append(('%s >= 0' % v.prov[0], lambda s, o=o: o(s) >= 0))
        return out

    def_move = ListView.def_move

    def verify_contract(self, name):
        return self.contracts.get(name) or self.plain.get(name)
