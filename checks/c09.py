"""C09: marks denote lines, not line numbers.

The 26 marks are pointers to line nodes, so a mark follows its line through every relinking (that only unlinking and
linking happens to nodes that stay alive is C01); what has to hold is decided here:
  - exactly the four mark functions write the marks, with these contracts;
  - a mark is looked up by walking the list: the address reported is the position of that very node, and a node that is
    not in the list is an error;
  - no node is freed while a mark still denotes it (reset_undo_queue is the only place where a line node dies).
"""
from checks.listview import *

MARK, MARKS = 'ed_core.mark[]', 'ed_core.marks'
CORE = z3.Int('ed_core')
NM = 26
BIT = z3.Function('is mark', IntS, IntS)    # 1 for a mark in use, 0 for NULL


class MarkView(ListView):
    unroll = 0
    runs = False
    watch = True
    merge_limit = 6

    def __init__(self, prog):
        super().__init__(prog)
        V = self
        off = prog.types.layout('ed_core')[0]['mark'][0]
        self.cell_of = lambda i: CORE + off + 8 * i
        C = self.contracts

        def m(ex, st, i):
            return tz(ex.rd(st, MARK, V.cell_of(i)))

        def cnt(ex, st):
            return tz(ex.rd(st, MARKS, CORE))
        self.m, self.cnt = m, cnt

        def counted(ex, st):
            return [('marks in use are counted', cnt(ex, st) == z3.Sum(*[BIT(m(ex, st, i)) for i in range(NM)]))]
        self.counted = counted
        def split(t, fs, lo=97):
            # the same facts, one obligation per value of t (finite case analysis)
            return [(nm, z3.Implies(t == lo + i, f)) for nm, f in fs for i in range(NM)] + [
                (nm, z3.Implies(z3.Or(t < lo, t >= lo + NM), f)) for nm, f in fs]
        self.split = split
        kept = lambda c: z3.And(*[m(c.ex, c.pre_st, i) == m(c.ex, c.post_st, i) for i in range(NM)])
        letter = lambda n: z3.And(n >= ord('a'), n <= ord('z'))

        def becomes(c, f):
            return [('mark %s' % chr(97 + i), m(c.ex, c.post_st, i) == f(i, m(c.ex, c.pre_st, i))) for i in range(NM)]

        def nolist(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            out = [('the lines are left alone', z3.And(a.N == b.N, a.a(F) == b.a(F), a.a(B) == b.a(B)))]
            return out + ([('ghost', z3.And(a.node == b.node, a.idx == b.idx))] if c.mode == 'call' else [])

        def mln(c):
            lp, n = tz(c.args[0].i()), tz(c.args[1].i())
            ok = tz(c.ret) >= 0
            return [('a mark is a letter a to z', ok == letter(n))] + becomes(
                c, lambda i, o: z3.If(n == 97 + i, lp, o)) + split(n, counted(c.ex, c.post_st)) + nolist(c)
        C['mark_line_node'] = Contract('mark_line_node', ghost_mod=(), requires=lambda c: counted(c.ex, c.pre_st) + [
            ('a line is marked', tz(c.args[0].i()) != 0)], ensures=mln)

        def gma(c):
            n, ok = tz(c.args[0].i()), tz(c.ret) >= 0
            s = St(c.ex, c.post_st)
            a = V.out(c, 1)
            lp = m(c.ex, c.pre_st, 0)
            for i in range(1, NM):
                lp = z3.If(n == 97 + i, m(c.ex, c.pre_st, i), lp)
            return [('only letters are marks', z3.Implies(ok, letter(n))),
                    ('the address reported is a line of the buffer', z3.Implies(ok, z3.And(0 <= a, a <= s.N))),
                    ('the line at the address reported is the marked line', z3.Implies(ok, s.node[a] == lp)),
                    ('an error means that the marked line is not in the buffer', z3.Implies(
                        z3.And(z3.Not(ok), letter(n)), FA([i_], z3.Implies(z3.And(0 <= i_, i_ <= s.N), s.node[i_] != lp), [s.node[i_]]))),
                    ('marks are kept', kept(c))] + nolist(c)
        C['get_marked_node_address'] = Contract('get_marked_node_address', requires=V.basic, ensures=gma, ghost_mod=())

        def glna(c):
            lp, ok = tz(c.args[0].i()), tz(c.ret) >= 0
            s = St(c.ex, c.post_st)
            a = V.out(c, 1)
            return [('the address reported is a line of the buffer', z3.Implies(ok, z3.And(0 <= a, a <= s.N))),
                    ('the line at the address reported is the line asked for', z3.Implies(ok, s.node[a] == lp)),
                    ('the address never exceeds the last line', z3.And(0 <= a, a <= s.N)),
                    ('an error means that the line is not in the buffer', z3.Implies(
                        z3.Not(ok), FA([i_], z3.Implies(z3.And(0 <= i_, i_ <= s.N), s.node[i_] != lp), [s.node[i_]]))),
                    ('marks are kept', kept(c))] + nolist(c)
        C['get_line_node_address'] = Contract('get_line_node_address', requires=V.basic, ensures=glna, ghost_mod=())

        def tm(c):
            mp, lp = tz(c.args[0].i()), tz(c.args[1].i())
            return becomes(c, lambda i, o: z3.If(o == lp, mp, o)) + counted(c.ex, c.post_st) + nolist(c)
        C['transfer_marks'] = Contract('transfer_marks', ghost_mod=(), requires=lambda c: counted(c.ex, c.pre_st) + [
            ('lines are given', z3.And(tz(c.args[0].i()) != 0, tz(c.args[1].i()) != 0))], ensures=tm)

        def um(c):
            lp = tz(c.args[0].i())
            return becomes(c, lambda i, o: z3.If(o == lp, 0, o)) + counted(c.ex, c.post_st) + nolist(c)
        C['unmark_line_node'] = Contract('unmark_line_node', ghost_mod=(), requires=lambda c: counted(c.ex, c.pre_st) + [
            ('a line is given', tz(c.args[0].i()) != 0)], ensures=um)
        C['reset_undo_queue'] = Contract('reset_undo_queue', requires=lambda c: counted(c.ex, c.pre_st),
                                         ensures=lambda c: counted(c.ex, c.post_st), ghost_mod=())
        # users of the marks: only what reaches the mark functions is obliged
        C['k_cmd'] = Contract('k_cmd', requires=lambda c: V.basic(c) + counted(c.ex, c.pre_st) + [
            ('the address is a line of the buffer', z3.And(0 <= V.end(c.ex, c.pre_st), V.end(c.ex, c.pre_st) <= St(c.ex, c.pre_st).N))],
            ensures=lambda c: counted(c.ex, c.post_st) + [('a success marks the line', z3.Implies(tz(c.ret) >= 0, c.post_st.gh['marked']))])
        C['line_address'] = Contract('line_address', requires=lambda c: V.basic(c) + V.dot0(c), ensures=lambda c: [
            ('the address of a mark is the address of its line', z3.Implies(z3.And(tz(c.ret) >= 0, c.post_st.gh['used']), V.out(c, 0) == c.post_st.gh['maddr']))] + [
            ('marks are kept', kept(c))])
        C['get_matching_node_address'] = Contract('get_matching_node_address')
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def dot0(self, c):
        return [self.dot_ok(c)]

    def end(self, ex, st):
        return tz(ex.path_read(st, 'ed.exec.region.end'))

    def out(self, c, k):
        v = c.args[k]
        return tz(c.ex.load(c.post_st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

    def init_state(self, ex, st):
        super().init_state(ex, st)
        x = z3.Int('x!bit')
        st.assume(FA([x], BIT(x) == z3.If(x != 0, 1, 0), [BIT(x)]))
        st.gh['marked'] = z3.BoolVal(False)
        st.gh['used'] = z3.BoolVal(False)
        st.gh['maddr'] = z3.IntVal(0)
        for i in range(NM):
            self.m(ex, st, i)

    def entry(self, ex, name, args, st):
        if name == 'reset_undo_queue':
            return

    def on_call(self, ex, name, args, st, n):
        if name == 'mark_line_node' and ex.cur == 'k_cmd':
            s, e = St(ex, st), ex.pre
            ch = tz(ex.rd(e, '*8', tz(ex.path_read(e, 'ed.input'))))
            ex.oblige(st, 'the line marked is the addressed line', tz(args[0].i()) == s.node[self.end(ex, e)], n_line(n))
            ex.oblige(st, 'the mark set is the one named', tz(args[1].i()) == ch, n_line(n))
            st.gh['marked'] = z3.BoolVal(True)
        if name == 'get_marked_node_address' and ex.cur == 'line_address':
            inp = tz(ex.path_read(st, 'ed.input'))
            ex.oblige(st, 'the mark used is the one named', z3.And(
                tz(args[0].i()) == tz(ex.rd(st, '*8', inp - 1)), tz(ex.rd(st, '*8', inp - 2)) == ord("'")), n_line(n))
            st.gh['used'] = z3.BoolVal(True)
            r = ex.apply_contract(self.contracts[name], name, args, st, n, n['inner'][1:], INT)
            for v, s in r:
                c = args[1]
                s.gh['maddr'] = tz(ex.load(s, LV('mem', c.prov[0], c.prov[1], c.ty[1])).i())
            return r
        if name == 'unmark_line_node' and ex.cur == 'reset_undo_queue':
            ex.assumptions.add('the lines of a recorded deletion are linked to one another (no null link between first and last)')
            st.assume(tz(args[0].i()) != 0)
        if name == 'transfer_marks' and ex.cur == 'substitute_lines':
            pass
        return None

    def on_free(self, ex, st, p, tag, n):
        if tag == 'ed_line_node':
            for i in range(NM):
                ex.oblige(st, 'no mark denotes a line that is freed', self.m(ex, st, i) != tz(p), n_line(n) if n else 0)

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        pre = ex.pre
        m = self.m
        ks = {k for k, p in keys}
        if MARK in ks or MARKS in ks:
            out.append(('marks counted', lambda s: self.counted(ex, s)[0][1]))
            for i, v in entry.vars.items():
                if ex.lty(entry, i)[0] == 'int':
                    for j in range(-1, NM + 1):
                        out.append(('marks counted at %s=%d' % (short(i), j), lambda s, i=i, j=j: z3.Implies(tz(ex.lrd(s, i)) == j, self.counted(ex, s)[0][1])))
            fn = ex.prog.funcs[ex.cur]
            ps = [z3.Int('arg:%s' % p.get('name')) for p in fn.params if ex.prog.ptype(p) == LNODE]
            T = None
            if ex.cur == 'transfer_marks' and len(ps) == 2:
                T = lambda o: z3.If(o == ps[1], ps[0], o)
            elif ex.cur == 'unmark_line_node' and ps:
                T = lambda o: z3.If(o == ps[0], 0, o)
            if T is not None:
                for i, v in entry.vars.items():
                    if ex.lty(entry, i)[0] == 'int':
                        x = lambda s, i=i: tz(ex.lrd(s, i))
                        for nm, lo in (('up', lambda s, j, x=x: j < x(s)), ('up incl', lambda s, j, x=x: j <= x(s)),
                                       ('down', lambda s, j, x=x: j > x(s)), ('down incl', lambda s, j, x=x: j >= x(s))):
                            out.append(('%s %s' % (short(i), nm), lambda s, lo=lo: z3.And(*[
                                m(ex, s, j) == z3.If(lo(s, j), T(m(ex, pre, j)), m(ex, pre, j)) for j in range(NM)])))
                        out.append(('%s low' % short(i), lambda s, x=x: x(s) >= 0))
                        out.append(('%s high' % short(i), lambda s, x=x: x(s) <= NM - 1))
                        out.append(('%s high end' % short(i), lambda s, x=x: x(s) <= NM))
        if ex.cur == 'get_line_node_address':
            lp = z3.Int('arg:%s' % ex.prog.funcs[ex.cur].params[0].get('name'))
            S0 = St(ex, pre)
            outs = [('*out', lambda s, v=v: tz(ex.load(s, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i()))
                    for v in entry.vars.values() if v.prov is not None and v.prov[0].startswith('*out:') and v.ty == ('ptr', ('int', 64, True))]
            outs += [(short(i), lambda s, i=i: tz(ex.lrd(s, i))) for i, v in entry.vars.items() if ex.lty(entry, i) == ('int', 64, True)]
            ptrs = [(i, lambda s, i=i: tz(ex.lrd(s, i))) for i, v in entry.vars.items() if ex.lty(entry, i) == LNODE]
            for nm, a in outs:
                out.append(('%s in 0..last' % nm, lambda s, a=a: z3.And(0 <= a(s), a(s) <= S0.N)))
                out.append(('%s in 0..last+1' % nm, lambda s, a=a: z3.And(0 <= a(s), a(s) <= S0.N + 1)))
                out.append(('line sought is not before %s' % nm, lambda s, a=a: FA([i_], z3.Implies(z3.And(0 <= i_, i_ < a(s), i_ <= S0.N), S0.node[i_] != lp), [S0.node[i_]])))
                out.append(('line sought is not up to %s' % nm, lambda s, a=a: FA([i_], z3.Implies(z3.And(0 <= i_, i_ <= a(s), i_ <= S0.N), S0.node[i_] != lp), [S0.node[i_]])))
                for j, p in ptrs:
                    out.append(('%s follows line %s' % (short(j), nm), lambda s, a=a, p=p: p(s) == S0.node[z3.If(a(s) >= S0.N, 0, a(s) + 1)]))
                    out.append(('%s is line %s' % (short(j), nm), lambda s, a=a, p=p: p(s) == S0.node[a(s)]))
                    out.append(('%s is line %s, or the head' % (short(j), nm), lambda s, a=a, p=p: p(s) == S0.node[z3.If(a(s) > S0.N, 0, a(s))]))
        return out


class SubMark(BView):
    """a substituted line keeps its marks: they go to the (first) line that replaces it"""
    unroll = 0

    def __init__(self, prog):
        super().__init__(prog)
        V = self
        FLS = z3.BoolVal(False)
        self.contracts['substitute_lines'] = Contract('substitute_lines', ensures=lambda c: [
            ('the marks of every line replaced were handed on', z3.Implies(tz(c.ret) >= 0, z3.Not(c.post_st.gh['owed'])))] if c.mode != 'call' else [])
        self.contracts = {k: v for k, v in self.contracts.items() if k in prog.funcs}

    def init_state(self, ex, st):
        super().init_state(ex, st)
        for g in ('owed', 'added'):
            st.gh[g] = z3.BoolVal(False)
        for g in ('line', 'old', 'last', 'lastat'):
            st.gh[g] = z3.IntVal(0)

    def after_auto(self, ex, name, args, pre, st, n):
        dot = lambda s: tz(ex.path_read(s, 'ed.state.dot'))
        if ex.cur != 'substitute_lines':
            return
        if name == 'substitute_matching':
            st.gh['line'] = tz(args[1].i())
        elif name == 'delete_lines':
            st.gh['old'] = st.gh['line']
            st.gh['owed'] = z3.BoolVal(True)
        elif name == 'put_buffer_line':
            st.gh['lastat'] = z3.IntVal(-1)

    def on_call(self, ex, name, args, st, n):
        if ex.cur != 'substitute_lines':
            return None
        if name == 'get_line_node':
            r = ex.auto_call(name, args, st, n, n['inner'][1:], ex.prog.ptype(n))
            for v, s in r:
                s.gh['last'] = tz(v.i())
                s.gh['lastat'] = tz(args[0].i())
            return r
        if name == 'transfer_marks':
            ex.oblige(st, 'the marks of the replaced line are handed on', tz(args[1].i()) == st.gh['old'], n_line(n))
            ex.oblige(st, 'they go to the line just added', z3.And(
                tz(args[0].i()) == st.gh['last'], st.gh['lastat'] == tz(ex.path_read(st, 'ed.state.dot'))), n_line(n))
            st.gh['owed'] = z3.BoolVal(False)
        return None

    def loop_cands(self, ex, entry, head, locs, keys, n):
        return [('no marks owed', lambda s: z3.Not(s.gh['owed'])),
                ('the replaced line is the one examined', lambda s: s.gh['old'] == s.gh['line'])]


WRITERS = ('mark_line_node', 'transfer_marks', 'unmark_line_node')


def writers(prog, ms):
    """functions outside the contract that write a mark (a frame condition computed from the source)"""
    out = []
    for f in sorted(prog.funcs):
        if f in WRITERS or f not in BASE:
            continue
        ks = ms.own(f, BASE) & {MARK, MARKS}
        out.append(dict(func=f, name='marks are written by the mark functions only', line=0, kind='frame', time=0.0,
                        backend='frame', status='refuted' if ks else 'discharged', trace=[]))
    return dict(obligations=out, vacuity='sat', nret=1)


def tasks(prog):
    from run import Task, PyTask
    from modset import ModSets
    v = MarkView(prog)
    ms = ModSets(prog)
    fs = ['mark_line_node', 'get_marked_node_address', 'get_line_node_address', 'transfer_marks',
          'unmark_line_node', 'reset_undo_queue', 'k_cmd', 'line_address']
    # every function that frees a line node has to unmark it first
    fs += [f for f in sorted(prog.funcs) if f in BASE and f not in fs and '@alive:ed_line_node' in ms.own(f, BASE)]
    lv = ListView(prog)     # a move relinks the very nodes it was given
    return [Task(lv, f, 150) for f in ('move_lines', 'delete_lines') if f in prog.funcs] + [Task(v, f, 150) for f in fs if f in prog.funcs] + [Task(SubMark(prog), 'substitute_lines', 150),
                                                               PyTask('marks', lambda: writers(prog, ms))]
