"""Recording discipline: join, substitution and filtering change the list only through the editing primitives; every line
they insert is covered by the undo record before the next change and before they return, an existing entry is only ever
extended by the line right after its last one, and the lines outside the range keep their place and order (the facts the
command layer relies on).

Ghost state (over CmdView's node sequence)
  pn, pa   lines inserted but not recorded yet: their number and the position of the first (-1: not a run)
  oe, ol   the entry recorded last by this function, and the position of its last line, while it may still be extended
  ufl      recording failed (out of memory)"""
from checks.cmdview import *

UT, UTYPE = 'ed_undo_node.t', 'ed_undo_node.type'
UNODE = ('ptr', ('rec', 'ed_undo_node'))
REC = ('join_lines', 'substitute_lines', 'filter_lines')
G = ('pn', 'pa', 'oe', 'ol', 'ufl')


class RecView(CmdView):
    watch = True
    inv_timeout = 3000

    def __init__(self, prog):
        super().__init__(prog, {'c02x'})
        C = self.contracts
        V = self

        def wrap(name, req=None, ens=None, gm=()):
            c = C.get(name)
            if c is None:
                return
            r0, e0 = c.requires, c.ensures
            if req:
                c.requires = lambda c: (r0(c) if r0 else []) + (req(c) if c.mode == 'call' else [])
            if ens:
                c.ensures = lambda c: (e0(c) if e0 else []) + (ens(c) if c.mode == 'call' else [])
            c.ghost_mod = tuple(c.ghost_mod or ()) + tuple(gm)

        done = lambda c: [('every inserted line is recorded before the next change', z3.Or(c.pre_st.gh['pn'] == 0, c.pre_st.gh['ufl']))]
        closed = lambda c: [('ghost', z3.And(c.post_st.gh['oe'] == 0, c.post_st.gh['pn'] == c.pre_st.gh['pn']))]
        for f in ('delete_lines', 'append_lines', 'read_file', 'read_pipe', 'read_stream', 'read_stream_r', 'append_from_register',
                  'copy_lines', 'move_lines', 'join_lines', 'substitute_lines', 'filter_lines'):
            wrap(f, done, closed, ('pn', 'oe'))

        def put(at):
            def ens(c):
                a, b = AB(c)
                g0, g1 = c.pre_st.gh, c.post_st.gh
                ok = tz(c.ret) != 0
                p = at(c)
                i = i_
                out = [('ghost', z3.If(ok, z3.And(
                    g1['pa'] == z3.If(g0['pn'] == 0, p, g0['pa']),
                    g1['pn'] == z3.If(g0['pn'] == 0, 1, z3.If(z3.And(g0['pn'] > 0, p == g0['pa'] + g0['pn']), g0['pn'] + 1, -1))),
                    z3.And(g1['pa'] == g0['pa'], g1['pn'] == g0['pn'])))]
                out += [('ghost', z3.Implies(ok, FA([i], b.node[i] == z3.If(i < p, a.node[i], z3.If(i == p, b.node[p], a.node[i - 1])), [b.node[i]]))),
                        ('ghost', z3.Implies(z3.Not(ok), b.node == a.node))]
                return out
            return ens
        wrap('put_buffer_line', None, put(lambda c: S(c.ex, c.pre_st).dot + 1), ('pn', 'pa'))
        wrap('append_line_node', None, put(lambda c: tz(c.args[2].i()) + 1), ('pn', 'pa'))

        def aun_req(c):
            g = c.pre_st.gh
            return [('the entry covers exactly the lines inserted since the last one', z3.And(
                tz(c.args[0].i()) == V.enums['UADD'], g['pn'] > 0, tz(c.args[1].i()) == g['pa'],
                tz(c.args[2].i()) == g['pa'] + g['pn'] - 1))]

        def aun_ens(c):
            g0, g1 = c.pre_st.gh, c.post_st.gh
            r = tz(c.ret)
            return [('ghost', z3.If(r != 0, z3.And(g1['pn'] == 0, g1['oe'] == r, g1['ol'] == tz(c.args[2].i()), r > 0, g1['ufl'] == g0['ufl']),
                                    z3.And(g1['pn'] == g0['pn'], g1['oe'] == 0, g1['ufl'])))]
        wrap('append_undo_node', aun_req, aun_ens, ('pn', 'oe', 'ol', 'ufl'))

        def gln_ens(c):
            a, b = AB(c)
            n = tz(c.args[0].i())
            return [('ghost', c.ret == a.node[z3.If(n <= a.N, n, a.N)])]
        wrap('get_line_node', None, gln_ens)
        for f in REC:
            c = C.get(f)
            if c is not None:
                c.ensures = self.rec_post(f)

    def rec_post(self, f):
        def ens(c):
            a, b = AB(c)
            if c.mode == 'call':
                return []
            g = c.post_st.gh
            fr, to = tz(c.args[0].i()), tz(c.args[1].i())
            if f == 'filter_lines':
                fr, to = z3.If(a.addrs != 0, fr, a.dot + 1), z3.If(a.addrs != 0, to, a.dot)
            d = b.N - a.N
            return [('every inserted line is recorded when it returns', z3.Or(g['pn'] == 0, g['ufl'])),
                    ('lines before the range keep their place', z3.Implies(z3.And(0 <= k0, k0 < fr), b.node[k0] == a.node[k0])),
                    ('lines after the range keep their order', z3.Implies(z3.And(k0 > to + d, k0 <= b.N), b.node[k0] == a.node[k0 - d])),
                    ('no line outside the range is lost', b.N >= a.N - (to - fr + 1))] + inv_post(c)
        return ens

    def init_state(self, ex, st):
        super().init_state(ex, st)
        st.gh['pn'], st.gh['pa'], st.gh['oe'], st.gh['ol'] = (z3.IntVal(0),) * 4
        st.gh['ufl'] = FL

    def on_store(self, ex, st, lv, v):
        super().on_store(ex, st, lv, v)
        if lv.k != 'mem' or any(same(f, lv.idx) for f in st.fr):
            return
        if lv.key in (F, B):
            st.gh['node'] = fresh_arr('node')
            st.gh['pn'] = z3.IntVal(-1)
        elif lv.key == UT:
            g = st.gh
            s = S(ex, st)
            last = g['pa'] + g['pn'] - 1
            ex.oblige(st, 'an undo entry is extended only by the lines right after its last one', z3.And(
                g['oe'] != 0, tz(lv.idx) == g['oe'], g['pn'] > 0, g['pa'] == g['ol'] + 1, tz(v.i()) == g['node'][last]), ex.curline)
            g['ol'], g['pn'] = last, z3.IntVal(0)
        elif lv.key in ('ed_undo_node.h', UTYPE, 'ed_undo_node.q_forw', 'ed_undo_node.q_back'):
            ex.oblige(st, 'undo entries are changed only by the undo machinery', FL, ex.curline)

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = super().loop_cands(ex, entry, head, locs, keys, n)
        ks = {k for k, p in keys}
        if not (ks & set(LISTKEYS)):
            return out
        a = S(ex, ex.pre)
        st = lambda s: S(ex, s)
        V_ = lambda s, i: tz(ex.lrd(s, i))
        out.append(('all recorded', lambda s: s.gh['pn'] == 0))
        out.append(('recording did not fail', lambda s: z3.Not(s.gh['ufl'])))
        out.append(('no open entry', lambda s: s.gh['oe'] == 0))
        for i, v in entry.vars.items():
            if ex.lty(entry, i) == UNODE:
                out.append(('%s may be extended after the current line' % short(i), lambda s, i=i: z3.Or(
                    V_(s, i) == 0, z3.And(V_(s, i) == s.gh['oe'], s.gh['ol'] == st(s).dot))))
        prm = [z3.Int('arg:%s' % p.get('name')) for p in ex.prog.funcs[ex.cur].params if ex.prog.ptype(p) == ('int', 64, True)]
        for A in prm:
            out.append(('lines before %s' % A, lambda s, A=A: FA([i_], z3.Implies(z3.And(0 <= i_, i_ < A), st(s).node[i_] == a.node[i_]), [st(s).node[i_]])))
            out.append(('lines processed end at %s' % A, lambda s, A=A: st(s).dot - st(s).N + a.N <= A))
            out.append(('%s <= current' % A, lambda s, A=A: st(s).dot >= A - 1))
        out.append(('lines after the current one', lambda s: FA([i_], z3.Implies(
            z3.And(i_ > st(s).dot, i_ <= st(s).N), st(s).node[i_] == a.node[i_ - st(s).N + a.N]), [st(s).node[i_]])))
        return out


def rec_tasks(prog):
    from run import Task
    v = RecView(prog)
    return [Task(v, f, 150, 'record') for f in REC if f in prog.funcs]
