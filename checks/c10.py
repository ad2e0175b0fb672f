"""C10: global commands.

The queue of selected lines is the ghost sequence gq[0..gn] (gq[0] its head); its entries denote lines at increasing
positions qp[k] of the list.  The queue functions are proved against that sequence (append at the end, take from the front,
remove exactly the entries of a range of lines, clear); its users see it as the set `sel` of selected lines, in the order of
the list, and prove that
  - marking selects exactly the lines of the range whose text matches (or does not), in order (mark_global_nodes);
  - every deletion and every move, before it relinks anything, takes exactly its lines off the queue, so that the queue
    always is a set of lines of the buffer, in order (delete_lines, move_lines; an insertion preserves the order: lemma);
  - each entry is taken once, the current line is set to its line, the command list runs once from its beginning to its end,
    and the command ends only when the queue is empty, or with an error (exec_global);
  - only mark_global_nodes adds to the queue, and only a top-level global command marks (frame, global_cmd);
  - undoing within a global command empties the queue, whose lines may be gone (undo_last_command)."""
from checks.listview import *
import time

NORETURN = {'quit', 'script_die', 'main', 'handle_hup'}

GF, GB, GLP, AGN = 'ed_global_node.q_forw', 'ed_global_node.q_back', 'ed_global_node.lp', '@alive:ed_global_node'
GHEAD = z3.Int('global_head')
GN = z3.Int('global_n')
GQ, GIX, QP = [z3.Array(x, IntS, IntS) for x in ('gq', 'gidx', 'qpos')]
U, V_, P, R = z3.Ints('first_in_range first_after_range from_pos to_pos')
kk, xx, yy = z3.Ints('k!any x!any y!any')
GNODE = ('ptr', ('rec', 'ed_global_node'))
CORE = z3.Int('ed_core')
SetS = z3.ArraySort(IntS, z3.BoolSort())
RANK = z3.Array('rank', IntS, IntS)
MT = z3.Function('text of the line matches', IntS, z3.BoolSort())
QUEUE = ('append_global_node', 'next_global_node', 'delete_global_nodes', 'reset_global_queue')


def qat(k):
    """entry at position k, the head following the last"""
    return z3.If(k == GN + 1, GHEAD, GQ[k])


class QueueView(BView):
    """the queue functions, on the concrete queue"""
    track_alive = ('ed_global_node',)
    merge_limit = 8
    inv_timeout = 3000
    watch = False
    unroll = 0
    qkeys = frozenset([F, GF, GB, GLP, AGN])

    def __init__(self, prog):
        super().__init__(prog)
        C, W = self.contracts, self
        x = x_

        def links_but(c, *but):
            """links of all entries but those are unchanged"""
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            fw, bw = but
            return [('other entries keep their place (next)', z3.Implies(z3.And(*[xx != t for t in fw]), b.a(GF)[xx] == a.a(GF)[xx])),
                    ('other entries keep their place (previous)', z3.Implies(z3.And(*[xx != t for t in bw]), b.a(GB)[xx] == a.a(GB)[xx]))]

        def lines_kept(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            return [('the list is left alone', z3.And(a.a(F) == b.a(F), a.a(B) == b.a(B)))]

        def app(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            r, lp = tz(c.ret), tz(c.args[0].i())
            ok = r != 0
            g = lambda f: z3.Implies(ok, f)
            return [('the entry is queued last', g(z3.And(b.a(GF)[GQ[GN]] == r, b.a(GF)[r] == GHEAD, b.a(GB)[r] == GQ[GN], b.a(GB)[GHEAD] == r))),
                    ('the entry denotes the line', g(b.a(GLP)[r] == lp)),
                    ('the entry is fresh', g(z3.And(r > 0, a.a(AGN)[r] != 1, b.a(AGN)[r] == 1))),
                    ('a failure changes nothing', z3.Implies(z3.Not(ok), z3.And(*[b.a(k) == a.a(k) for k in (GF, GB, GLP, AGN)]))),
                    ('entries denote the same lines', z3.Implies(xx != r, b.a(GLP)[xx] == a.a(GLP)[xx])),
                    ('no entry is freed', z3.Implies(xx != r, b.a(AGN)[xx] == a.a(AGN)[xx]))] + links_but(
                        c, [GQ[GN], r], [GHEAD, r]) + lines_kept(c)
        C['append_global_node'] = Contract('append_global_node', ensures=app)

        def nxt(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            two = z3.If(GN == 1, GHEAD, GQ[2])
            return [('the line of the first entry is returned, or null if there is none', tz(c.ret) == z3.If(GN == 0, 0, a.a(GLP)[GQ[1]])),
                    ('the first entry is taken off', z3.Implies(GN > 0, z3.And(b.a(GF)[GHEAD] == two, b.a(GB)[two] == GHEAD))),
                    ('exactly the first entry is freed', b.a(AGN)[xx] == z3.If(z3.And(GN > 0, xx == GQ[1]), 0, a.a(AGN)[xx])),
                    ('entries denote the same lines', b.a(GLP) == a.a(GLP)),
                    ('nothing changes if there is none', z3.Implies(GN == 0, z3.And(*[b.a(k) == a.a(k) for k in (GF, GB, AGN)])))] + links_but(
                        c, [GHEAD, GQ[1]], [two, GQ[1]]) + lines_kept(c)
        C['next_global_node'] = Contract('next_global_node', ensures=nxt)

        def dele(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            gone = z3.And(U <= kk, kk < V_, kk >= 1, kk <= GN)
            k1 = z3.And(1 <= kk, kk <= GN)
            return [('the entries before and after the range become neighbours', z3.And(
                        b.a(GF)[GQ[U - 1]] == qat(V_), b.a(GB)[qat(V_)] == GQ[U - 1])),
                    ('exactly the entries of the range are freed', z3.Implies(k1, b.a(AGN)[GQ[kk]] == z3.If(gone, 0, 1))),
                    ('other entries keep their place (next)', z3.Implies(z3.And(
                        0 <= kk, kk <= GN, kk != U - 1, z3.Not(gone)), b.a(GF)[GQ[kk]] == a.a(GF)[GQ[kk]])),
                    ('other entries keep their place (previous)', z3.Implies(z3.And(
                        0 <= kk, kk <= GN, GQ[kk] != qat(V_), z3.Not(gone)), b.a(GB)[GQ[kk]] == a.a(GB)[GQ[kk]])),
                    ('the head stays', b.a(AGN)[GHEAD] == a.a(AGN)[GHEAD]),
                    ('entries denote the same lines', b.a(GLP) == a.a(GLP))] + lines_kept(c)

        def dreq(c):
            if c.mode == 'verify':
                return []
            s = St(c.ex, c.pre_st)
            first = z3.If(GN == 0, 0, s.a(GLP)[GQ[1]])
            return [('the queue is cleared from its first entry to its end', z3.And(tz(c.args[0].i()) == first, tz(c.args[1].i()) == 0))]
        C['delete_global_nodes'] = Contract('delete_global_nodes', requires=dreq, ensures=lambda c: dele(c) if c.mode != 'call' else [
            ('ghost', z3.And(St(c.ex, c.post_st).a(GF)[GHEAD] == GHEAD, St(c.ex, c.post_st).a(GB)[GHEAD] == GHEAD)),
            ('ghost', z3.And(*[St(c.ex, c.pre_st).a(k) == St(c.ex, c.post_st).a(k) for k in (F, B)]))])
        C['reset_global_queue'] = Contract('reset_global_queue', ensures=lambda c: [
            ('the queue is empty', z3.And(St(c.ex, c.post_st).a(GF)[GHEAD] == GHEAD, St(c.ex, c.post_st).a(GB)[GHEAD] == GHEAD))] + lines_kept(c))
        C['spl1'] = Contract('spl1', assigns=lambda c: [('@_mutex', 0)])
        C['spl0'] = Contract('spl0', assigns=lambda c: ListView.spl_frame(W, c))
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def init_state(self, ex, st):
        super().init_state(ex, st)
        ex.wr(st, 'ed_core.line_head', CORE, HEAD)
        ex.wr(st, 'ed_core.global_head', CORE, GHEAD)
        s = St(ex, st)
        i, x = i_, x_
        f, b, lp, al = s.a(GF), s.a(GB), s.a(GLP), s.a(AGN)
        A = st.assume
        A(z3.And(HEAD > 0, GHEAD > 0, GN >= 0, GQ[0] == GHEAD))
        A(FA([i], z3.Implies(z3.And(0 <= i, i < GN), f[GQ[i]] == GQ[i + 1]), [f[GQ[i]]]))
        A(f[GQ[GN]] == GHEAD)
        A(FA([i], z3.Implies(z3.And(1 <= i, i <= GN), b[GQ[i]] == GQ[i - 1]), [b[GQ[i]]]))
        A(b[GHEAD] == GQ[GN])
        A(FA([i], z3.Implies(z3.And(0 <= i, i <= GN), z3.And(GIX[GQ[i]] == i, al[GQ[i]] == 1, GQ[i] > 0)), [GQ[i]]))
        A(lp[GHEAD] == 0)
        A(FA([i], z3.Implies(z3.And(1 <= i, i <= GN), lp[GQ[i]] > 0), [lp[GQ[i]]]))
        ex.assumptions.add('the queue is a ring of live entries whose head denotes no line (established by the initialisation, kept '
                           'by the queue functions: their postconditions give the next shape)')
        if ex.cur != 'delete_global_nodes':
            return
        if ex.variant == 'all':
            A(z3.And(U == 1, V_ == GN + 1))
            return
        # the list, and the positions of the queued lines in it
        st.gh['node'] = z3.Array('node', IntS, IntS)
        st.gh['idx'] = z3.Array('idx', IntS, IntS)
        nd, ix, N, lf = s.node, s.idx, s.N, s.a(F)
        A(N >= 0)
        A(nd[0] == HEAD)
        A(FA([i], z3.Implies(z3.And(0 <= i, i < N), lf[nd[i]] == nd[i + 1]), [lf[nd[i]]]))
        A(lf[nd[N]] == HEAD)
        A(FA([i], z3.Implies(z3.And(0 <= i, i <= N), z3.And(ix[nd[i]] == i, nd[i] > 0)), [nd[i]]))
        A(z3.And(1 <= P, P < R, R <= N + 1))
        A(z3.And(1 <= U, U <= V_, V_ <= GN + 1))
        ent = lambda i: z3.Implies(z3.And(1 <= i, i <= GN), z3.And(
            lp[GQ[i]] == nd[QP[i]], 1 <= QP[i], QP[i] <= N, (i < U) == (QP[i] < P), (i < V_) == (QP[i] < R),
            z3.Implies(i > U, QP[i] > QP[U]), z3.Implies(i > V_, QP[i] > QP[V_])))
        A(FA([i], ent(i), [GQ[i]]))
        A(ent(U))
        A(ent(V_))

    def pos(self, s, x):
        return z3.If(x == HEAD, St(self.ex, s).N + 1, s.gh['idx'][x])

    def entry(self, ex, name, args, st):
        self.ex = ex
        s = St(ex, st)
        if name == 'append_global_node':
            st.assume(tz(args[0].i()) > 0)
        if name == 'delete_global_nodes':
            b, e = tz(args[0].i()), tz(args[1].i())
            if ex.variant == 'all':
                st.assume(z3.And(e == 0, b == z3.If(GN == 0, 0, s.a(GLP)[GQ[1]])))
            else:
                st.assume(z3.And(b == s.node[P], e == z3.If(R == s.N + 1, HEAD, s.node[R])))

    def loop_cands(self, ex, entry, head, locs, keys, n):
        if ex.cur != 'delete_global_nodes':
            return []
        out = []
        e0, p0 = St(ex, entry), St(ex, ex.pre)
        Vv = lambda s, i: tz(ex.lrd(s, i))
        loc = lambda ty: [i for i, v in entry.vars.items() if ex.lty(entry, i) == ty]
        gs, ls = loc(GNODE), loc(LNODE)
        lp0 = p0.a(GLP)
        ks = {k for k, p in keys}
        rng = ex.variant != 'all'
        for g in gs:
            G = lambda s, g=g: Vv(s, g)
            out.append(('%s is an entry' % short(g), lambda s, G=G: z3.And(0 <= GIX[G(s)], GIX[G(s)] <= GN, GQ[GIX[G(s)]] == G(s))))
            # the position reached; the head stands for the entry after the range (nothing to remove, or all removed)
            m = lambda s, G=G: z3.If(G(s) == GHEAD, V_, GIX[G(s)])
            T = lambda s, G=G: z3.If(G(s) == GHEAD, qat(V_), G(s))
            for nm, X in (('U', U), ('V', V_)):
                for l in ls:
                    L = lambda s, l=l: Vv(s, l)
                    out.append(('%s passed %s only if it is not %s' % (short(g), nm, short(l)), lambda s, G=G, L=L, X=X: z3.Implies(
                        z3.And(X <= GN, GIX[G(s)] > X), lp0[GQ[X]] != L(s))))
            if GF in ks:
                out.append(('%s within the range' % short(g), lambda s, m=m: z3.And(U <= m(s), m(s) <= V_)))
                out.append(('%s follows the entries before the range' % short(g), lambda s, T=T: z3.And(
                    St(ex, s).a(GF)[GQ[U - 1]] == T(s), St(ex, s).a(GB)[T(s)] == GQ[U - 1])))
                out.append(('links before and after %s (next)' % short(g), lambda s, m=m: FA([i_], z3.Implies(
                    z3.And(0 <= i_, i_ <= GN, i_ != U - 1, z3.Or(i_ < U, i_ >= m(s))), St(ex, s).a(GF)[GQ[i_]] == p0.a(GF)[GQ[i_]]), [GQ[i_]])))
                out.append(('links before and after %s (previous)' % short(g), lambda s, m=m, T=T: FA([i_], z3.Implies(
                    z3.And(0 <= i_, i_ <= GN, GQ[i_] != T(s), z3.Or(i_ < U, i_ >= m(s))), St(ex, s).a(GB)[GQ[i_]] == p0.a(GB)[GQ[i_]]), [GQ[i_]])))
                out.append(('freed up to %s' % short(g), lambda s, m=m: FA([i_], z3.Implies(z3.And(1 <= i_, i_ <= GN), St(ex, s).a(AGN)[GQ[i_]] == z3.If(
                    z3.And(U <= i_, i_ < m(s)), 0, 1)), [GQ[i_]])))
                out.append(('the head is not freed', lambda s: St(ex, s).a(AGN)[GHEAD] == p0.a(AGN)[GHEAD]))
        for l in ls:
            L = lambda s, l=l: Vv(s, l)
            out.append(('%s as before' % short(l), lambda s, L=L, l0=Vv(entry, l): L(s) == l0))
            if rng:
                q = lambda s, L=L: self.pos(s, L(s))
                out.append(('%s is a line' % short(l), lambda s, L=L, q=q: z3.And(q(s) >= 1, q(s) <= p0.N + 1, L(s) == z3.If(
                    q(s) == p0.N + 1, HEAD, p0.node[q(s)]))))
                out.append(('%s in the range' % short(l), lambda s, q=q: z3.And(P <= q(s), q(s) <= R)))
                out.append(('%s not before the end' % short(l), lambda s, q=q: q(s) >= R))
                for nm, X in (('U', U), ('V', V_)):
                    out.append(('no entry before %s %s' % (nm, short(l)), lambda s, q=q, X=X: z3.Or(X > GN, QP[X] >= q(s))))
        return out


# ------------------------------------------------------------------ the queue as a set of selected lines
def listed(a, sel, x):
    return z3.Implies(sel[x], z3.And(1 <= a.idx[x], a.idx[x] <= a.N, a.node[a.idx[x]] == x))


def in_order(a, sel, x, y):
    return z3.Implies(z3.And(sel[x], sel[y], RANK[x] < RANK[y]), a.idx[x] < a.idx[y])


class SelView(ListView):
    """what deletions and moves do to the selected lines"""
    runs = False
    with_undo = False
    no_houdini = ()

    def __init__(self, prog):
        super().__init__(prog)
        C, W = self.contracts, self

        def dgn_req(c):
            a = St(c.ex, c.pre_st)
            b, e = tz(c.args[0].i()), tz(c.args[1].i())
            p, r = a.idx[b], z3.If(e == HEAD, a.N + 1, a.idx[e])
            out = [('the list is still in the order of the queue: ' + nm, f) for nm, f in wf(c.ex, c.pre_st)]
            sel = c.pre_st.gh['sel']
            out += [('the lines taken off the queue are a range of the buffer', z3.And(
                1 <= p, p <= a.N, a.node[p] == b, p < r, r <= a.N + 1, z3.Implies(e != HEAD, a.node[r] == e))),
                ('queued lines are lines of the buffer', listed(a, sel, xx)),
                ('the queue is in the order of the lines', in_order(a, sel, xx, yy))]
            return out

        def dgn_ens(c):
            a = St(c.ex, c.pre_st)
            b, e = tz(c.args[0].i()), tz(c.args[1].i())
            p, r = a.idx[b], z3.If(e == HEAD, a.N + 1, a.idx[e])
            s0, s1 = c.pre_st.gh['sel'], c.post_st.gh['sel']
            return [('ghost', FA([x_], s1[x_] == z3.And(s0[x_], z3.Not(z3.And(p <= a.idx[x_], a.idx[x_] < r))), [s1[x_]])),
                    ('ghost', z3.And(*[a.a(k) == St(c.ex, c.post_st).a(k) for k in (F, B)]))]
        C['delete_global_nodes'] = Contract('delete_global_nodes', requires=dgn_req, ensures=dgn_ens, ghost_mod=('sel',),
                                            assigns=lambda c: [(GF, None), (GB, None), (AGN, None)])

        def after(frm, to):
            def ens(c):
                a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
                ok = tz(c.ret) >= 0
                f, t = frm(c), to(c)
                s0, s1 = c.pre_st.gh['sel'], c.post_st.gh['sel']
                inr = z3.And(f <= a.idx[xx], a.idx[xx] <= t)
                return [('exactly the lines of the range are taken off the queue', z3.Implies(ok, s1[xx] == z3.And(s0[xx], z3.Not(inr)))),
                        ('a failure takes no line off the queue', z3.Implies(z3.Not(ok), s1[xx] == s0[xx])),
                        ('queued lines are lines of the buffer', listed(b, s1, xx)),
                        ('the queue is in the order of the lines', in_order(b, s1, xx, yy))]
            return ens
        for f in ('delete_lines', 'move_lines'):
            if f in C:
                C[f].ensures = after(lambda c: tz(c.args[0].i()), lambda c: tz(c.args[1].i()))
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def init_state(self, ex, st):
        super().init_state(ex, st)
        st.gh['sel'] = z3.Const('sel', SetS)
        key, idx = ex.path_cell(st, 'ed.exec.global'.split('.'))
        st.assume(tz(ex.path_read(st, 'ed.exec.global')) != 0)
        a, sel = St(ex, st), st.gh['sel']
        x, y = x_, z3.Int('y')
        st.assume(FA([x], listed(a, sel, x), [sel[x]]))
        st.assume(z3.ForAll([x, y], in_order(a, sel, x, y), patterns=[z3.MultiPattern(sel[x], sel[y])]))


class MarkLines(ListView):
    """mark_global_nodes: the selected lines are exactly the lines of the range that match (or do not)"""
    runs = False
    watch = False

    def __init__(self, prog):
        super().__init__(prog)
        C, W = self.contracts, self
        nolist = lambda c: [('ghost', z3.And(*[St(c.ex, c.pre_st).a(k) == St(c.ex, c.post_st).a(k) for k in (F, B, LEN)]))]
        keep = lambda c: nolist(c) + [('ghost', St(c.ex, c.pre_st).N == St(c.ex, c.post_st).N)]
        C['reset_global_queue'] = Contract('reset_global_queue', assigns=lambda c: [(GF, None), (GB, None), (AGN, None)], ghost_mod=('sel', 'top'),
                                           ensures=lambda c: [('ghost', z3.And(c.post_st.gh['sel'] == z3.K(IntS, z3.BoolVal(False)), c.post_st.gh['top'] == 0))])

        def app_req(c):
            a = St(c.ex, c.pre_st)
            lp = tz(c.args[0].i())
            return [('the line selected is a line of the buffer', z3.And(1 <= a.idx[lp], a.idx[lp] <= a.N, a.node[a.idx[lp]] == lp)),
                    ('lines are selected in their order', a.idx[lp] > c.pre_st.gh['top'])]

        def app_ens(c):
            a = St(c.ex, c.pre_st)
            lp, ok = tz(c.args[0].i()), tz(c.ret) != 0
            g0, g1 = c.pre_st.gh, c.post_st.gh
            return [('ghost', g1['sel'] == z3.If(ok, z3.Store(g0['sel'], lp, True), g0['sel'])),
                    ('ghost', g1['top'] == z3.If(ok, a.idx[lp], g0['top']))]
        C['append_global_node'] = Contract('append_global_node', requires=app_req, ensures=app_ens, ghost_mod=('sel', 'top'),
                                           assigns=lambda c: [(GF, None), (GB, None), (AGN, None), (GLP, None), ('ed_execute.err', z3.Int('ed_exec'))] + W.spl_frame(c))
        C['get_compiled_regex'] = Contract('get_compiled_regex', ensures=keep)
        C['get_buffer_line'] = Contract('get_buffer_line', ensures=lambda c: keep(c) + [
            ('ghost', c.post_st.gh['txt'] == tz(c.ret)), ('ghost', c.post_st.gh['of'] == tz(c.args[0].i()))], ghost_mod=('txt', 'of'))

        def ens(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            ok = tz(c.ret) >= 0
            sel = c.post_st.gh['sel']
            f, t = W.fr(c.ex, c.pre_st), W.to(c.ex, c.pre_st)
            w = tz(c.args[0].i())
            inr = z3.And(f <= b.idx[xx], b.idx[xx] <= t, b.node[b.idx[xx]] == xx)
            return [('exactly the matching (or not matching) lines of the range are selected', z3.Implies(
                        ok, sel[xx] == z3.And(inr, MT(xx) == (w != 0)))),
                    ('the list is left alone', z3.And(a.a(F) == b.a(F), a.a(B) == b.a(B), a.N == b.N))]
        C['mark_global_nodes'] = Contract('mark_global_nodes', ensures=ens, requires=lambda c: W.basic(c) + [
            ('the range lies in the buffer', z3.And(1 <= W.fr(c.ex, c.pre_st), W.fr(c.ex, c.pre_st) <= W.to(c.ex, c.pre_st), W.to(c.ex, c.pre_st) <= St(c.ex, c.pre_st).N)),
            ('match or no match is asked for', z3.Or(tz(c.args[0].i()) == 0, tz(c.args[0].i()) == 1))])
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    fr = lambda s, ex, st: tz(ex.path_read(st, 'ed.exec.region.start'))
    to = lambda s, ex, st: tz(ex.path_read(st, 'ed.exec.region.end'))

    def init_state(self, ex, st):
        super().init_state(ex, st)
        st.gh['sel'] = z3.Const('sel', SetS)
        st.gh['top'], st.gh['txt'], st.gh['of'] = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)

    def on_call(self, ex, name, args, st, n):
        if name not in ('regexec', 'rpl_regexec'):
            return None
        g = st.gh
        ex.oblige(st, 'the text matched is the text of the line last fetched', z3.And(tz(args[1].i()) == g['txt'], tz(args[1].i()) != 0), n_line(n))
        fl = args[4].i()
        rs = self.startend(ex)
        if rs is not None:
            ex.oblige(st, 'the extent of the text is handed over', cmp('==', fl, rs), n_line(n))
            rm = tz(args[3].i())
            so, eo = self.rmoff(ex)
            st.assume(z3.And(0 <= St(ex, st).a(LEN)[g['of']], St(ex, st).a(LEN)[g['of']] < 1 << 31))
            ex.assumptions.add('a line has fewer than 2^31 characters (the regular expression library can address no more)')
            rd = lambda f: tz(self.rm_read(ex, st, args[3], f))
            ex.oblige(st, 'all of the text of the line is matched', z3.And(rd('rm_so') == 0, rd('rm_eo') == St(ex, st).a(LEN)[g['of']]), n_line(n))
        r = fresh('regexec')
        st.assume((r == 0) == MT(g['of']))
        ex.assumptions.add('regexec decides whether the text matches; the outcome depends on the text of the line only')
        return [(Val(r, INT), st)]

    def startend(self, ex):
        return 4        # REG_STARTEND of the C library here

    def rmoff(self, ex):
        return None, None

    def rm_read(self, ex, st, v, f):
        return ex.rd(st, 'regmatch_t.' + f, v.i())

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = super().loop_cands(ex, entry, head, locs, keys, n)
        if ex.cur != 'mark_global_nodes':
            return out
        e = St(ex, entry)
        f, t = self.fr(ex, ex.pre), self.to(ex, ex.pre)
        want = z3.Int('arg:%s' % ex.prog.funcs[ex.cur].params[0].get('name'))
        Vv = lambda s, i: tz(ex.lrd(s, i))
        ints = [i for i, v in entry.vars.items() if ex.lty(entry, i) == ('int', 64, True)]
        ptrs = [i for i, v in entry.vars.items() if ex.lty(entry, i) == LNODE]
        out.append(('list as before', lambda s: z3.And(St(ex, s).N == e.N, *[St(ex, s).a(k) == e.a(k) for k in (F, B, LEN)])))
        for q in ints:
            ups = [('position %s' % short(q), lambda s, q=q: Vv(s, q)),
                   ('position %s left' % short(q), lambda s, q=q: t + 1 - Vv(s, q))]
            for nm, pos in ups:
                for p in ptrs:
                    out.append(('%s is at %s' % (short(p), nm), lambda s, p=p, pos=pos: Vv(s, p) == z3.If(pos(s) == e.N + 1, HEAD, e.node[pos(s)])))
                out.append(('%s in range' % nm, lambda s, pos=pos: z3.And(f <= pos(s), pos(s) <= t + 1)))
                out.append(('selected up to %s' % nm, lambda s, pos=pos: FA([x_], s.gh['sel'][x_] == z3.And(
                    f <= e.idx[x_], e.idx[x_] < pos(s), e.node[e.idx[x_]] == x_, MT(x_) == (want != 0)), [s.gh['sel'][x_]])))
                out.append(('last selected before %s' % nm, lambda s, pos=pos: s.gh['top'] < pos(s)))
        return out


class GlobView(BView):
    """exec_global: each line taken off the queue has the command list run once, from its beginning to its end, at its position

    Ghost state: sel the queued lines, vis those taken off; cur the line last taken, n their number; due: its command list was
    not begun; ended: it ran to its end; done: the queue was found empty; lst the stored command list, got: the text last read
    (rd, of elen characters), fresh: stored since the line was taken; shown: the line was displayed; ver stands for the
    contents of the buffer (positions of lines)."""
    merge_limit = 12
    unroll = 0
    watch = True
    inv_timeout = 2000
    no_houdini = ('exec_global',)
    ghosts_on = True
    POS = z3.Function('position of the line', IntS, IntS, IntS)
    GV = ('sel', 'vis', 'cur', 'n', 'due', 'ended', 'done', 'lst', 'rd', 'elen', 'fresh', 'shown', 'ver')

    def __init__(self, prog):
        super().__init__(prog)
        C, W = self.contracts, self
        EMPTYS = z3.K(IntS, z3.BoolVal(False))
        self.gstat = lambda ex: [k for k in ex.ms.statics.values() if k.startswith('@exec_global.')]

        def nx_req(c):
            g = c.pre_st.gh
            return [('the command list was run for the line taken before', z3.Or(z3.Not(g['due']), W.skipped(c.ex, c.pre_st))),
                    ('the command list was run to its end', z3.Or(
                        g['n'] == 0, g['due'], g['ended'], W.atend(c.ex, c.pre_st)))]

        def nx_ens(c):
            g0, g1 = c.pre_st.gh, c.post_st.gh
            r = tz(c.ret)
            return [('ghost', z3.If(r == 0, z3.And(g1['sel'] == g0['sel'], g1['vis'] == g0['vis'], g1['done'], z3.Not(g1['due'])), z3.And(
                g0['sel'][r], g1['sel'] == z3.Store(g0['sel'], r, False), g1['vis'] == z3.Store(g0['vis'], r, True),
                g1['due'], g1['done'] == g0['done']))),
                ('ghost', z3.Implies(r == 0, g0['sel'] == EMPTYS)), ('ghost', r >= 0),
                ('ghost', z3.And(g1['cur'] == r, g1['n'] == g0['n'] + z3.If(r == 0, 0, 1), g1['n'] >= 0, z3.Not(g1['ended']),
                                 z3.Not(g1['fresh']), z3.Not(g1['shown'])))]
        C['next_global_node'] = Contract('next_global_node', requires=nx_req, ensures=nx_ens, ghost_mod=(
            'sel', 'vis', 'due', 'cur', 'done', 'n', 'ended', 'fresh', 'shown'), assigns=lambda c: [(GF, None), (GB, None), (AGN, None)])

        def glna(c):
            g = c.pre_st.gh
            v = c.args[1]
            if v.prov is None:
                return []
            a = tz(c.ex.load(c.post_st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())
            return [('ghost', z3.Implies(z3.And(tz(c.args[0].i()) == g['cur'], tz(c.ret) >= 0), a == W.POS(g['ver'], g['cur'])))]
        C['get_line_node_address'] = Contract('get_line_node_address', ensures=glna)

        # commands: what they do to the lines is decided elsewhere; only mark_global_nodes queues lines (frame), and it is not
        # reached while a global command runs (global_cmd)
        def cmd_req(f):
            def req(c):
                g = c.pre_st.gh
                due = g['due']
                inp = tz(c.pre.p('ed.input'))
                inter = W.inter(c.ex)
                out = [('a line was taken off the queue for the commands', g['cur'] != 0),
                       ('the command list begins at the position of its line', z3.Implies(due, tz(c.pre.p('ed.state.0.dot')) == W.POS(g['ver'], g['cur']))),
                       ('the command list is run from its beginning', z3.Implies(due, z3.And(inp == g['lst'], inp != 0))),
                       ('the command list was read for this line, or repeated on request', z3.Implies(z3.And(due, inter), z3.Or(g['fresh'], g['elen'] == 2)))]
                if f == 'exec_command':
                    out += [('each command has its address range read first', z3.Not(due))]
                return out
            return req

        def cmd_ens(c):
            g0, g1 = c.pre_st.gh, c.post_st.gh
            return [('ghost', FA([x_], z3.Implies(g1['sel'][x_], g0['sel'][x_]), [g1['sel'][x_]])),
                    ('ghost', z3.Not(g1['due'])), ('ghost', z3.Not(g1['ended']))] + [
                        ('ghost', tz(c.ex.rd(c.post_st, k, 0)) == tz(c.ex.rd(c.pre_st, k, 0))) for k in W.gstat(c.ex)]
        for f in ('address_range', 'exec_command'):
            C[f] = Contract(f, ghost_mod=('sel', 'ver', 'due', 'ended'), requires=cmd_req(f), ensures=cmd_ens)

        def disp(c):
            g0, g1 = c.pre_st.gh, c.post_st.gh
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            at = W.POS(g0['ver'], g0['cur'])
            return [('ghost', g1['shown'] == z3.Or(g0['shown'], z3.And(tz(c.ret) >= 0, f == at, t == at))),
                    ('ghost', z3.Implies(tz(c.ret) >= 0, tz(c.post.p('ed.state.0.dot')) == t))]
        C['display_lines'] = Contract('display_lines', ghost_mod=('shown',), ensures=disp)
        C['get_stdin_line'] = Contract('get_stdin_line', requires=lambda c: [
            ('the line is displayed before a command list is asked for', c.pre_st.gh['shown'])] if c.ex.cur in ('exec_global',) else [])

        def gel(c):
            g1 = c.post_st.gh
            v = c.args[0]
            out = [('ghost', g1['rd'] == tz(c.ret)), ('ghost', tz(c.ret) >= 0), ('ghost', z3.Not(g1['fresh']))]
            out += [('ghost', z3.Implies(tz(c.ret) != 0, tz(c.ret) != tz(c.ex.rd(c.post_st, k, 0)))) for k in W.gstat(c.ex)]
            if v.prov is not None:
                out.append(('ghost', g1['elen'] == tz(c.ex.load(c.post_st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())))
            return out
        C['get_extended_line'] = Contract('get_extended_line', ghost_mod=('rd', 'elen', 'fresh'), ensures=gel)
        C['reset_undo_queue'] = Contract('reset_undo_queue')
        C['realloc_buffer'] = Contract('realloc_buffer')
        self.contracts = {k: v for k, v in C.items()}

        def ens(c):
            g = c.post_st.gh
            ok = tz(c.ret) >= 0
            return [('it ends with every line visited, or at the end of the input of an interactive one, or with an error', z3.Implies(ok, z3.Or(
                        z3.And(g['done'], g['sel'] == EMPTYS), z3.And(W.inter(c.ex), g['rd'] == 0), z3.And(W.inter(c.ex), g['shown'])))),
                    ('a line visited is not visited again', z3.Implies(g['vis'][xx], z3.Not(g['sel'][xx])))]
        C['exec_global'] = Contract('exec_global', requires=lambda c: [('a global command is marked as running', tz(c.pre.p('ed.exec.global')) != 0)],
                                    ensures=ens)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def inter(self, ex):
        return tz(ex.bit(ex.pre, ex.path_read(ex.pre, 'ed.exec.global'), self.enums['GLBI'].bit_length() - 1)) if 'GLBI' in self.enums else z3.BoolVal(True)

    def skipped(self, ex, st):
        g = st.gh
        return z3.Or(z3.And(g['lst'] != 0, tz(ex.rd(st, '*8', g['lst'])) == 0), z3.And(self.inter(ex), g['elen'] == 1))

    def atend(self, ex, st):
        inp = tz(ex.path_read(st, 'ed.input'))
        return z3.Or(inp == 0, tz(ex.rd(st, '*8', inp)) == 0)

    def init_state(self, ex, st):
        super().init_state(ex, st)
        g = st.gh
        self.plit(ex)
        for k in self.gstat(ex):
            st.assume(tz(ex.rd(st, k, 0)) < GLOBAL_BASE)
        ex.assumptions.add('the stored command list and the buffer commands are read into are distinct')
        g['sel'] = z3.Const('sel', SetS)
        g['vis'] = z3.K(IntS, z3.BoolVal(False))
        for k in ('cur', 'n', 'lst', 'rd', 'elen', 'ver'):
            g[k] = z3.IntVal(0)
        for k in ('due', 'ended', 'done', 'fresh', 'shown', 'blank'):
            g[k] = z3.BoolVal(False)

    def plit(self, ex):
        return ex.strs.setdefault('"p\\n"', GLOBAL_BASE + (1 << 44) + len(ex.strs) * (1 << 16))

    def on_store(self, ex, st, lv, v):
        super().on_store(ex, st, lv, v)
        if lv.k == 'mem' and lv.key == 'ed_buffer.input':
            old = tz(ex.path_read(st, 'ed.input'))
            if isc(v.i()) and v.i() == self.plit(ex):
                st.gh['blank'] = z3.And(old == st.gh['rd'], tz(ex.rd(st, '*8', old)) == 10)
            st.gh['ended'] = z3.And(z3.Not(st.gh['due']), self.atend(ex, st))

    def on_call(self, ex, name, args, st, n):
        if name in ('strcpy', 'memcpy', 'memmove', 'strncpy') and ex.cur == 'exec_global':
            g = st.gh
            src = tz(args[1].i())
            ex.oblige(st, 'the command list stored is the one read', z3.Or(
                src == g['rd'], z3.And(g['blank'], z3.Not(self.inter(ex)), src == self.plit(ex))), n_line(n))
            g['lst'] = tz(args[0].i())
            st.assume(g['lst'] > 0)
            ex.assumptions.add('realloc_buffer provides the storage of the stored command list (C17)')
            g['fresh'] = z3.BoolVal(True)
        return None

    def loop_cands(self, ex, entry, head, locs, keys, n):
        g = lambda s: s.gh
        p = lambda s, x: tz(ex.path_read(s, x))
        out = [('visited lines are not queued', lambda s: FA([x_], z3.Implies(g(s)['vis'][x_], z3.Not(g(s)['sel'][x_])), [g(s)['vis'][x_]])),
               ('nothing due', lambda s: z3.Not(g(s)['due'])),
               ('a line was taken', lambda s: g(s)['cur'] != 0),
               ('the queue is not known to be empty', lambda s: z3.Not(g(s)['done'])),
               ('n >= 0', lambda s: g(s)['n'] >= 0),
               ('due: begins at its line', lambda s: z3.Implies(g(s)['due'], p(s, 'ed.state.0.dot') == self.POS(g(s)['ver'], g(s)['cur']))),
               ('due: at the beginning of the list', lambda s: z3.Implies(g(s)['due'], p(s, 'ed.input') == g(s)['lst'])),
               ('due: list for this line', lambda s: z3.Implies(z3.And(g(s)['due'], self.inter(ex)), z3.Or(g(s)['fresh'], g(s)['elen'] == 2))),
               ('ended', lambda s: z3.Or(g(s)['n'] == 0, g(s)['ended'], g(s)['due'])),
               ('skipped', lambda s: z3.Or(z3.Not(g(s)['due']), self.skipped(ex, s))),
               ('first round', lambda s: z3.Or(g(s)['n'] > 0, self.inter(ex), p(s, 'ed.input') == g(s)['rd'], z3.And(
                   g(s)['blank'], p(s, 'ed.input') == self.plit(ex)))),
               ('lst not 0', lambda s: z3.Or(g(s)['n'] == 0, self.inter(ex), g(s)['lst'] != 0)),
               ('read', lambda s: z3.Or(self.inter(ex), g(s)['rd'] != 0))]
        ints = [i for i, v in entry.vars.items() if ex.lty(entry, i) == ('int', 32, True)]
        for i in ints:
            out.append(('a list is stored unless %s' % short(i), lambda s, i=i: z3.Or(tz(ex.lrd(s, i)) != 0, g(s)['lst'] > 0)))
        for k in [k for k in entry.heap if k.startswith('%') and '@' in k]:
            out.append(('%s is the length read' % k, lambda s, k=k: tz(ex.rd(s, k, 0)) == g(s)['elen']))
        for k in self.gstat(ex):
            K = lambda s, k=k: tz(ex.rd(s, k, 0))
            out.append(('%s holds the list' % k, lambda s, K=K: z3.Or(g(s)['n'] == 0, self.inter(ex), K(s) == g(s)['lst'])))
            out.append(('%s holds the list already' % k, lambda s, K=K: K(s) == g(s)['lst']))
            for i in ints:
                out.append(('%s holds the list unless %s' % (k, short(i)), lambda s, K=K, i=i: z3.Or(
                    tz(ex.lrd(s, i)) != 0, K(s) == g(s)['lst'])))
            out.append(('input is %s' % k, lambda s, K=K: z3.Or(g(s)['n'] == 0, p(s, 'ed.input') == K(s))))
            out.append(('input is not %s' % k, lambda s, K=K: z3.Or(g(s)['n'] > 0, self.inter(ex), p(s, 'ed.input') != K(s))))
        return out


class CmdGlob(BView):
    """who marks and runs: global_cmd, the main loop, and undo within a global command"""
    merge_limit = 8
    unroll = 0
    no_houdini = ('main',)

    def __init__(self, prog):
        super().__init__(prog)
        self.inlines |= {'is_valid_range'}
        C, W = self.contracts, self
        p = lambda c, x: tz(c.pre.p(x))
        glob = lambda c: p(c, 'ed.exec.global')
        ch = lambda c: tz(c.ex.rd(c.ex.pre, '*8', tz(c.ex.path_read(c.ex.pre, 'ed.input')) - 1))
        among = lambda x, t: z3.Or(*[x == ord(q) for q in t])

        def mk(c):
            if c.ex.cur != 'global_cmd':
                return []
            w = tz(c.args[0].i())
            none = tz(c.ex.path_read(c.ex.pre, 'ed.exec.region.addrs')) == 0
            return [('no global command is run by a global command', glob(c) == 0),
                    ('g and G select the lines that match, v and V those that do not', z3.If(among(ch(c), 'gG'), w == 1, z3.Implies(among(ch(c), 'vV'), w == 0))),
                    ('without addresses all lines are examined', z3.Implies(none, z3.And(
                        p(c, 'ed.exec.region.start') == 1, p(c, 'ed.exec.region.end') == p(c, 'ed.state.0.lines'))))]
        C['mark_global_nodes'] = Contract('mark_global_nodes', requires=mk, ghost_mod=('marked',), ensures=lambda c: [
            ('ghost', c.post_st.gh['marked'] == (tz(c.ret) >= 0))])
        C['exec_global'] = Contract('exec_global', requires=lambda c: [
            ('a global command is marked as running', glob(c) != 0),
            ('the lines were selected', c.pre_st.gh['marked']),
            ('G and V are interactive, g and v are not', tz(c.ex.bit(c.pre_st, c.pre.p('ed.exec.global'), W.enums['GLBI'].bit_length() - 1)) == among(ch(c), 'GV'))]
            if c.ex.cur == 'global_cmd' else [('only a global command runs the queue', z3.BoolVal(False))])
        C['global_cmd'] = Contract('global_cmd')
        for f in ('address_range',):
            C[f] = Contract(f, requires=lambda c: [('a command given by the user does not run as part of a global command', W.glob_of(c) == 0)] if c.ex.cur == 'main' else [])
        C['reset_global_queue'] = Contract('reset_global_queue', ghost_mod=('empty',), ensures=lambda c: [('ghost', c.post_st.gh['empty'])])
        C['undo_last_command'] = Contract('undo_last_command', ensures=lambda c: [
            ('undoing within a global command empties the queue', z3.Implies(z3.And(tz(c.ret) >= 0, glob(c) != 0), c.post_st.gh['empty']))]
            if c.mode != 'call' else [])
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def init_state(self, ex, st):
        super().init_state(ex, st)
        st.gh['marked'] = z3.BoolVal(False)
        st.gh['empty'] = z3.BoolVal(False)

    def glob_of(self, c):
        x = c.ex.rd(c.pre_st, 'ed_buffer.exec', c.args[-1].i())
        return tz(c.ex.rd(c.pre_st, 'ed_execute.global', x))

    def entry(self, ex, name, args, st):
        if name == 'global_cmd':
            c = tz(ex.rd(st, '*8', tz(ex.path_read(st, 'ed.input')) - 1))
            st.assume(z3.Or(*[c == ord(q) for q in 'gGvV']))
            ex.assumptions.add('global_cmd is dispatched for g, G, v and V (C03: exec_command)')

    def loop_cands(self, ex, entry, head, locs, keys, n):
        return [('nothing marked', lambda s: z3.Not(s.gh['marked']))]


class CoarseGlob(CmdGlob):
    merge_limit = 1
    coarse = {'ed_execute.global'}


LINEW = ('append_line_node', 'delete_lines', 'move_lines', 'undo_last_command', 'one_time_init')
QW = ('append_global_node', 'delete_global_nodes', 'next_global_node', 'one_time_init')
FRAMES = [((F, B), LINEW, 'lines are linked and unlinked only where the queue is kept in step'),
          ((GF, GB, GLP), QW, 'the queue is changed by the queue functions only'),
          (('ed_execute.global',), ('global_cmd', 'init_ed_command', 'main'), 'global commands are started and ended in one place only'),
          (('ed_core.global_head',), ('alloc_ed_buffer',), 'the queue stays the same one')]
CALLS = [('append_global_node', ('mark_global_nodes',)), ('mark_global_nodes', ('global_cmd',)), ('exec_global', ('global_cmd',))]


def frames(prog):
    """frame conditions computed from the source: the writers of the queue and of the line links"""
    from modset import ModSets
    ms = ModSets(prog)
    ms.of_func('main')
    known = set(BASE)
    out = []
    ob = lambda f, nm, ok: out.append(dict(func=f, name=nm, line=0, kind='frame', time=0.0, backend='frame', status='discharged' if ok else 'refuted', trace=[]))
    for f in sorted(prog.funcs):
        if f not in known:
            continue
        own = ms.own(f, known)
        for ks, ws, nm in FRAMES:
            if f not in ws:
                ob(f, nm, not (own & set(ks)))
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            todo += [h for h in ms.edges.get(g, ()) if h not in known]
        for callee, callers in CALLS:
            if f not in callers and f in prog.funcs:
                ob(f, '%s is called by %s only' % (callee, ', '.join(callers)), not any(callee in ms.edges.get(g, ()) for g in seen))
    return dict(obligations=out, vacuity='sat', nret=1)


def insertion():
    """lemma: a line inserted into the list leaves the selected lines listed and in order"""
    t0 = time.time()
    nd, ix, n2, i2 = [z3.Array(x, IntS, IntS) for x in ('node', 'idx', 'node1', 'idx1')]
    N, A, w = z3.Ints('N after new')
    sel = z3.Const('sel', SetS)
    i, x, y = z3.Ints('i x y')
    hyp = [0 <= A, A <= N, z3.ForAll([x], z3.Implies(sel[x], z3.And(1 <= ix[x], ix[x] <= N, nd[ix[x]] == x))),
           z3.Not(sel[w]),
           z3.ForAll([i], n2[i] == z3.If(i <= A, nd[i], z3.If(i == A + 1, w, nd[i - 1]))),
           z3.ForAll([x], i2[x] == z3.If(x == w, A + 1, z3.If(ix[x] > A, ix[x] + 1, ix[x])))]
    a, b = z3.Ints('a b')
    hyp.append(z3.Implies(z3.And(sel[a], sel[b], RANK[a] < RANK[b]), ix[a] < ix[b]))
    goals = [('an inserted line leaves the selected lines listed', z3.Implies(sel[a], z3.And(1 <= i2[a], i2[a] <= N + 1, n2[i2[a]] == a))),
             ('an inserted line leaves the order of the selected lines', z3.Implies(z3.And(sel[a], sel[b], RANK[a] < RANK[b]), i2[a] < i2[b])),
             ('lemma hypotheses are consistent', None)]
    out = []
    for nm, g in goals:
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp)
        if g is not None:
            s.add(z3.Not(g))
            r = s.check() == z3.unsat
        else:
            r = s.check() != z3.unsat
        out.append(dict(func='append_line_node', name=nm, line=0, kind='lemma', time=time.time() - t0, backend='z3',
                        status='discharged' if r else 'unknown', trace=[]))
    return dict(obligations=out, vacuity='sat', nret=1)


ASSUMPTIONS = ['append_line_node inserts a fresh line after the given one (proved under C01)',
               'E within a global command ends the global command: the remaining commands of the list run as ordinary ones']


def tasks(prog):
    from run import Task, PyTask
    qv, sv, mv = QueueView(prog), SelView(prog), MarkLines(prog)
    out = [Task(qv, 'delete_global_nodes', 200, 'range'), Task(qv, 'delete_global_nodes', 200, 'all')]
    out += [Task(qv, f, 100) for f in ('append_global_node', 'next_global_node', 'reset_global_queue')]
    out += [Task(sv, f, 200) for f in ('delete_lines', 'move_lines')]
    out += [Task(mv, 'mark_global_nodes', 200)]
    cv = CmdGlob(prog)
    out = [Task(GlobView(prog), 'exec_global', 250)] + out
    out += [Task(cv, f, 150) for f in ('global_cmd', 'undo_last_command')] + [Task(CoarseGlob(prog), 'main', 150)]
    return [t for t in out if t.func in prog.funcs] + [PyTask('frames', lambda: frames(prog)), PyTask('insertion', insertion)]
