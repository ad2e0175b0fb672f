"""Undo machinery: what undo does with each recorded entry, and what resetting the record frees.

The undo queue is the ghost ring useq[0..n] (useq[0] its head).  undo_last_command must visit the entries from the last to
the first, apply to each exactly the inverse that the editing primitives prove restores the list (ListView.inverse), turn the
entry into its opposite, and leave the queue in reverse order, so that the next undo visits them in the opposite order.
The opposite of an undone entry restores the changed list again (redo lemmas, proved for all link maps)."""
from checks.listview import *

UNODE = ('ptr', ('rec', 'ed_undo_node'))
UN = z3.Int('undo_n')
USEQ = z3.Array('useq', IntS, IntS)
UIDX = z3.Array('uidx', IntS, IntS)
UMEM = z3.Array('umem', IntS, z3.BoolSort())   # nodes of the queue
UPOS = z3.Array('upos', IntS, IntS)              # 1..n, the head counting as position n + 1
USUC = z3.Array('usuc', IntS, IntS)
OWN = z3.Array('owner', IntS, IntS)      # undo entry whose deleted segment a line belongs to (0: none)
kk = z3.Int('k!any')
UKEYS = (UF, UB, UH_, UT_, UTY)


def uwf(s, lo=0):
    f, b, ty = s.a(UF), s.a(UB), s.a(UTY)
    i = i_
    inr = z3.And(lo <= i, i <= UN)
    return [
        ('entries follow each other', FA([i], z3.Implies(z3.And(lo <= i, i < UN), f[USEQ[i]] == USEQ[i + 1]), [f[USEQ[i]]])),
        ('the last entry leads to the head', f[USEQ[UN]] == UHEAD),
        ('the head leads back to the last entry', b[UHEAD] == USEQ[UN]),
        ('entries link back', FA([i], z3.Implies(z3.And(lo < i, i <= UN), b[USEQ[i]] == USEQ[i - 1]), [b[USEQ[i]]])),
    ]


def ustatic():
    i = i_
    return [UN >= 0, USEQ[0] == UHEAD, UHEAD > 0,
            FA([i], z3.Implies(z3.And(0 <= i, i <= UN), z3.And(UIDX[USEQ[i]] == i, USEQ[i] > 0)), [USEQ[i]])]


class UndoView(BView):
    """undo_last_command, reset_undo_queue"""
    merge_limit = 10
    watch = False
    arith_xor = True
    inv_timeout = 3000
    no_houdini = ('undo_last_command', 'reset_undo_queue')
    qkeys = frozenset([F, B, UF, UB, UH_, UT_, UTY])
    coarse = None

    def __init__(self, prog):
        super().__init__(prog)
        self.cache = statics_of(prog, 'get_line_node')
        self.cp = [k for k, t in self.cache if t == LNODE]
        self.cn = [k for k, t in self.cache if t[0] == 'int']
        self.cache_ok = len(self.cp) == 1 and len(self.cn) == 1
        V = self
        C = self.contracts

        def pre(c):
            # assumed: the shape of the queue (established by append_undo_node, whose contract is proved with C01)
            return []

        def undo_ens(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            ok = tz(c.ret) >= 0
            f0, f1, b0, b1 = a.a(UF), b.a(UF), a.a(UB), b.a(UB)
            inr = z3.And(0 <= kk, kk <= UN)
            e = USEQ[kk]
            out = [('the record is reversed (next)', z3.Implies(z3.And(ok, inr), f1[e] == b0[e])),
                   ('the record is reversed (previous)', z3.Implies(z3.And(ok, inr), b1[e] == f0[e])),
                   ('every recorded line is kept', z3.And(a.a(UH_) == b.a(UH_), a.a(UT_) == b.a(UT_))),
                   ('nothing to undo: the list and the record are left alone', z3.Implies(z3.Not(ok), z3.And(
                       *[a.a(k) == b.a(k) for k in (F, B, UF, UB, UTY)])))]
            if V.cache_ok:
                p = tz(c.ex.rd(c.post_st, V.cp[0], 0))
                n = tz(c.ex.rd(c.post_st, V.cn[0], 0))
                out.append(('the lookup cache denotes no line that undo may have moved', z3.Implies(ok, z3.Or(
                    z3.And(p == 0, n == 0), z3.And(p == HEAD, n == 0)))))
            return out
        C['undo_last_command'] = Contract('undo_last_command', requires=pre, ensures=undo_ens)

        def rst_ens(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            return [('the record is empty', z3.And(b.a(UF)[UHEAD] == UHEAD, b.a(UB)[UHEAD] == UHEAD)),
                    ('the list is not relinked', z3.And(a.a(F) == b.a(F), a.a(B) == b.a(B)))]
        C['reset_undo_queue'] = Contract('reset_undo_queue', requires=pre, ensures=rst_ens)
        C['get_line_node'] = Contract('get_line_node', assigns=lambda c: [(k, 0) for k, t in V.cache],
                                      ensures=lambda c: V.gln(c))
        for f in ('spl0', 'spl1', 'reset_global_queue', 'unmark_line_node', 'delete_global_nodes'):
            C[f] = Contract(f)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def gln(self, c):
        """asked for position 0, the lookup answers the head and remembers it (contract proved with C01)"""
        if not self.cache_ok:
            return []
        z = tz(c.args[0].i()) == 0
        return [('ghost', z3.Implies(z, z3.And(tz(c.ex.rd(c.post_st, self.cp[0], 0)) == HEAD,
                                               tz(c.ex.rd(c.post_st, self.cn[0], 0)) == 0, c.ret == HEAD)))]

    def init_state(self, ex, st):
        super().init_state(ex, st)
        ex.wr(st, 'ed_core.line_head', z3.Int('ed_core'), HEAD)
        ex.wr(st, 'ed_core.undo_head', z3.Int('ed_core'), UHEAD)
        st.assume(HEAD > 0)
        s = St(ex, st)
        E = self.enums
        i, x = i_, x_
        ty, f, h, t = s.a(UTY), s.a(F), s.a(UH_), s.a(UT_)
        if ex.cur == 'reset_undo_queue':
            st.assume(UHEAD > 0)
            st.assume(UN >= 0)
            st.assume(UMEM[UHEAD])
            st.assume(z3.Not(UMEM[0]))
            st.assume(UPOS[UHEAD] == UN + 1)
            g = z3.And(UMEM[x], x != UHEAD)
            st.assume(FA([x], z3.Implies(g, z3.And(UPOS[x] >= 1, UPOS[x] <= UN, UMEM[USUC[x]], UPOS[USUC[x]] == UPOS[x] + 1,
                                                   USUC[x] > 0)), [USUC[x]]))
            first = s.a(UF)[UHEAD]
            st.assume(z3.And(UMEM[first], UPOS[first] == 1, s.a(UB)[first] == UHEAD))
            for q in self.rest(s, 1):
                st.assume(q)
            st.assume(FA([x], z3.Implies(z3.And(UMEM[x], UPOS[x] == UN + 1), x == UHEAD), [UPOS[x]]))
        else:
            for f_ in ustatic():
                st.assume(f_)
            for nm, f_ in uwf(s):
                st.assume(f_)
            kinds = z3.Or(*[ty[USEQ[i]] == E[k] for k in ('UADD', 'UDEL', 'UMOV', 'URET')])
            st.assume(FA([i], z3.Implies(z3.And(1 <= i, i <= UN), kinds), [ty[USEQ[i]]]))
        # a deleted segment: its lines belong to its entry and to no other, and to the list no more
        st.assume(FA([x], z3.Implies(z3.And(UMEM[x], x != UHEAD, ty[x] == E['UDEL']), z3.And(
            OWN[h[x]] == x, OWN[t[x]] == x, OWN[f[t[x]]] != x)), [ty[x]]))
        st.assume(FA([x], z3.Implies(z3.And(OWN[x] != 0, x != t[OWN[x]]), OWN[f[x]] == OWN[x]), [OWN[f[x]]]))
        st.assume(OWN[HEAD] == 0)
        ex.assumptions.add('the undo queue is a ring of distinct entries of known kinds; the lines of a deleted segment belong to one '
                           'entry (established entry by entry by append_undo_node, delete_lines and undo itself)')

    def unodes(self, ex, st, inner=None):
        return [i for i, v in st.vars.items() if ex.lty(st, i) == UNODE]

    def on_free(self, ex, st, p, tag, n):
        if tag == 'ed_line_node':
            ex.oblige(st, 'only lines of a deleted segment are freed', OWN[tz(p)] != 0, n.get('ln', 0), 'mem')

    def loop_cands(self, ex, entry, head, locs, keys, n):
        ks = {k for k, p in keys}
        out = []
        e0, p0 = St(ex, entry), St(ex, ex.pre)
        us = [i for i in self.unodes(ex, entry)]
        V = lambda s, i: tz(ex.lrd(s, i))
        ringlinks = {UF, UB} & ks
        if ringlinks and ex.cur == 'undo_last_command':
            # reversal in progress: entries before the current one are reversed
            f0, b0 = p0.a(UF), p0.a(UB)
            for u in us:
                i = i_

                def rev(s, u=u):
                    f1, b1 = St(ex, s).a(UF), St(ex, s).a(UB)
                    m = UIDX[V(s, u)]
                    return z3.And(0 <= m, m <= UN, USEQ[m] == V(s, u), FA([i], z3.Implies(z3.And(0 <= i, i <= UN), z3.And(
                        f1[USEQ[i]] == z3.If(i < m, b0[USEQ[i]], f0[USEQ[i]]), b1[USEQ[i]] == z3.If(i < m, f0[USEQ[i]], b0[USEQ[i]]))),
                        [USEQ[i]]))
                out.append(('entries before %s are reversed' % short(u), rev))

                def revd(s, u=u):
                    # the reversal is complete once the head is reached again
                    f1, b1 = St(ex, s).a(UF), St(ex, s).a(UB)
                    m = UIDX[V(s, u)]
                    d = z3.Or(m > 0, z3.And(f1[UHEAD] == b0[UHEAD], b1[UHEAD] == f0[UHEAD]))
                    m2 = z3.If(m == 0, UN + 1, m)
                    return z3.And(0 <= m, m <= UN, USEQ[m] == V(s, u), FA([i], z3.Implies(z3.And(0 <= i, i <= UN), z3.And(
                        f1[USEQ[i]] == z3.If(i < m2, b0[USEQ[i]], f0[USEQ[i]]), b1[USEQ[i]] == z3.If(i < m2, f0[USEQ[i]], b0[USEQ[i]]))),
                        [USEQ[i]]))
                out.append(('all entries but those from %s on are reversed' % short(u), revd))
            out.append(('lines unchanged', lambda s: z3.And(*[St(ex, s).a(k) == e0.a(k) for k in (F, B, UTY)])))
        elif ex.cur == 'undo_last_command':
            for u in us:
                out.append(('%s is an entry' % short(u), lambda s, u=u: z3.And(UIDX[V(s, u)] >= 0, UIDX[V(s, u)] <= UN, USEQ[UIDX[V(s, u)]] == V(s, u))))
            out.append(('kinds', lambda s: FA([i_], z3.Implies(z3.And(1 <= i_, i_ <= UN), z3.Or(
                *[St(ex, s).a(UTY)[USEQ[i_]] == self.enums[k] for k in ('UADD', 'UDEL', 'UMOV', 'URET')])), [St(ex, s).a(UTY)[USEQ[i_]]])))
        if ex.cur == 'reset_undo_queue':
            if ringlinks:
                for u in us:
                    out.append(('%s is an entry' % short(u), lambda s, u=u: z3.And(UMEM[V(s, u)], UPOS[V(s, u)] >= 1)))
                    out.append(('%s is the first entry left' % short(u), lambda s, u=u: z3.And(
                        St(ex, s).a(UF)[UHEAD] == V(s, u), St(ex, s).a(UB)[V(s, u)] == UHEAD)))
                    for j in range(2):
                        out.append(('entries from %s on are linked %d' % (short(u), j), lambda s, u=u, j=j: self.rest(St(ex, s), UPOS[V(s, u)])[j]))
            # lines of a segment
            ls = [i for i, v in entry.vars.items() if ex.lty(entry, i) == LNODE]
            for l in ls:
                for u in us:
                    out.append(('%s belongs to %s or ends it' % (short(l), short(u)), lambda s, l=l, u=u: z3.Or(
                        OWN[V(s, l)] == V(s, u), V(s, l) == St(ex, s).a(F)[St(ex, s).a(UT_)[V(s, u)]])))
        return out

    def rest(self, s, m):
        """the entries at position m and later are still linked, and the head closes the ring"""
        f, b = s.a(UF), s.a(UB)
        x = x_
        g = z3.And(UMEM[x], x != UHEAD, UPOS[x] >= m)
        return [FA([x], z3.Implies(g, f[x] == USUC[x]), [f[x]]),
                FA([x], z3.Implies(g, b[USUC[x]] == x), [USUC[x]])]

    inverse = ListView.inverse
    link = ListView.link

    def loop_step(self, ex, entry, h, backs, outs, locs, keys, n):
        ks = {k for k, p in keys}
        if ex.cur != 'undo_last_command' or not ({F, B} & ks):
            return
        E = self.enums
        line = n_line(n) if isinstance(n, dict) else 0
        V = lambda s, i: tz(ex.lrd(s, i))
        s0 = St(ex, h)
        f0, b0, H, T, ty, ub = s0.a(F), s0.a(B), s0.a(UH_), s0.a(UT_), s0.a(UTY), s0.a(UB)
        x = z3.Int('x!any')

        def step(u, s):
            e = ub[V(h, u)]
            e1 = ub[e]
            s1 = St(ex, s)
            f1, b1, ty1 = s1.a(F), s1.a(B), s1.a(UTY)
            out = []
            mv = z3.Or(ty[e] == E['UMOV'], ty[e] == E['URET'])
            for k, g in (('UADD', ty[e] == E['UADD']), ('UDEL', ty[e] == E['UDEL']), ('UMOV', mv)):
                fi, bi = self.inverse(k, f0, b0, *((H[e1], T[e1], H[e], T[e]) if k == 'UMOV' else (H[e], T[e])))
                what = {'UADD': 'added lines are unlinked', 'UDEL': 'deleted lines are linked in again', 'UMOV': 'moved lines are put back'}[k]
                out.append((what + ' (next)', z3.Implies(z3.And(g), f1[x] == fi[x])))
                out.append((what + ' (previous)', z3.Implies(z3.And(g), b1[x] == bi[x])))
                v = z3.If(mv, e1, e)
                nk = {'UADD': ty1[v] == E['UDEL'], 'UDEL': ty1[v] == E['UADD'], 'UMOV': z3.Or(ty1[e1] == E['UMOV'], ty1[e1] == E['URET'])}[k]
                gg = z3.And(g, mv_ok(e, e1))
                out.append(('the entry becomes its opposite', z3.Implies(gg, nk)))
                out.append(('the next entry is the one recorded before', z3.Implies(g, V(s, u) == v)))
                out.append(('other entries keep their kind', z3.Implies(z3.And(g, x != v), ty1[x] == ty[x])))
            return out

        def mv_ok(e, e1):
            """moves are recorded in pairs (proved for move_lines with C01)"""
            mv = z3.Or(ty[e] == E['UMOV'], ty[e] == E['URET'])
            return z3.Implies(mv, z3.Or(ty[e1] == E['UMOV'], ty[e1] == E['URET']))
        us = self.unodes(ex, entry)
        best = None
        for u in us:
            ok = all(ex.prove_now(s, f) for s in backs for nm, f in step(u, s)[-1:])
            start = ex.prove_now(entry, V(entry, u) == UHEAD)
            if start:
                best = u
                break
        if best is None:
            ex.oblige(entry, 'undo starts with the entry recorded last', FL_, line)
            return
        ex.oblige(entry, 'undo starts with the entry recorded last', V(entry, best) == UHEAD, line)
        for s in backs:
            for nm, f in step(best, s):
                ex.oblige(s, nm, f, line)
        for o in outs:
            if o.kind in ('normal', 'break'):
                ex.oblige(o.st, 'undo ends only once every entry was visited', z3.And(
                    ub[V(h, best)] == UHEAD), line)


FL_ = z3.BoolVal(False)


def redo_lemmas():
    """pure facts about link maps: the opposite of an undone entry restores the maps it was undone from"""
    from run import PyTask

    class V:
        link = ListView.link
    inv = lambda *a: ListView.inverse(V(), *a)
    f, b = z3.Array('f', IntS, IntS), z3.Array('b', IntS, IntS)
    h, t, h2, t2, x = z3.Ints('h t h2 t2 x')
    out = []

    def lemma(name, hyp, kind1, kind2, mv=False):
        if not mv:
            fi, bi = inv(kind1, f, b, h, t)
            fj, bj = inv(kind2, fi, bi, h, t)
        else:
            fi, bi = inv('UMOV', f, b, h, t, h2, t2)
            fj, bj = inv('UMOV', fi, bi, h2, t2, h, t)
        s = z3.SimpleSolver()
        s.set('timeout', 20000)
        s.add(*hyp)
        if s.check() == z3.unsat:
            return dict(func='lemma', name=name + ' (hypotheses are contradictory)', line=0, kind='lemma', time=0.0, backend='z3',
                        status='refuted', trace=[])
        s.add(z3.Or(fj[x] != f[x], bj[x] != b[x]))
        import time
        t0 = time.time()
        r = s.check()
        return dict(func='lemma', name=name, line=0, kind='lemma', time=time.time() - t0, backend='z3',
                    status='discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', trace=[])

    def run(*_):
        obs = [lemma('undoing, then redoing added lines restores the links', [f[b[h]] == h, b[f[t]] == t], 'UADD', 'UDEL'),
               lemma('undoing, then redoing deleted lines restores the links', [
                   f[b[h]] == f[t], b[f[t]] == b[h], b[h] != t, f[t] != h], 'UDEL', 'UADD')]
        # a move: the entries record the neighbours (h, t) the range had and the neighbours (h2, t2) it got
        p, q = f[h2], b[t2]
        hyp = [f[h] == t, b[t] == h, b[p] == h2, f[q] == t2, h != h2, t != t2]
        hyp += [u != v for u in (h, t, h2, t2) for v in (p, q)]
        obs.append(lemma('undoing, then redoing moved lines restores the links', hyp, None, None, True))
        return dict(obligations=obs, vacuity='sat', nret=1)
    return run


def undo_tasks(prog):
    from run import Task, PyTask
    v = UndoView(prog)
    return [Task(v, f, 150) for f in ('undo_last_command', 'reset_undo_queue') if f in prog.funcs] + [PyTask('redo', redo_lemmas(), 60)]
