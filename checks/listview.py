"""The line list: ghost sequence node[0..N], its inverse idx, lookup-cache coherence, and the
contracts of the editing primitives over it (C01) and of the undo entries they record (C02)."""
from checks.common import *

F, B = 'ed_line_node.q_forw', 'ed_line_node.q_back'
LEN, SEEK = 'ed_line_node.len', 'ed_line_node.seek'
UF, UB, UH_, UT_, UTY = ('ed_undo_node.q_forw', 'ed_undo_node.q_back', 'ed_undo_node.h', 'ed_undo_node.t',
                         'ed_undo_node.type')
ALN, AUN = '@alive:ed_line_node', '@alive:ed_undo_node'
HEAD = z3.Int('line_head')
UHEAD = z3.Int('undo_head')
LINES = 'ed.state.lines'
i_ = z3.Int('i')
x_ = z3.Int('x')


def FA(vs, body, pats):
    if body is True:
        return True
    return z3.ForAll(vs, body, patterns=pats)


def N_of(v):
    return v.p(LINES)


class St:
    """what a contract talks about, read off a state"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def a(self, key):
        return self.ex.mem(self.st, key).z()

    @property
    def N(self):
        return tz(self.ex.path_read(self.st, LINES))

    @property
    def node(self):
        return self.st.gh['node']

    @property
    def idx(self):
        return self.st.gh['idx']


def wf(ex, st):
    """the list is exactly the sequence node[0..N]"""
    s = St(ex, st)
    f, b, al = s.a(F), s.a(B), s.a(ALN)
    n, N, ix = s.node, s.N, s.idx
    i = i_
    return [
        ('line count is not negative', N >= 0),
        ('the head is position 0', n[0] == HEAD),
        ('forward links follow the sequence',
         FA([i], z3.Implies(z3.And(0 <= i, i < N), f[n[i]] == n[i + 1]), [f[n[i]]])),
        ('the last line links to the head', f[n[N]] == HEAD),
        ('backward links follow the sequence',
         FA([i], z3.Implies(z3.And(1 <= i, i <= N), b[n[i]] == n[i - 1]), [b[n[i]]])),
        ('the head links back to the last line', b[HEAD] == n[N]),
        ('lines are pairwise distinct',
         FA([i], z3.Implies(z3.And(0 <= i, i <= N), ix[n[i]] == i), [n[i]])),
        ('lines are live allocations',
         FA([i], z3.Implies(z3.And(0 <= i, i <= N), z3.And(al[n[i]] == 1, n[i] > 0)), [n[i]])),
    ]


def goals(ex, st, facts):
    """skolemised versions of universally quantified goals are left to the solver"""
    return facts


def statics_of(prog, fname):
    out = []
    fn = prog.funcs.get(fname)
    if fn is None:
        return out

    def w(n):
        if n.get('kind') == 'VarDecl' and n.get('storageClass') == 'static':
            out.append(('@%s.%s' % (fname, n['name']), prog.ptype(n)))
        for c in n.get('inner', []):
            if c:
                w(c)
    w(fn.body)
    return out


LNODE = ('ptr', ('rec', 'ed_line_node'))


class ListView(BView):
    track_alive = ('ed_line_node', 'ed_undo_node')
    merge_limit = 8
    inv_timeout = 3000
    inv_rlimit = 1000000
    max_acc = 8
    with_undo = True
    watch = False
    qkeys = frozenset([F, B, LEN, SEEK, UF, UB, UH_, UT_, UTY, ALN, AUN])

    def __init__(self, prog):
        super().__init__(prog)
        self.ghost_deps = {'node': [F, B, LINES, 'ed_state.lines'], 'idx': [F, B, 'ed_state.lines']}
        self.cache = statics_of(prog, 'get_line_node')
        self.cp = [k for k, t in self.cache if t == LNODE]
        self.cn = [k for k, t in self.cache if t[0] == 'int']
        self.cache_ok = len(self.cp) == 1 and len(self.cn) == 1
        self.list_contracts(prog)
        self.contracts = {k: v for k, v in self.contracts.items() if k in prog.funcs}

    # ---- state
    def init_state(self, ex, st):
        super().init_state(ex, st)
        ex.wr(st, 'ed_core.line_head', z3.Int('ed_core'), HEAD)
        ex.wr(st, 'ed_core.undo_head', z3.Int('ed_core'), UHEAD)
        st.assume(And(HEAD > 0, UHEAD > 0))
        st.gh['node'] = z3.Array('node', IntS, IntS)
        st.gh['idx'] = z3.Array('idx', IntS, IntS)
        st.gh['ufail'] = z3.Bool('ufail')
        if self.cache_ok:
            ex.rd(st, self.cp[0], 0)

    def coherent(self, ex, st, below=None):
        """the lookup cache denotes a line of the list"""
        if not self.cache_ok:
            return []
        p = tz(ex.rd(st, self.cp[0], 0))
        n = tz(ex.rd(st, self.cn[0], 0))
        s = St(ex, st)
        out = [('the lookup cache denotes a line of the buffer',
                z3.Or(z3.And(p == 0, n == 0), z3.And(0 <= n, n <= s.N, p == s.node[n])))]
        return out

    def inv(self, ex, st):
        return wf(ex, st) + self.coherent(ex, st)

    def basic(self, c):
        return [(n, f) for n, f in self.inv(c.ex, c.pre_st)]

    def after_inv(self, c):
        return [(n, f) for n, f in self.inv(c.ex, c.post_st)]

    def same_list(self, c):
        """node, idx, N unchanged (ghost and links)"""
        e, pre, post = c.ex, c.pre_st, c.post_st
        a, b = St(e, pre), St(e, post)
        if c.mode == 'call':
            return [('list unchanged', z3.And(b.node == a.node, b.idx == a.idx))]
        return []

    # ---- ghost updates
    def ghost_insert(self, c, at, new):
        """node' = node with `new` inserted at position at (1..N+1)"""
        e = c.ex
        a, b = St(e, c.pre_st), c.post_st
        n1, x1 = fresh_arr('node'), fresh_arr('idx')
        b.gh['node'], b.gh['idx'] = n1, x1
        return self.def_insert(a, n1, x1, at, new)

    def def_insert(self, a, n1, x1, at, new):
        i, x = i_, x_
        return [FA([i], n1[i] == z3.If(i < at, a.node[i], z3.If(i == at, new, a.node[i - 1])), [n1[i]]),
                FA([x], x1[x] == z3.If(x == new, tz(at), z3.If(a.idx[x] < at, a.idx[x], a.idx[x] + 1)), [x1[x]])]

    def def_delete(self, a, n1, x1, frm, to):
        i, x = i_, x_
        k = to - frm + 1
        return [FA([i], n1[i] == z3.If(i < frm, a.node[i], a.node[i + k]), [n1[i]]),
                FA([x], x1[x] == z3.If(a.idx[x] < frm, a.idx[x], a.idx[x] - k), [x1[x]])]

    def def_move(self, a, n1, x1, frm, to, aft):
        i, x = i_, x_
        k = to - frm + 1
        # aft > to : block [to+1..aft] shifts down, range lands at aft-k+1..aft
        dn = z3.If(z3.Or(i < frm, i > aft), a.node[i], z3.If(i <= aft - k, a.node[i + k], a.node[i - (aft - to)]))
        up = z3.If(z3.Or(i <= aft, i > to), a.node[i], z3.If(i <= aft + k, a.node[i - aft - 1 + frm], a.node[i - k]))
        j = a.idx[x]
        dnx = z3.If(z3.Or(j < frm, j > aft), j, z3.If(j <= to, j + (aft - to), j - k))
        upx = z3.If(z3.Or(j <= aft, j > to), j, z3.If(j >= frm, j - frm + aft + 1, j + k))
        return [FA([i], n1[i] == z3.If(aft > to, dn, up), [n1[i]]),
                FA([x], x1[x] == z3.If(aft > to, dnx, upx), [x1[x]])]

    # ---- contracts
    def list_contracts(self, prog):
        C = self.contracts
        V = self

        # get_line_node ------------------------------------------------
        def gln_frame(c):
            return [(k, 0) for k, t in V.cache]

        def gln_min(c):
            n = tz(c.args[0].i())
            N = tz(c.pre.p(LINES))
            return z3.If(n <= N, n, N)

        def gln_ens(c):
            r = gln_min(c)
            if c.mode == 'call' and c.ex.prove_now(c.pre_st, tz(c.args[0].i()) <= tz(c.pre.p(LINES)), quant=False):
                r = tz(c.args[0].i())
            return [('the result is the line at that position (one past the end: the last line)', c.ret == St(c.ex, c.pre_st).node[r])] + \
                V.coherent(c.ex, c.post_st) + V.cache_at(c, r)
        C['get_line_node'] = Contract(
            'get_line_node',
            requires=lambda c: V.basic(c) + [('the position is a line of the buffer (or one past the end)', And(
                cmp('>=', c.args[0].i(), 0), cmp('<=', c.args[0].i(), add(c.pre.p(LINES), 1))))],
            ensures=gln_ens,
            assigns=gln_frame)

        # append_line_node -----------------------------------------------
        def aln_ghost(c):
            at = add(c.args[2].i(), 1)
            ok = c.ret != 0
            e, pre, post = c.ex, c.pre_st, c.post_st
            a = St(e, pre)
            n1, x1 = fresh_arr('node'), fresh_arr('idx')
            post.gh['node'], post.gh['idx'] = n1, x1
            d = V.def_insert(a, n1, x1, at, c.ret)
            return [z3.Implies(ok, z3.And(*d)), z3.Implies(z3.Not(ok), z3.And(n1 == a.node, x1 == a.idx))]

        def aln_ens(c):
            e = c.ex
            a, b = St(e, c.pre_st), St(e, c.post_st)
            ok = tz(c.ret) != 0
            len0, len1, sk0, sk1 = a.a(LEN), b.a(LEN), a.a(SEEK), b.a(SEEK)
            x = x_
            out = []
            if c.mode == 'call':
                out += [('ghost', f) for f in aln_ghost(c)]
            at = tz(c.args[2].i())
            f0, f1, b0, b1 = a.a(F), b.a(F), a.a(B), b.a(B)
            out += [
                ('the line count grows by one on success only', b.N == a.N + z3.If(ok, 1, 0)),
                ('the new line records the given length and position',
                 z3.Implies(ok, z3.And(len1[c.ret] == tz(c.args[0].i()), sk1[c.ret] == tz(c.args[1].i())))),
                ('the new line follows the addressed line', z3.Implies(ok, z3.And(f1[a.node[at]] == c.ret, b1[c.ret] == a.node[at]))),
                ('the new line is fresh', z3.Implies(ok, z3.And(a.a(ALN)[c.ret] != 1, tz(c.ret) > 0))),
                ('lengths of other lines are unchanged', FA([x], z3.Implies(z3.Or(x != c.ret, c.ret == 0), len1[x] == len0[x]), [len1[x]])),
                ('positions of other lines are unchanged', FA([x], z3.Implies(z3.Or(x != c.ret, c.ret == 0), sk1[x] == sk0[x]), [sk1[x]])),
                ('no live line is freed', FA([x], z3.Implies(z3.Or(x != c.ret, c.ret == 0), b.a(ALN)[x] == a.a(ALN)[x]), [b.a(ALN)[x]])),
                ('nothing is linked on failure', z3.Implies(z3.Not(ok), z3.And(f1 == f0, b1 == b0))),
                ('only the neighbours are relinked (forward)',
                 FA([x], z3.Implies(z3.And(x != c.ret, x != a.node[at]), f1[x] == f0[x]), [f1[x]])),
                ('only the neighbours are relinked (backward)',
                 FA([x], z3.Implies(z3.And(x != c.ret, x != f0[a.node[at]]), b1[x] == b0[x]), [b1[x]])),
            ]
            return out + [('undo queue live', b.a(AUN) == a.a(AUN))] + V.after_inv(c)

        C['append_line_node'] = Contract(
            'append_line_node',
            requires=lambda c: V.basic(c) + [('the position is a line of the buffer', And(
                cmp('>=', c.args[2].i(), 0), cmp('<=', c.args[2].i(), c.pre.p(LINES))))],
            ensures=aln_ens, ghost=aln_ghost, ghost_mod=('node', 'idx'),
            assigns=lambda c: [(F, None), (B, None), (LEN, None), (SEEK, None), (ALN, None),
                               ('ed_execute.err', z3.Int('ed_exec')),
                               c.ex.path_cell(c.pre_st, ['ed', 'state', 'is_empty']),
                               c.ex.path_cell(c.pre_st, LINES.split('.'))] + gln_frame(c))

        # append_undo_node -----------------------------------------------
        def aun_ens(c):
            e = c.ex
            a, b = St(e, c.pre_st), St(e, c.post_st)
            ok = tz(c.ret) != 0
            r = tz(c.ret)
            x = x_
            tail = a.a(UB)[UHEAD]
            out = [
                ('a failed record leaves the queue alone',
                 z3.Implies(z3.Not(ok), z3.And(*[a.a(k) == b.a(k) for k in (UF, UB, UH_, UT_, UTY)]))),
                ('ghost: recording failed', c.post_st.gh['ufail'] == z3.Or(c.pre_st.gh['ufail'], r == 0)) if c.mode == 'call' else ('ok', True),
                ('the entry records the operation', z3.Implies(ok, b.a(UTY)[r] == tz(c.args[0].i()))),
                ('the entry records the first line', z3.Implies(ok, b.a(UH_)[r] == a.node[c.args[1].i()])),
                ('the entry records the last line', z3.Implies(ok, b.a(UT_)[r] == a.node[c.args[2].i()])),
                ('the entry is fresh', z3.Implies(ok, z3.And(a.a(AUN)[r] != 1, b.a(AUN)[r] == 1, r > 0))),
                ('the entry is queued last', z3.Implies(ok, z3.And(
                    b.a(UB)[UHEAD] == r, b.a(UF)[r] == UHEAD, b.a(UB)[r] == tail, b.a(UF)[tail] == r))),
            ]
            for k, nm in ((UH_, 'first lines'), (UT_, 'last lines'), (UTY, 'operations')):
                m0, m1 = a.a(k), b.a(k)
                out.append(('%s of other entries are unchanged' % nm, FA([x], z3.Implies(z3.Or(x != r, r == 0), m1[x] == m0[x]), [m1[x]])))
            u0, u1 = a.a(UF), b.a(UF)
            v0, v1 = a.a(UB), b.a(UB)
            out.append(('other entries keep their order (forward)',
                        FA([x], z3.Implies(z3.And(x != r, x != tail), u1[x] == u0[x]), [u1[x]])))
            out.append(('other entries keep their order (backward)',
                        FA([x], z3.Implies(z3.And(x != r, x != UHEAD), v1[x] == v0[x]), [v1[x]])))
            al0, al1 = a.a(AUN), b.a(AUN)
            out.append(('entries stay live', FA([x], z3.Implies(z3.Or(x != r, r == 0), al1[x] == al0[x]), [al1[x]])))
            out.append(('lines stay live', b.a(ALN) == a.a(ALN)))
            return out + V.coherent(e, c.post_st) + V.cache_at2(c)

        C['append_undo_node'] = Contract(
            'append_undo_node',
            ghost_mod=('ufail',),
            requires=lambda c: V.basic(c) + V.uq(c) + [
                ('the kind of entry is known', cmp('>=', c.args[0].i(), 0)),
                ('the first position is a line of the buffer', And(cmp('>=', c.args[1].i(), 0), cmp('<=', c.args[1].i(), c.pre.p(LINES)))),
                ('the last position is a line of the buffer', And(cmp('>=', c.args[2].i(), 0), cmp('<=', c.args[2].i(), c.pre.p(LINES))))],
            ensures=lambda c: aun_ens(c) + V.uq(c, True),
            assigns=lambda c: [(k, None) for k in (UF, UB, UH_, UT_, UTY, AUN)] + V.spl_frame(c) +
            [('ed_execute.err', z3.Int('ed_exec'))] + gln_frame(c))
        C['spl1'] = Contract('spl1', assigns=lambda c: [('@_mutex', 0)])
        C['spl0'] = Contract('spl0', assigns=lambda c: V.spl_frame(c))

        # put_buffer_line -------------------------------------------------
        def pbl_ens(c):
            e = c.ex
            a, b = St(e, c.pre_st), St(e, c.post_st)
            ok = tz(c.ret) != 0
            dot0, dot1 = tz(c.pre.p('ed.state.dot')), tz(c.post.p('ed.state.dot'))
            out = V.ins(e, c.pre_st, c.post_st, dot0)
            out += [('one line is added on success only', b.N == a.N + z3.If(ok, 1, 0)),
                    ('the new line follows the previous current line', z3.Implies(ok, z3.And(b.a(F)[a.node[dot0]] == b.node[dot1], b.node[dot0] == a.node[dot0]))),
                    ('the current line is the new line', dot1 == dot0 + z3.If(ok, 1, 0)),
                    ('the new line has the length of the text without its newline', z3.Implies(z3.And(ok, tz(c.args[1].i()) >= 1), b.a(LEN)[b.node[dot1]] == tz(c.args[1].i()) - 1)),
                    ('the result is the end of the text', z3.Implies(ok, tz(c.ret) == tz(c.args[0].i()) + tz(c.args[1].i()))),
                    ('no undo entry is recorded', z3.And(*[b.a(k) == a.a(k) for k in (UF, UB, UH_, UT_, UTY, AUN)]))]
            return out + V.after_inv(c)

        def pbl_entry(ex, st):
            t, n = z3.Int('arg:t'), z3.Int('arg:len')
            fn = ex.prog.funcs['put_buffer_line']
            t, n = z3.Int('arg:%s' % fn.params[0].get('name')), z3.Int('arg:%s' % fn.params[1].get('name'))
            st.assume(z3.And(t > 0, n >= 1, n < (1 << 47)))
            ex.assumptions.add('the text handed to put_buffer_line is a non-null pointer to 1 <= len < 2^47 bytes')

        C['put_buffer_line'] = Contract(
            'put_buffer_line', entry=pbl_entry, ensures=pbl_ens, ghost_mod=('node', 'idx'),
            requires=lambda c: V.basic(c) + [V.dot_ok(c)],
            assigns=lambda c: [(F, None), (B, None), (LEN, None), (SEEK, None), (ALN, None),
                               ('ed_execute.err', z3.Int('ed_exec')),
                               ('ed_core.offset', z3.Int('ed_core')), ('ed_core.seek_on_write', z3.Int('ed_core')),
                               c.ex.path_cell(c.pre_st, ['ed', 'state', 'is_empty']),
                               c.ex.path_cell(c.pre_st, LINES.split('.')), c.ex.path_cell(c.pre_st, ['ed', 'state', 'dot'])] + gln_frame(c))

        # functions that insert a run of lines -----------------------------
        def run_ens(arg, sets_mod, extra=None):
            def ens(c):
                e = c.ex
                A = tz(c.args[arg].i())
                a, b = St(e, c.pre_st), St(e, c.post_st)
                dot0, dot1 = tz(c.pre.p('ed.state.dot')), tz(c.post.p('ed.state.dot'))
                out = V.ins(e, c.pre_st, c.post_st, A) + V.ins_undo(e, c.pre_st, c.post_st, A)
                if c.mode != 'call':
                    out += V.ins_restore(c, A)
                out += [('the current line is the last line added (or stays)', z3.Or(dot1 == A + b.N - a.N, z3.And(b.N == a.N, dot1 == dot0)))]
                if sets_mod:
                    out += [('the buffer counts as modified when lines were added', z3.Implies(b.N > a.N, tz(c.post.p('ed.state.is_modified')) == 1)),
                            ('an unchanged buffer keeps its status', z3.Implies(b.N == a.N, tz(c.post.p('ed.state.is_modified')) == tz(c.pre.p('ed.state.is_modified'))))]
                if extra:
                    out += extra(c, A)
                return out + V.after_inv(c) + V.uq(c, True)
            return ens

        def run_req(arg):
            return lambda c: V.basic(c) + V.uq(c) + [V.dot_ok(c), (
                'the destination is a line of the buffer', And(cmp('>=', c.args[arg].i(), 0), cmp('<=', c.args[arg].i(), c.pre.p(LINES))))]
        dot_at = lambda c, A: [('the current line is the last line added', tz(c.post.p('ed.state.dot')) == A + St(c.ex, c.post_st).N - St(c.ex, c.pre_st).N)]
        C['append_lines'] = Contract('append_lines', requires=run_req(0), ensures=run_ens(0, True, dot_at), ghost_mod=('node', 'idx', 'ufail'))
        C['read_stream'] = Contract('read_stream', requires=run_req(1), ensures=run_ens(1, False, dot_at), ghost_mod=('node', 'idx', 'ufail'))
        C['read_stream_r'] = Contract('read_stream_r', requires=run_req(1), ensures=run_ens(1, False), ghost_mod=('node', 'idx', 'ufail'))
        C['read_file'] = Contract('read_file', requires=run_req(1), ensures=run_ens(1, False), ghost_mod=('node', 'idx', 'ufail'))
        C['read_pipe'] = Contract('read_pipe', requires=run_req(1), ensures=run_ens(1, False), ghost_mod=('node', 'idx', 'ufail'))
        C['append_from_register'] = Contract('append_from_register', requires=run_req(0), ensures=run_ens(0, False), ghost_mod=('node', 'idx', 'ufail'))

        def copy_extra(c, A):
            k = V.copy_len(c)
            ok = tz(c.ret) >= 0
            return V.copied(c.ex, c.pre_st, c.post_st, A, tz(c.args[0].i())) + [
                ('the whole range is copied', z3.Implies(ok, St(c.ex, c.post_st).N == St(c.ex, c.pre_st).N + k)),
                ('the buffer counts as modified', z3.Implies(ok, tz(c.post.p('ed.state.is_modified')) == 1)),
                ('the current line is the last copy', z3.Implies(ok, tz(c.post.p('ed.state.dot')) == A + k))]
        C['copy_lines'] = Contract('copy_lines', requires=lambda c: run_req(2)(c) + V.rng(c), ensures=run_ens(2, True, copy_extra),
                                   ghost_mod=('node', 'idx', 'ufail'))
        C['delete_lines'] = Contract(
            'delete_lines',
            requires=lambda c: V.basic(c) + V.uq(c) + V.rng(c),
            ghost=V.del_ghost, ghost_mod=('node', 'idx'), ensures=V.del_ens)
        C['move_lines'] = Contract(
            'move_lines',
            requires=lambda c: V.basic(c) + V.uq(c) + V.rng(c) + [
                ('the destination is a line outside the range',
                 And(cmp('>=', c.args[2].i(), 0), cmp('<=', c.args[2].i(), c.pre.p(LINES)),
                     Or(cmp('<', c.args[2].i(), c.args[0].i()), cmp('>=', c.args[2].i(), c.args[1].i()))))],
            ghost=V.move_ghost, ghost_mod=('node', 'idx'), ensures=V.move_ens)
        # delete_global_nodes touches only the queue of a running global command
        C['delete_global_nodes'] = Contract('delete_global_nodes')

    def dot_ok(self, c):
        return ('the current line is a line of the buffer', And(cmp('>=', c.pre.p('ed.state.dot'), 0), cmp('<=', c.pre.p('ed.state.dot'), c.pre.p(LINES))))

    def spl_frame(self, c):
        return [('@_mutex', 0), ('@_sigflags', 0), ('ed_display.ws_row', z3.Int('ed_display')),
                ('ed_display.ws_col', z3.Int('ed_display'))]

    def rng(self, c):
        return [('the range is in the buffer', And(cmp('>=', c.args[0].i(), 1), cmp('<=', c.args[0].i(), c.args[1].i()),
                                                   cmp('<=', c.args[1].i(), c.pre.p(LINES))))]

    def uq(self, c, post=False):
        st = c.post_st if post else c.pre_st
        return [('the undo queue ends at its head', self.uq_st(c.ex, st))]

    def uq_st(self, ex, st):
        s = St(ex, st)
        t = s.a(UB)[UHEAD]
        return z3.And(s.a(UF)[t] == UHEAD, s.a(AUN)[t] == 1, s.a(AUN)[UHEAD] == 1, t > 0)

    runs = True

    base_arg = {'append_lines': 0, 'read_stream': 1, 'read_stream_r': 1, 'read_file': 1, 'read_pipe': 1,
                'append_from_register': 0, 'copy_lines': 2}

    def run_bases(self, ex, pre, all_=False):
        out = []
        fn = ex.prog.funcs[ex.cur]
        ba = self.base_arg.get(ex.cur)
        if ba is not None and not all_ and ba < len(fn.params):
            return [(fn.params[ba].get('name'), z3.Int('arg:%s' % fn.params[ba].get('name')))]
        for p in fn.params:
            if ex.prog.ptype(p) == ('int', 64, True):
                out.append((p.get('name'), z3.Int('arg:%s' % p.get('name'))))
        return out

    def cache_at(self, c, n):
        if not self.cache_ok:
            return []
        return [('the lookup is remembered', And(eq(c.ex.rd(c.post_st, self.cn[0], 0), n),
                                                 eq(c.ex.rd(c.post_st, self.cp[0], 0), c.ret)))]

    def cache_at2(self, c):
        """after recording an entry the cache is unchanged or denotes one of the two positions"""
        if not self.cache_ok:
            return []
        e = c.ex
        p0, n0 = e.rd(c.pre_st, self.cp[0], 0), e.rd(c.pre_st, self.cn[0], 0)
        p1, n1 = e.rd(c.post_st, self.cp[0], 0), e.rd(c.post_st, self.cn[0], 0)
        return []

    def state_kept(self, c, but=()):
        out = []
        for f in ('is_binary', 'is_utf8', 'is_empty', 'newline_missing', 'input_is_binary', 'newline_appended',
                  'is_modified', 'dot', 'lines'):
            if f not in but:
                out.append(('%s is unchanged' % f, cmp('==', c.post.p('ed.state.' + f), c.pre.p('ed.state.' + f))))
        return out

    # delete
    def del_ghost(self, c):
        a = St(c.ex, c.pre_st)
        post = c.post_st
        n1, x1 = fresh_arr('node'), fresh_arr('idx')
        post.gh['node'], post.gh['idx'] = n1, x1
        ok = tz(c.ret) >= 0
        d = self.def_delete(a, n1, x1, tz(c.args[0].i()), tz(c.args[1].i()))
        return [z3.Implies(ok, z3.And(*d)), z3.Implies(z3.Not(ok), z3.And(n1 == a.node, x1 == a.idx))]

    def del_ens(self, c):
        e = c.ex
        a, b = St(e, c.pre_st), St(e, c.post_st)
        ok = tz(c.ret) >= 0
        frm, to = tz(c.args[0].i()), tz(c.args[1].i())
        out = []
        if c.mode == 'call':
            out += [('ghost', f) for f in self.del_ghost(c)]
        up = b.a(UB)[UHEAD]
        out += [
            ('the line count drops by the size of the range', b.N == a.N - z3.If(ok, to - frm + 1, 0)),
            ('the current line precedes the range', z3.Implies(ok, tz(c.post.p('ed.state.dot')) == frm - 1)),
            ('a failed deletion keeps the current line', z3.Implies(z3.Not(ok), tz(c.post.p('ed.state.dot')) == tz(c.pre.p('ed.state.dot')))),
            ('the buffer counts as modified', z3.Implies(ok, tz(c.post.p('ed.state.is_modified')) == 1)),
            ('line texts are unchanged', z3.And(b.a(LEN) == a.a(LEN), b.a(SEEK) == a.a(SEEK))),
            ('lines stay live', b.a(ALN) == a.a(ALN)),
        ]
        out += self.undo_lemma(c, ok, 'UDEL', 1)
        return out + self.after_inv(c) + self.uq(c, True)

    def move_ghost(self, c):
        a = St(c.ex, c.pre_st)
        post = c.post_st
        n1, x1 = fresh_arr('node'), fresh_arr('idx')
        post.gh['node'], post.gh['idx'] = n1, x1
        frm, to, aft = [tz(c.args[k].i()) for k in range(3)]
        ok = z3.And(tz(c.ret) >= 0, aft != to, aft != frm - 1)
        d = self.def_move(a, n1, x1, frm, to, aft)
        return [z3.Implies(ok, z3.And(*d)), z3.Implies(z3.Not(ok), z3.And(n1 == a.node, x1 == a.idx))]

    def move_ens(self, c):
        e = c.ex
        a, b = St(e, c.pre_st), St(e, c.post_st)
        frm, to, aft = [tz(c.args[k].i()) for k in range(3)]
        ok = tz(c.ret) >= 0
        out = []
        if c.mode == 'call':
            out += [('ghost', f) for f in self.move_ghost(c)]
        out += [
            ('the line count is unchanged', b.N == a.N),
            ('the current line is the last line moved',
             z3.Implies(ok, tz(c.post.p('ed.state.dot')) == z3.If(aft >= to, aft, z3.If(aft == frm - 1, to, aft + to - frm + 1)))),
            ('a failed move keeps the current line', z3.Implies(z3.Not(ok), tz(c.post.p('ed.state.dot')) == tz(c.pre.p('ed.state.dot')))),
            ('the buffer counts as modified', z3.Implies(ok, tz(c.post.p('ed.state.is_modified')) == 1)),
            ('line texts are unchanged', z3.And(b.a(LEN) == a.a(LEN), b.a(SEEK) == a.a(SEEK))),
            ('lines stay live', b.a(ALN) == a.a(ALN)),
        ]
        out += self.undo_lemma(c, z3.And(ok, aft != to, aft != frm - 1), 'UMOV', 2)
        out += [('a no-op move records nothing and relinks nothing', z3.Implies(z3.And(ok, z3.Or(aft == to, aft == frm - 1)), z3.And(
            *[b.a(k) == a.a(k) for k in (F, B, UF, UB, UH_, UT_, UTY)])))]
        return out + self.after_inv(c) + self.uq(c, True)

    # undo of one recorded operation restores every link
    def link(self, f, b, p, n):
        return z3.Store(f, p, n), z3.Store(b, n, p)

    def inverse(self, kind, f, b, e1h, e1t, e2h=None, e2t=None):
        """what undo does for one entry (UMOV: the pair e1, e2)"""
        if kind == 'UADD':
            return self.link(f, b, b[e1h], f[e1t])
        if kind == 'UDEL':
            p = b[e1h]
            f, b = self.link(f, b, p, e1h)
            return self.link(f, b, e1t, f[e1t])
        # UMOV / URET: e2 is the entry recorded last
        f, b = self.link(f, b, e1h, f[e2h])
        f, b = self.link(f, b, b[e2t], e1t)
        return self.link(f, b, e2h, e2t)

    def undo_lemma(self, c, ok, kind, n):
        if not self.with_undo:
            return []
        e = c.ex
        a, b = St(e, c.pre_st), St(e, c.post_st)
        val = self.enums[kind]
        e2 = b.a(UB)[UHEAD]
        e1 = b.a(UB)[e2]
        tail0 = a.a(UB)[UHEAD]
        h, t, ty = b.a(UH_), b.a(UT_), b.a(UTY)
        f0, f1, b0, b1 = a.a(F), b.a(F), a.a(B), b.a(B)
        out = []
        x = z3.Int('x!any')
        if n == 1:
            fi, bi = self.inverse(kind, f1, b1, h[e2], t[e2])
            out.append(('one undo entry of the right kind is recorded', z3.Implies(ok, z3.And(ty[e2] == val, b.a(UB)[e2] == tail0, a.a(AUN)[e2] != 1))))
        else:
            fi, bi = self.inverse(kind, f1, b1, h[e1], t[e1], h[e2], t[e2])
            out.append(('a pair of undo entries of the right kind is recorded', z3.Implies(ok, z3.And(
                ty[e2] == val, ty[e1] == val, b.a(UB)[e1] == tail0, e1 != e2, a.a(AUN)[e1] != 1, a.a(AUN)[e2] != 1))))
        if c.mode != 'call':
            out.append(('undoing the recorded entry restores every forward link', z3.Implies(ok, fi[x] == f0[x])))
            out.append(('undoing the recorded entry restores every backward link', z3.Implies(ok, bi[x] == b0[x])))
        xx = x_
        for k in (UH_, UT_, UTY):
            m0, m1 = a.a(k), b.a(k)
            out.append(('earlier undo entries are unchanged (%s)' % k.split('.')[1],
                        FA([xx], z3.Implies(a.a(AUN)[xx] == 1, m1[xx] == m0[xx]), [m1[xx]])))
        u0, u1 = a.a(UB), b.a(UB)
        out.append(('earlier undo entries keep their order', FA([xx], z3.Implies(z3.And(a.a(AUN)[xx] == 1, xx != UHEAD), u1[xx] == u0[xx]), [u1[xx]])))
        return out

    # ---- insertion of a run of lines after position A
    def ins(self, ex, pre, st, A):
        a, b = St(ex, pre), St(ex, st)
        i, x = i_, x_
        d = b.N - a.N
        f0, f1, b0, b1 = a.a(F), b.a(F), a.a(B), b.a(B)
        l0, l1, s0, s1 = a.a(LEN), b.a(LEN), a.a(SEEK), b.a(SEEK)
        al0, al1 = a.a(ALN), b.a(ALN)
        nxt = f0[a.node[A]]
        return [
            ('lines are only added', d >= 0),
            ('lines up to the insertion point are unchanged', FA([i], z3.Implies(z3.And(0 <= i, i <= A), b.node[i] == a.node[i]), [b.node[i]])),
            ('lines after the insertion point keep their order', FA([i], z3.Implies(z3.And(i > A + d, i <= b.N), b.node[i] == a.node[i - d]), [b.node[i]])),
            ('inserted lines are fresh', FA([i], z3.Implies(z3.And(i > A, i <= A + d), al0[b.node[i]] != 1), [b.node[i]])),
            ('no other line is relinked (forward)', FA([x], z3.Implies(z3.And(al0[x] == 1, x != a.node[A]), f1[x] == f0[x]), [f1[x]])),
            ('no other line is relinked (backward)', FA([x], z3.Implies(z3.And(al0[x] == 1, x != nxt), b1[x] == b0[x]), [b1[x]])),
            ('existing lines keep their length', FA([x], z3.Implies(al0[x] == 1, l1[x] == l0[x]), [l1[x]])),
            ('existing lines keep their position in the scratch file', FA([x], z3.Implies(al0[x] == 1, s1[x] == s0[x]), [s1[x]])),
            ('existing lines stay live', FA([x], z3.Implies(al0[x] == 1, al1[x] == 1), [al1[x]])),
        ]

    def ins_undo(self, ex, pre, st, A):
        """the undo queue holds one more entry, of kind UADD, for exactly the inserted run (or none was inserted)"""
        a, b = St(ex, pre), St(ex, st)
        x = x_
        d = b.N - a.N
        uf = st.gh['ufail']
        e = b.a(UB)[UHEAD]
        h, t, ty, ub = b.a(UH_), b.a(UT_), b.a(UTY), b.a(UB)
        tail0 = a.a(UB)[UHEAD]
        un0 = a.a(AUN)
        rec = z3.And(ty[e] == self.enums['UADD'], h[e] == b.node[A + 1], t[e] == b.node[A + d], ub[e] == tail0, un0[e] != 1)
        out = [('an undo entry covers exactly the inserted lines', z3.Implies(z3.Not(uf), z3.And(
            z3.Implies(d == 0, e == tail0), z3.Implies(d > 0, rec))))]
        for k in (UH_, UT_, UTY):
            m0, m1 = a.a(k), b.a(k)
            out.append(('earlier undo entries are unchanged (%s)' % k.split('.')[1],
                        FA([x], z3.Implies(un0[x] == 1, m1[x] == m0[x]), [m1[x]])))
        u0, u1 = a.a(UB), b.a(UB)
        out.append(('earlier undo entries keep their order', FA([x], z3.Implies(z3.And(un0[x] == 1, x != UHEAD), u1[x] == u0[x]), [u1[x]])))
        an1 = b.a(AUN)
        out.append(('undo entries stay live', FA([x], z3.Implies(un0[x] == 1, an1[x] == 1), [an1[x]])))
        return out

    def ins_restore(self, c, A):
        """undoing the recorded entry restores every link of every line that existed before"""
        e = c.ex
        a, b = St(e, c.pre_st), St(e, c.post_st)
        en = b.a(UB)[UHEAD]
        f0, f1, b0, b1 = a.a(F), b.a(F), a.a(B), b.a(B)
        fi, bi = self.inverse('UADD', f1, b1, b.a(UH_)[en], b.a(UT_)[en])
        d = b.N - a.N
        x = z3.Int('x!any')
        g = z3.And(z3.Not(c.post_st.gh['ufail']), d > 0, a.a(ALN)[x] == 1)
        return [('undoing the recorded entry restores every forward link', z3.Implies(g, fi[x] == f0[x])),
                ('undoing the recorded entry restores every backward link', z3.Implies(g, bi[x] == b0[x]))]

    def copy_len(self, c):
        return tz(c.args[1].i()) - tz(c.args[0].i()) + 1

    def copied(self, ex, pre, st, A, frm):
        a, b = St(ex, pre), St(ex, st)
        i = i_
        d = b.N - a.N
        l0, l1, s0, s1 = a.a(LEN), b.a(LEN), a.a(SEEK), b.a(SEEK)
        g = z3.And(i > A, i <= A + d)
        src = a.node[frm + i - A - 1]
        return [('copies have the lengths of their sources', FA([i], z3.Implies(g, l1[b.node[i]] == l0[src]), [b.node[i]])),
                ('copies have the texts of their sources', FA([i], z3.Implies(g, s1[b.node[i]] == s0[src]), [b.node[i]]))]

    def local_cells(self, ex, entry):
        out = []
        for i, ad in entry.aux.get('memloc', {}).items():
            v = entry.vars.get(i)
            if v is not None and v.ty[0] == 'ptr' and v.ty[1][0] == 'arr' and v.ty[1][1] == ('int', 64, True) and v.ty[1][2] <= 4:
                for k in range(v.ty[1][2]):
                    out.append(('%s[%d]' % (short(i), k), lambda s, ad=ad, k=k: ex.rd(s, '*64', ad + 8 * k)))
        return out

    # ---- loops
    def loop_cands(self, ex, entry, head, locs, keys, n):
        ks = {k for k, p in keys}
        out = []
        if F in ks or B in ks or 'ed_state.lines' in ks:
            for nm, f in wf(ex, entry):
                out.append((nm, (lambda nm: lambda s: dict(wf(ex, s))[nm])(nm)))
        if self.cache_ok and ({self.cp[0], self.cn[0]} & ks or 'ed_state.lines' in ks) and ex.cur != 'get_line_node':
            out.append(('cache coherent', lambda s: self.coherent(ex, s)[0][1]))
        if self.runs and F in ks:
            pre = ex.pre
            bases = self.run_bases(ex, pre)
            if ex.cur not in self.base_arg:
                bases = [('dot at entry', tz(ex.path_read(pre, 'ed.state.dot')))] + bases
            for bn, A in bases:
                for j, (nm, f) in enumerate(self.ins(ex, pre, entry, A) + self.ins_undo(ex, pre, entry, A)):
                    out.append(('%s [%s]' % (nm, bn), lambda s, A=A, j=j: (self.ins(ex, pre, s, A) + self.ins_undo(ex, pre, s, A))[j][1]))
                N0 = St(ex, pre).N
                out.append(('current line is the last inserted [%s]' % bn, lambda s, A=A, N0=N0: tz(ex.path_read(s, 'ed.state.dot')) == A + St(ex, s).N - N0))
                out.append(('current line is the last inserted, if any [%s]' % bn, lambda s, A=A, N0=N0: z3.Or(St(ex, s).N == N0, tz(ex.path_read(s, 'ed.state.dot')) == A + St(ex, s).N - N0)))
                out.append(('current line is kept until a line is inserted', lambda s, N0=N0, d0=tz(ex.path_read(pre, 'ed.state.dot')): z3.Or(St(ex, s).N != N0, tz(ex.path_read(s, 'ed.state.dot')) == d0)))
                out.append(('status kept if no lines were added', lambda s, N0=N0, m0=tz(ex.path_read(pre, 'ed.state.is_modified')): z3.Implies(St(ex, s).N == N0, tz(ex.path_read(s, 'ed.state.is_modified')) == m0)))
                out.append(('modified if lines were added', lambda s, N0=N0: z3.Implies(St(ex, s).N > N0, tz(ex.path_read(s, 'ed.state.is_modified')) == 1)))
                for i, v in entry.vars.items():
                    if ex.lty(entry, i) == ('ptr', ('rec', 'ed_undo_node')):
                        out.append(('%s is the entry' % short(i), lambda s, i=i, N0=N0: z3.Implies(z3.Not(s.gh['ufail']), z3.And(
                            (tz(ex.lrd(s, i)) == 0) == (St(ex, s).N == N0),
                            z3.Implies(tz(ex.lrd(s, i)) != 0, tz(ex.lrd(s, i)) == St(ex, s).a(UB)[UHEAD])))))
                        U0 = St(ex, pre).a(AUN)
                        out.append(('%s is a new entry' % short(i), lambda s, i=i, U0=U0: z3.Or(tz(ex.lrd(s, i)) == 0, z3.And(
                            U0[tz(ex.lrd(s, i))] != 1, St(ex, s).a(AUN)[tz(ex.lrd(s, i))] == 1))))
            out.append(('undo queue', lambda s: self.uq_st(ex, s)))
            out.append(('undo record not failed', lambda s: s.gh['ufail'] == pre.gh['ufail']))
        if self.runs and F in ks and ex.cur == 'copy_lines' or (self.runs and LEN in ks and ex.cur not in self.contracts):
            pre = ex.pre
            bases = self.run_bases(ex, pre, True)
            S0 = St(ex, pre)
            for an, A in bases:
                for fn_, frm in bases:
                    if an == fn_:
                        continue
                    for j in range(2):
                        out.append(('copies [%s,%s]' % (an, fn_), lambda s, A=A, frm=frm, j=j: self.copied(ex, pre, s, A, frm)[j][1]))
            for i, v in entry.vars.items():
                if i in entry.aux.get('memloc', {}):
                    continue
                if v.ty == LNODE:
                    for bn, Bb in bases:
                        for ck, ct in self.local_cells(ex, entry) + [('-', lambda s: 1)]:
                            out.append(('%s is source [%s,%s]' % (short(i), bn, ck), lambda s, i=i, Bb=Bb, ct=ct: z3.Or(
                                tz(ct(s)) <= 0, tz(ex.lrd(s, i)) == S0.node[Bb + St(ex, s).N - S0.N])))
                if v.ty == ('int', 64, True):
                    out.append(('%s advances with the inserted lines' % short(i), lambda s, i=i, e=v.i(), N1=St(ex, entry).N: tz(ex.lrd(s, i)) - St(ex, s).N == tz(e) - N1))
            for k, t in self.local_cells(ex, entry):
                out.append(('%s counts down' % k, lambda s, t=t, e=t(entry), N1=St(ex, entry).N: tz(t(s)) + St(ex, s).N == tz(e) + N1))
                out.append(('%s unchanged' % k, lambda s, t=t, e=t(entry): tz(t(s)) == tz(e)))
                out.append(('%s >= 0' % k, lambda s, t=t: tz(t(s)) >= 0))
        # pointers to lines against integer positions
        ptrs = []
        ints = []
        for i, v in entry.vars.items():
            if ex.lty(entry, i) == LNODE:
                ptrs.append((i, lambda s, i=i: tz(ex.lrd(s, i))))
            if ex.lty(entry, i)[:2] == ('int', 64):
                ints.append((i, lambda s, i=i: tz(ex.lrd(s, i))))
        for k, t in self.cache:
            if k in entry.heap:
                if t == LNODE:
                    ptrs.append((k, lambda s, k=k: tz(ex.rd(s, k, 0))))
                elif t[0] == 'int':
                    ints.append((k, lambda s, k=k: tz(ex.rd(s, k, 0))))
        for pn, p in ptrs:
            if not pn.startswith('@'):
                out.append(('%s is the current line' % short(pn), lambda s, p=p: p(s) == s.gh['node'][tz(ex.path_read(s, 'ed.state.dot'))]))
        for pn, p in ptrs:
            for nn, q in ints:
                out.append(('%s is line %s' % (short(pn), short(nn)), lambda s, p=p, q=q: p(s) == s.gh['node'][q(s)]))
        for nn, q in ints:
            out.append(('%s >= 0' % short(nn), lambda s, q=q: q(s) >= 0))
            out.append(('%s <= lines' % short(nn), lambda s, q=q: q(s) <= St(ex, s).N))
            if ex.cur == 'get_line_node':
                for bn, Bb in self.run_bases(ex, ex.pre):
                    out.append(('%s >= %s or last' % (short(nn), bn), lambda s, q=q, Bb=Bb: z3.Or(q(s) >= Bb, q(s) >= St(ex, s).N)))
        return out
