"""display_lines over the line list: the current line afterwards is a line of the buffer (C03, C19)"""
from checks.listview import *

FULL = 'ed_frame_buffer.is_full'
ROWS = 'ed_frame_buffer.rows'


class DispView(ListView):
    coarse = {F, B, 'ed_state.lines', 'ed_state.dot', FULL}
    runs = False
    ranges = {'ed_display.ws_row': (2, (1 << 31) - 1)}
    merge_limit = 4

    def __init__(self, prog):
        super().__init__(prog)
        V = self

        def ens(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            d0, d1 = tz(c.pre.p('ed.state.dot')), tz(c.post.p('ed.state.dot'))
            f, t = tz(c.args[0].i()), tz(c.args[1].i())
            ok = tz(c.ret) >= 0
            return [('the line count is kept', a.N == b.N), ('the lines are kept', a.node == b.node)] + [
                ('the current line is a line of the buffer', z3.And(0 <= d1, d1 <= b.N)),
                ('a failure keeps the current line', z3.Implies(z3.Not(ok), d1 == d0))] + V.after_inv(c)
        self.contracts['display_lines'] = Contract('display_lines', requires=lambda c: V.basic(c) + [V.dot_ok(c)] + [
            ('the range lies in the buffer', disp_range(c))], ensures=ens, ghost_mod=())

        def keep(c):
            a, b = St(c.ex, c.pre_st), St(c.ex, c.post_st)
            out = [('lines and current line are kept', z3.And(a.N == b.N, tz(c.pre.p('ed.state.dot')) == tz(c.post.p('ed.state.dot'))))]
            return out + ([('ghost', a.node == b.node)] if c.mode == 'call' else [])

        def ifb(c):
            fb = tz(c.args[0].i())
            return [('there are at least two rows', z3.Implies(tz(c.ret) >= 0, tz(c.ex.rd(c.post_st, ROWS, fb)) >= 2))]
        for f in ('put_frame_buffer_line', 'display_frame_buffer', 'dup_frame_node'):
            self.contracts.pop(f, None)     # the computed frame is enough
        self.contracts['init_frame_buffer'] = Contract('init_frame_buffer', ensures=lambda c: ifb(c) + keep(c), ghost_mod=())

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        if ex.cur != 'display_lines':
            return out
        f, t = [z3.Int('arg:%s' % ex.prog.funcs['display_lines'].params[k].get('name')) for k in (0, 1)]
        N = St(ex, ex.pre).N
        nodes = lambda s: s.gh['node']
        out.append(('same lines', lambda s: z3.And(St(ex, s).N == N)))
        d = 'ed.state.dot'
        out.append(('current line kept', lambda s: tz(ex.path_read(s, d)) == tz(ex.path_read(ex.pre, d))))
        if self.cache_ok:
            out.append(('cache coherent', lambda s: self.coherent(ex, s)[0][1]))
        fulls = lambda s: z3.IntVal(0)
        for i, v in entry.vars.items():
            if v.ty[0] == 'ptr' and v.ty[1] == ('rec', 'ed_frame_buffer'):
                fulls = lambda s, i=i: tz(ex.rd(s, FULL, ex.lrd(s, i)))
                out.append(('rows', lambda s, i=i: tz(ex.rd(s, ROWS, ex.lrd(s, i))) >= 2))
        for i, v in entry.vars.items():
            if ex.lty(entry, i) == ('int', 64, True):
                x = lambda s, i=i: tz(ex.lrd(s, i))
                out += [('%s in range' % short(i), lambda s, x=x: z3.And(x(s) >= 0, f + x(s) <= t + 1)),
                        ('%s strictly in range' % short(i), lambda s, x=x: z3.And(x(s) >= 0, f + x(s) <= t)),
                        ('%s not stuck' % short(i), lambda s, x=x: z3.Or(x(s) >= 1, z3.And(fulls(s) == 0, f + x(s) <= t)))]
                for j, w in entry.vars.items():
                    if w.ty == LNODE:
                        p = lambda s, j=j: tz(ex.lrd(s, j))
                        out.append(('%s is line %s' % (short(j), short(i)), lambda s, x=x, p=p: p(s) == nodes(s)[z3.If(f + x(s) <= N, f + x(s), 0)]))
        return out


def disp_range(c):
    f, t, N = tz(c.args[0].i()), tz(c.args[1].i()), tz(c.pre.p(LINES))
    return z3.Or(N == 0, z3.And(0 <= f, f <= t, t <= N, z3.Or(f >= 1, t < N)))



def disp_tasks(prog):
    from run import Task
    d = DispView(prog)
    return [Task(d, f, 200) for f in ('display_lines', 'init_frame_buffer') if f in prog.funcs]
