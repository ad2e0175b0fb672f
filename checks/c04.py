"""C04: line addresses are computed exactly.

The text of an address is read by a recursive specification over the characters (mathematical integers, no bound):
  DV(m,p), DE(m,p)   value and end of the digit string at p in text m        (the meaning strtoll is given)
  WS(m,p)            first character from p on that is no white space (or is a newline)
  OF(m,p), OE(m,p)   sum and end of the offsets (`+n`, `-n`, `+`, `-`, `^`, `n`, white space) from p on
  OK(m,p,a)          every partial sum of a and those offsets can be represented
Contracts:
  * address_offset: success <=> OK, and then the address grew by exactly OF and the input stands at OE
  * line_address: number, `$`, `.`, mark, search (started at the address given), or nothing
  * next_address: base + offsets, status 1 exactly if something was read
  * address_range: a ghost reader follows the separators `,` `;` `%`; first, second and current line are those of the reader,
    within 0..last (roll-over of one line outside POSIX and traditional modes); anything else is an error
No signed arithmetic in these functions overflows (obligations)."""
from checks.common import *
LEVEL = 'proof'
I64MAX = (1 << 63) - 1
I64MIN = -(1 << 63)
MS = z3.ArraySort(IntS, IntS)
DV = z3.Function('DV', MS, IntS, IntS)
DE = z3.Function('DE', MS, IntS, IntS)
WS = z3.Function('WS', MS, IntS, IntS)
OF = z3.Function('OF', MS, IntS, IntS)
OE = z3.Function('OE', MS, IntS, IntS)
OK = z3.Function('OK', MS, IntS, IntS, z3.BoolSort())
LINES, DOT = 'ed.state.lines', 'ed.state.dot'
p_, a_ = z3.Int('p'), z3.Int('a')
ASSUMPTIONS = [
    'strtoll, given text that starts with a digit, returns the value of the digit string and its end, or LLONG_MAX with errno ERANGE if it '
    'does not fit (the text must start with a digit: obligation)',
    'the line found by a search or a mark is an arbitrary result of get_matching_node_address / get_marked_node_address here (C09: marks)',
]


def dig(c):
    return z3.And(c >= 48, c <= 57)


def spc(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


def fits(v):
    return z3.And(v >= I64MIN, v <= I64MAX)


def unfold_ws(m, p):
    c = m[p]
    return z3.If(z3.And(spc(c), c != 10), WS(m, p) == WS(m, p + 1), WS(m, p) == p)


def cases(m, p):
    """(condition, amount, where the rest begins, amount representable)"""
    c, d = m[p], m[p + 1]
    sign = z3.Or(c == 43, c == 45, c == 94)
    sg = lambda v: z3.If(c == 43, v, -v)
    return [(dig(c), DV(m, p), DE(m, p), DV(m, p) <= I64MAX),
            (z3.And(sign, dig(d)), sg(DV(m, p + 1)), DE(m, p + 1), DV(m, p + 1) <= I64MAX),
            (z3.And(sign, z3.Not(dig(d))), sg(z3.IntVal(1)), p + 1, z3.BoolVal(True)),
            (z3.Or(c == 32, c == 9), z3.IntVal(0), WS(m, p), z3.BoolVal(True))]


def unfold(m, p):
    cs = cases(m, p)
    none = z3.And(*[z3.Not(c) for c, *_ in cs])
    out = [z3.Implies(none, z3.And(OF(m, p) == 0, OE(m, p) == p))]
    for c, v, q, r in cs:
        out.append(z3.Implies(c, z3.And(OF(m, p) == v + OF(m, q), OE(m, p) == OE(m, q))))
    return z3.And(*out)


def unfold_ok(m, p, a):
    cs = cases(m, p)
    none = z3.And(*[z3.Not(c) for c, *_ in cs])
    out = [z3.Implies(none, OK(m, p, a))]
    for c, v, q, r in cs:
        out.append(z3.Implies(c, OK(m, p, a) == z3.And(r, fits(a + v), OK(m, q, a + v))))
    return z3.And(*out)


class AddrView(BView):
    check_overflow = True
    merge_limit = 30
    no_houdini = ('address_offset',)
    max_acc = 4
    inv_timeout = 300

    def __init__(self, prog):
        super().__init__(prog)
        V = self
        C = {}
        self.inlines |= {'check_address_bounds'}
        self.ghost_deps = {}

        def mem(c, st):
            return c.ex.mem(st, '*8').z()

        def inp(c, st):
            return tz(c.ex.path_read(st, 'ed.input'))

        def av(c, st, k=0):
            v = c.args[k]
            return tz(c.ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())

        def off(c):
            m, p, a0, a1 = mem(c, c.pre_st), inp(c, c.pre_st), av(c, c.pre_st), av(c, c.post_st)
            r = tz(c.ret) >= 0
            return [('an offset sum that can be represented is accepted, any other is an error', r == OK(m, p, a0)),
                    ('the offsets are added exactly', z3.Implies(r, a1 == a0 + OF(m, p))),
                    ('the input is read up to the end of the offsets', z3.Implies(r, inp(c, c.post_st) == OE(m, p))),
                    ('the status is 0', z3.Implies(r, tz(c.ret) == 0)), ('ghost', fits(a1))] + V.same(c)
        C['address_offset'] = Contract('address_offset', ensures=off, requires=lambda c: [('the address can be represented', fits(av(c, c.pre_st)))])

        def base(c):
            ex, pre, post = c.ex, c.pre_st, c.post_st
            m, p, q, a0, a1 = mem(c, pre), inp(c, pre), inp(c, post), av(c, pre), av(c, post)
            ch = m[p]
            r = tz(c.ret) >= 0
            N = tz(ex.path_read(pre, LINES))
            srch, mark = z3.Or(ch == 47, ch == 63), ch == 39
            if c.mode == 'call':
                post.gh['lq'], post.gh['lm'], post.gh['base'] = q, mem(c, post), a1
            none = z3.Not(z3.Or(dig(ch), ch == 36, ch == 46, srch, mark))
            return [('a number denotes itself', z3.Implies(z3.And(r, dig(ch)), z3.And(a1 == DV(m, p), q == DE(m, p)))),
                    ('a number is refused only if it cannot be represented', z3.Implies(dig(ch), r == (DV(m, p) <= I64MAX))),
                    ('`$` is the last line', z3.Implies(ch == 36, z3.And(r, a1 == N, q == p + 1))),
                    ('`.` is the current line', z3.Implies(ch == 46, z3.And(r, a1 == a0, q == p + 1))),
                    ('nothing read: the address stays', z3.Implies(none, z3.And(r, a1 == a0, q == p))),
                    ('a mark is the line it denotes', z3.Implies(z3.And(r, mark), z3.And(a1 == post.gh['found'], q == p + 2, post.gh['marks'] == m[p + 1]))),
                    ('a search is the line it finds', z3.Implies(z3.And(r, srch), z3.And(a1 == post.gh['found'], post.gh['from'] == a0, post.gh['fwd'] == z3.If(ch == 47, z3.IntVal(1), z3.IntVal(0))))),
                    ('only a search touches other text', z3.Implies(z3.Not(srch), mem(c, post) == m)),
                    ('the status is 0', z3.Implies(r, tz(c.ret) == 0)), ('ghost', fits(a1))] + V.same(c)
        C['line_address'] = Contract('line_address', ensures=base, ghost_mod=('found', 'from', 'fwd', 'marks', 'lq'),
                                     requires=lambda c: [('the address can be represented', fits(av(c, c.pre_st)))])

        def nxt(c):
            ex, pre, post = c.ex, c.pre_st, c.post_st
            m, a0, a1, q1 = mem(c, pre), av(c, pre), av(c, post), inp(c, post)
            p = WS(m, inp(c, pre))
            ch = m[p]
            r = tz(c.ret) >= 0
            srch, mark = z3.Or(ch == 47, ch == 63), ch == 39
            N = tz(ex.path_read(pre, LINES))
            b, lq, lm = post.gh['base'], post.gh['lq'], post.gh['lm']
            fs = post.gh['found']
            none = z3.Not(z3.Or(dig(ch), ch == 36, ch == 46, srch, mark))
            B = z3.If(dig(ch), DV(m, p), z3.If(ch == 36, N, z3.If(z3.Or(srch, mark), fs, a0)))
            Q = z3.If(dig(ch), DE(m, p), z3.If(z3.Or(ch == 36, ch == 46), p + 1, z3.If(mark, p + 2, p)))
            out = [('an address is its base plus its offsets', z3.Implies(z3.And(r, z3.Not(srch)), a1 == B + OF(m, Q))),
                   ('an address is read to its end', z3.Implies(z3.And(r, z3.Not(srch)), q1 == OE(m, Q))),
                   ('an address that can be represented is accepted', z3.Implies(z3.And(z3.Not(srch), z3.Not(mark), z3.Or(z3.Not(dig(ch)), DV(m, p) <= I64MAX), OK(m, Q, B)), r)),
                   ('one that cannot is refused', z3.Implies(z3.And(z3.Not(srch), z3.Not(mark), z3.Or(z3.And(dig(ch), DV(m, p) > I64MAX), z3.Not(OK(m, Q, B)))), z3.Not(r)))]
            if c.mode != 'call':
                out += [('an address starting with a search is the line found plus its offsets', z3.Implies(z3.And(r, srch), z3.And(
                            a1 == fs + OF(lm, lq), q1 == OE(lm, lq)))),
                        ('the status tells whether an address was read', z3.Implies(r, tz(c.ret) == z3.If(q1 == p, z3.IntVal(0), z3.IntVal(1))))]
            out += [('the status is 0 or 1', z3.Implies(r, tz(c.ret) <= 1)), ('ghost', fits(a1))]
            if c.mode == 'call' and 'first' in pre.gh:
                V.read(c)
            return out + V.same(c)
        C['next_address'] = Contract('next_address', ensures=nxt, ghost_mod=('found', 'from', 'fwd', 'marks', 'lq', 'lm', 'base'),
                                     requires=lambda c: [('the address can be represented', fits(av(c, c.pre_st)))] + V.read_pre(c))

        def rng_(c):
            ex, pre, post = c.ex, c.pre_st, c.post_st
            g = post.gh
            if c.mode == 'call':
                return []
            N = tz(ex.path_read(pre, LINES))
            r = tz(c.ret) >= 0
            opt = tz(ex.path_read(pre, 'ed.exec.opt'))
            bit = lambda k: (lambda b: z3.BoolVal(b) if isinstance(b, bool) else b)(ex.bit(pre, opt, V.enums[k].bit_length() - 1))
            strict = z3.Or(bit('POSIXLY_CORRECT'), bit('TRADITIONAL'))
            roll = lambda v: z3.If(strict, v, z3.If(v == -1, N, z3.If(v == N + 1, z3.IntVal(0), v)))
            F, S_, D = roll(z3.If(g['n'] >= 2, g['first'], g['second'])), roll(g['second']), g['cur']
            inb = z3.And(0 <= F, F <= N, 0 <= S_, S_ <= N, 0 <= D, D <= N)
            P = lambda x: tz(ex.path_read(post, x))
            m = ex.mem(post, '*8').z()
            return [('addresses outside the buffer are refused', z3.Implies(r, inb)),
                    ('addresses inside the buffer are accepted', z3.Implies(z3.Not(r), z3.Or(z3.Not(inb), z3.Not(g['fine'])))),
                    ('the range starts at the address before the last', z3.Implies(r, P('ed.exec.region.start') == F)),
                    ('the range ends at the last address', z3.Implies(r, P('ed.exec.region.end') == S_)),
                    ('the current line is the one set by the last `;`', z3.Implies(r, P(DOT) == D)),
                    ('the number of addresses is reported', z3.Implies(r, z3.And(
                        tz(c.ret) == z3.If(g['n'] >= 2, z3.IntVal(2), g['n']), P('ed.exec.region.addrs') == tz(c.ret)))),
                    ('the command starts right after the addresses', z3.Implies(r, z3.And(
                        P('ed.input') == g['pos'], z3.Not(V.delim(m[g['pos']])))))] + V.same(c)
        C['address_range'] = Contract('address_range', ensures=rng_)
        self.contracts = {k: v for k, v in C.items() if k in prog.funcs}

    def same(self, c):
        ex = c.ex
        return [('the line count is kept', tz(ex.path_read(c.pre_st, LINES)) == tz(ex.path_read(c.post_st, LINES)))]

    def delim(self, ch):
        return z3.Or(ch == 37, ch == 44, ch == 59)

    # ---- the reader
    def sep(self, ex, st):
        """the reader at a separator (or at the first address): first, second, cur, n as they stand before the next address"""
        g = st.gh
        m = ex.mem(st, '*8').z()
        ch = m[g['pos']]
        d = self.delim(ch)
        N = tz(ex.path_read(st, LINES))
        cur = z3.If(z3.And(d, g['n'] > 0, ch == 59), g['second'], g['cur'])
        first = z3.If(d, z3.If(g['n'] == 0, z3.If(ch == 59, g['cur'], z3.IntVal(1)), g['second']), g['first'])
        second = z3.If(z3.And(d, g['n'] == 0), N, g['second'])
        n = z3.If(z3.And(d, g['n'] == 0), z3.IntVal(2), g['n'])
        return d, first, second, cur, n

    def read_pre(self, c):
        if c.mode != 'call' or 'first' not in c.pre_st.gh or c.ex.cur != 'address_range':
            return []
        ex, st = c.ex, c.pre_st
        d, first, second, cur, n = self.sep(ex, st)
        v = c.args[0]
        a = tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())
        return [('an address follows a separator (or is the first)', z3.Or(d, st.gh['begin'])),
                ('the address is read right after the separator', tz(ex.path_read(st, 'ed.input')) == st.gh['pos'] + z3.If(d, z3.IntVal(1), z3.IntVal(0))),
                ('an address is relative to the current line, or to the line set by `;`', a == cur)]

    def read(self, c):
        ex, pre, st = c.ex, c.pre_st, c.post_st
        d, first, second, cur, n = self.sep(ex, pre)
        v = c.args[0]
        a1 = tz(ex.load(st, LV('mem', v.prov[0], v.prov[1], v.ty[1])).i())
        got = tz(c.ret) > 0
        st.gh['first'], st.gh['cur'] = first, cur
        st.gh['second'] = z3.If(got, a1, second)
        st.gh['n'] = z3.If(got, n + 1, n)
        st.gh['pos'] = tz(ex.path_read(st, 'ed.input'))
        st.gh['begin'] = z3.BoolVal(False)
        st.gh['fine'] = tz(c.ret) >= 0

    def init_state(self, ex, st):
        super().init_state(ex, st)
        N, dot = tz(ex.path_read(st, LINES)), tz(ex.path_read(st, DOT))
        st.assume(z3.And(0 <= dot, dot <= N, N < I64MAX))
        m = ex.mem(st, '*8').z()
        self.m0 = m
        p0 = tz(ex.path_read(st, 'ed.input'))
        st.assume(p0 > 0)
        st.gh['found'], st.gh['from'], st.gh['fwd'], st.gh['marks'] = fresh('found'), fresh('from'), fresh('fwd'), fresh('marks')
        st.gh['lq'], st.gh['base'] = fresh('lq'), fresh('base')
        st.gh['lm'] = fresh_arr('lm')
        if ex.cur == 'address_range':
            st.gh['pos'] = WS(m, p0)
            st.gh['first'] = st.gh['second'] = st.gh['cur'] = dot
            st.gh['n'] = z3.IntVal(0)
            st.gh['begin'], st.gh['fine'] = z3.BoolVal(True), z3.BoolVal(True)

    def at_head(self, ex, h, n):
        m, p = ex.mem(h, '*8').z(), tz(ex.path_read(h, 'ed.input'))
        h.assume(unfold_ws(m, p))
        if ex.cur == 'address_offset':
            a = tz(ex.rd(h, '*out:%s' % ex.prog.funcs[ex.cur].params[0].get('name'), 0))
            h.assume(unfold(m, p))
            h.assume(unfold_ok(m, p, a))

    def on_call(self, ex, name, args, st, n):
        if name in ('strtoll', 'strtol') and ex.cur in ('line_address', 'address_offset'):
            m = ex.mem(st, '*8').z()
            p = tz(args[0].i())
            ex.oblige(st, 'a number is read where a digit stands', z3.And(dig(m[p]), tz(args[2].i()) == 10), n.get('ln', 0))
            st.assume(z3.And(DV(m, p) >= 0, DE(m, p) > p))
            t = fresh('num')
            st.assume(t == z3.If(DV(m, p) <= I64MAX, DV(m, p), z3.IntVal(I64MAX)))
            e = args[1]
            ex.wr(st, e.prov[0], e.prov[1], DE(m, p))
            er = GLOBAL_BASE - 64
            ex.wr(st, '*32', er, z3.If(DV(m, p) > I64MAX, z3.IntVal(34), tz(ex.rd(st, '*32', er))))
            return [(Val(t, LONG), st)]
        if name in ('get_matching_node_address', 'get_marked_node_address') and ex.cur == 'line_address':
            srch = name.startswith('get_matching')
            s0 = st.copy()
            out = args[2 if srch else 1]
            dot = tz(ex.path_read(st, DOT))
            r = ex.auto_call(name, args, st, n, n['inner'][1:], INT)
            for v, s in r:
                if out.prov is not None:
                    ex.havoc_cell(s, out.prov[0], out.prov[1])
                a1 = tz(ex.load(s, LV('mem', out.prov[0], out.prov[1], out.ty[1])).i())
                s.assume(fits(a1))
                s.gh['found'] = a1
                if srch:
                    s.gh['from'], s.gh['fwd'] = dot, z3.If(tz(args[1].i()) != 0, z3.IntVal(1), z3.IntVal(0))
                else:
                    s.gh['marks'] = tz(args[0].i())
                s.assume(tz(ex.path_read(s, LINES)) == tz(ex.path_read(s0, LINES)))
                if not srch:
                    s.assume(ex.mem(s, '*8').z() == ex.mem(s0, '*8').z())
            return r
        return None

    def loop_cands(self, ex, entry, head, locs, keys, n):
        out = []
        inp = lambda s: tz(ex.path_read(s, 'ed.input'))
        mem = lambda s: ex.mem(s, '*8').z()
        ent_p, ent_m = inp(entry), mem(entry)
        out.append(('text kept', lambda s: mem(s) == ent_m))
        out.append(('white space skipped', lambda s: WS(mem(s), inp(s)) == WS(ent_m, ent_p)))
        if ex.cur == 'address_offset':
            v = Val(z3.Int('arg:addr'), ('ptr', LONG), None)
            pn = ex.prog.funcs[ex.cur].params[0].get('name')
            A = lambda s: tz(ex.rd(s, '*out:%s' % pn, 0))
            p0, a0 = inp(ex.pre), A(ex.pre)
            m0 = mem(ex.pre)
            out += [('sum', lambda s: A(s) + OF(m0, inp(s)) == a0 + OF(m0, p0)),
                    ('end', lambda s: OE(m0, inp(s)) == OE(m0, p0)),
                    ('representable', lambda s: OK(m0, inp(s), A(s)) == OK(m0, p0, a0)),
                    ('address fits', lambda s: fits(A(s)))]
            for i, w in entry.vars.items():
                if i in locs and ex.lty(entry, i) == ('int', 64, True):
                    out.append(('%s as before' % short(i), lambda s, i=i, e=tz(ex.lrd(entry, i)): tz(ex.lrd(s, i)) == e))
        if ex.cur == 'address_range':
            g = lambda s, k: s.gh[k]
            ad = lambda s: tz(ex.path_read(s, 'ed.exec.region.addrs'))
            out += [('count', lambda s: ad(s) == g(s, 'n')), ('count 0', lambda s: ad(s) >= 0),
                    ('position', lambda s: inp(s) == g(s, 'pos')), ('fine', lambda s: g(s, 'fine')),
                    ('fits', lambda s: z3.And(fits(g(s, 'first')), fits(g(s, 'second')), fits(g(s, 'cur')))),
                    ('lines', lambda s: tz(ex.path_read(s, LINES)) == tz(ex.path_read(ex.pre, LINES))),
                    ('separator', lambda s: z3.Or(g(s, 'begin'), self.delim(mem(s)[inp(s)]))),
                    ('none yet', lambda s: z3.Implies(g(s, 'n') == 0, z3.And(g(s, 'first') == g(s, 'cur'), g(s, 'second') == g(s, 'cur')))),
                    ]
            for i, w in entry.vars.items():
                w_ty = ex.lty(entry, i)
                if w_ty[0] != 'int':
                    continue
                x = lambda s, i=i: tz(ex.lrd(s, i))
                if w_ty[1] == 64:
                    for k in ('first', 'second', 'cur'):
                        out.append(('%s is %s' % (short(i), k), lambda s, x=x, k=k: x(s) == g(s, k)))
                    out.append(('%s is first if two' % short(i), lambda s, x=x: z3.Implies(g(s, 'n') >= 2, x(s) == g(s, 'first'))))
                else:
                    out.append(('%s tells of a separator' % short(i), lambda s, x=x: x(s) == z3.If(self.delim(mem(s)[inp(s)]), z3.IntVal(1), z3.IntVal(0))))
        return out


def tasks(prog):
    from run import Task
    v = AddrView(prog)
    return [Task(v, f, 150) for f in ('address_offset', 'line_address', 'next_address', 'address_range') if f in prog.funcs]
