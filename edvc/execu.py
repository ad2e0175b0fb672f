import sys, time, itertools
import z3
from sym import *
import sym
from front import VOID, INT, UINT, LONG, ULONG, CHAR, UCHAR, ptr
from modset import ModSets, param_types
from libc import EXT

_uid = itertools.count(1)


import os
DBG = bool(os.environ.get('EDVC_DBG'))


class Ctx:
    """what a contract sees: argument terms, pre state, post state, result"""

    def __init__(self, ex, args, pre, post=None, ret=None, mode='verify'):
        self.ex = ex
        self.args = args
        self.pre = View_(ex, pre)
        self.post = View_(ex, post) if post is not None else None
        self.ret = ret
        self.mode = mode
        self.pre_st = pre
        self.post_st = post


class View_:
    """typed read access to a state"""

    def __init__(self, ex, st):
        self.ex = ex
        self.st = st

    def f(self, key, idx):
        return self.ex.rd(self.st, key, idx)

    def p(self, path):
        """'ed->state->dot' style access (path components separated by '.')"""
        return self.ex.path_read(self.st, path)

    def arr(self, key):
        return self.ex.mem(self.st, key).z()

    def g(self, name):
        return self.st.gh[name]

    def glob(self, name):
        return self.ex.rd(self.st, '@' + name, 0)


class Contract:
    def __init__(self, name, requires=None, ensures=None, assigns='auto', ghost=None, ghost_mod=(),
                 loop=None, entry=None, at_call=None, noreturn=False, frame=None):
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.assigns = assigns          # 'auto' or list of (key, idxfn|None)
        self.ghost = ghost              # verify mode: fn(c) -> {ghost: term}, facts   (definitions)
        self.ghost_mod = ghost_mod      # ghosts havocked at call sites
        self.loop = loop                # fn(ex, entry_state, head_state, mods) -> [(name, fn(state))]
        self.entry = entry              # extra assumptions installed at entry fn(ex, st)
        self.at_call = at_call
        self.noreturn = noreturn
        self.frame = frame or (lambda c: [])   # facts that hold across an auto frame at call sites


class Executor:
    def __init__(self, prog, view, ms=None):
        self.prog = prog
        self.T = prog.types
        self.ms = ms or ModSets(prog)
        self.ms.of_func(next(iter(prog.funcs)))
        self.view = view
        self.obls = []
        self.assumptions = set()
        self.addr_taken = {}
        self.memty = {}            # address of a local kept in memory -> (key, type)
        self.mute = 0
        self.stack = []
        self.h0 = {}
        self.nfeas = 0
        self.tfeas = 0.0
        self.nmodel = self.ncancel = 0
        self.alloc_ty = None
        self.deadline = None
        self.fcache = {}
        self.houdini_checks = 0
        self.loopinfo = []
        self.unsupported = []
        self.gaddr = {}
        for i, g in enumerate(sorted(prog.globals)):
            self.gaddr[g] = GLOBAL_BASE + i * 65536
        self.strs = {}
        self.ED = z3.Int('ed')

    # ------------------------------------------------------------ memory
    def mem(self, st, key):
        m = st.heap.get(key)
        if m is None:
            m = self.h0.get(key)
            if m is None:
                m = Mem(z3.Array('H0:' + key, IntS, IntS))
                self.h0[key] = m
            st.heap[key] = m
        return m

    def rd(self, st, key, idx):
        return self.mem(st, key).read(idx)

    def wr(self, st, key, idx, v):
        if key in self.view.qkeys:
            v, idx = self.no_ite(st, v), self.no_ite(st, idx)
        st.heap[key] = self.mem(st, key).write(idx, v)

    def no_ite(self, st, t):
        if isc(t) or not has_ite(t):
            return t
        r = fresh('nm')
        st.pc.append(r == t)
        return r

    def range_fact(self, st, t, ty):
        if isc(t):
            return
        r = rng(ty)
        if r is None:
            return
        k = (t.get_id(), ty)
        if k in st.ranged:
            return
        st.ranged.add(k)
        self._keep(t)
        st.pc.append(z3.And(t >= r[0], t <= r[1]))

    def _keep(self, t):
        self.__dict__.setdefault('_kept', []).append(t)

    def load(self, st, lv):
        ty = lv.ty
        if self.view.watch_loads:
            self.view.on_load(self, st, lv)
        if lv.k == 'var':
            v = st.vars.get(lv.key)
            if v is None:
                v = self.fresh_val(st, ty, 'uninit')
                st.vars[lv.key] = v
            return v
        if lv.k == 'mem':
            t = self.rd(st, lv.key, lv.idx)
            if lv.key.startswith('*') and ty[0] == 'int':
                # raw memory is stored signed
                sty = ('int', ty[1], True)
                self.range_fact(st, t, sty)
                if not ty[2]:
                    t = self.conv_int(t, sty, ty)
            else:
                self.range_fact(st, t, ty)
                if lv.key in self.view.ranges and not isc(t):
                    st.assume(z3.And(t >= self.view.ranges[lv.key][0], t <= self.view.ranges[lv.key][1]))
            v = Val(t, ty)
            pv = st.aux.get('prov')
            if pv and ty[0] == 'ptr':
                v.prov = pv.get((lv.key, str(lv.idx)))
            return v
        if lv.k == 'rec':
            return Val(lv.idx, lv.ty)      # record value is represented by its address
        if lv.k == 'arr':
            return self.decay(lv)
        raise Unsupported('load ' + lv.k)

    def decay(self, lv):
        et = lv.ty[1]
        prov = (lv.key, lv.idx) if lv.key and et[0] in ('int', 'ptr') else None
        return Val(lv.idx, ('ptr', et), prov)

    def store(self, st, lv, v):
        ty = lv.ty
        if self.view.watch and lv.k != 'var':
            self.view.on_store(self, st, lv, v)
        if lv.k == 'var':
            st.vars[lv.key] = Val(v.t, ty, v.prov, v.b)
            return
        if lv.k == 'mem':
            t = v.i()
            if lv.key in self.view.ranges:
                lo, hi = self.view.ranges[lv.key]
                self.oblige(st, 'values stored in %s stay in %d..%d' % (lv.key, lo, hi), And(cmp('>=', t, lo), cmp('<=', t, hi)), self.curline, 'inv')
            if lv.key.startswith('*') and ty[0] == 'int' and not ty[2]:
                t = self.conv_int(t, ty, ('int', ty[1], True))
            self.wr(st, lv.key, lv.idx, t)
            if ty[0] == 'ptr':
                pv = dict(st.aux.get('prov') or {})
                pv[(lv.key, str(lv.idx))] = v.prov
                st.aux['prov'] = pv
            return
        if lv.k == 'rec':
            self.copy_rec(st, ty[1], lv.idx, v.t)
            return
        raise Unsupported('store ' + lv.k)

    def copy_rec(self, st, tag, dst, src):
        offs, _, _ = self.T.layout(tag)
        for f, (o, t) in offs.items():
            if t[0] == 'rec':
                self.copy_rec(st, t[1], add(dst, o), add(src, o))
            elif t[0] == 'arr':
                self.assumptions.add('struct copy of %s does not model array member %s' % (tag, f))
            else:
                key = '%s.%s' % (tag, f)
                self.wr(st, key, dst, self.rd(st, key, src))

    def fresh_val(self, st, ty, name='v'):
        if ty[0] == 'rec':
            return Val(self.new_local_addr(), ty)
        t = fresh(name)
        self.range_fact(st, t, ty)
        return Val(t, ty)

    def lty(self, st, i):
        """type of the scalar local i, wherever it is kept (its address may have been taken)"""
        ml = st.aux.get('memloc', {}).get(i)
        if ml is None:
            return st.vars[i].ty
        m = self.memty.get(ml)
        return m[1] if m else ('none',)

    def lrd(self, st, i):
        ml = st.aux.get('memloc', {}).get(i)
        if ml is None:
            return st.vars[i].i()
        return self.rd(st, self.memty[ml][0], 0)

    def new_local_addr(self):
        return LOCAL_BASE + next(_uid) * (1 << 20)

    def path_read(self, st, path):
        parts = path.split('.')
        return self.path_cell(st, parts, read=True)

    def path_cell(self, st, parts, read=False):
        """walk ed.a.b.c ; returns (key, idx) or value"""
        addr = self.ED
        ty = ('rec', 'ed_buffer')
        parts = parts[1:]
        for i, f in enumerate(parts):
            if isinstance(f, int) or f.isdigit():
                addr = add(addr, int(f) * self.T.size(ty))
                continue
            offs, _, _ = self.T.layout(ty[1])
            off, fty = offs[f]
            key = '%s.%s' % (ty[1], f)
            last = i == len(parts) - 1
            if last:
                return self.rd(st, key, addr) if read else (key, addr)
            if fty[0] == 'ptr':
                addr = self.rd(st, key, addr)
                ty = fty[1]
            elif fty[0] == 'rec':
                addr = add(addr, off)
                ty = fty
            else:
                raise Unsupported('path')
        return addr

    def path_addr(self, st, parts):
        addr = self.ED
        ty = ('rec', 'ed_buffer')
        for f in parts[1:]:
            if isinstance(f, int):
                addr = add(addr, f * self.T.size(ty))
                continue
            offs, _, _ = self.T.layout(ty[1])
            off, fty = offs[f]
            addr = self.rd(st, '%s.%s' % (ty[1], f), addr)
            ty = fty[1]
        return addr

    # ------------------------------------------------------------ solver helpers
    def feasible(self, st, cond=True):
        return self.feasible_m(st, cond)[0]

    def feasible_m(self, st, cond=True):
        """(may be satisfiable, model or None); a model of a prefix of the path is reused where it still fits"""
        if cond is False:
            return False, None
        if any(z3.is_false(f) for f in st.pc[-3:]):
            return False, None
        if not self.view.prune:
            return True, None
        mc = st.aux.get('model')
        if mc is not None:
            m, k = mc
            ok = True
            for f in st.pc[k:]:
                if not z3.is_true(m.eval(f, model_completion=True)):
                    ok = False
                    break
            if ok:
                if k != len(st.pc):
                    st.aux['model'] = (m, len(st.pc))
                if cond is True or z3.is_true(m.eval(cond, model_completion=True)):
                    self.nmodel += 1
                    return True, m
        self.nfeas += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.view.feas_timeout)
        if cond is not True:
            facts = slice_facts(st.pc, cond)
            s.add(*facts)
            s.add(cond)
            sliced = len(facts) < len(st.pc)
        else:
            s.add(*st.pc)
            sliced = False
        r = s.check()
        self.tfeas += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted while exploring paths')
        if r == z3.sat and not sliced:
            return True, s.model()
        return r != z3.unsat, None

    def prove_now(self, st, goal, timeout=None, quant=True):
        """quick validity check used for invariant filtering"""
        if goal is True:
            return True
        if goal is False:
            return not self.feasible(st)
        s = z3.SimpleSolver()
        s.set('timeout', timeout or self.view.inv_timeout * 10)
        if self.view.inv_rlimit:
            s.set('rlimit', self.view.inv_rlimit)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.add(*st.pc)
        if quant:
            s.add(*st.q)
        s.add(negate(goal))
        t0 = time.time()
        r = s.check()
        if r == z3.unknown and s.reason_unknown() in ('canceled', 'timeout', 'interrupted') and time.time() - t0 < 1:
            # stopped before its time
            self.ncancel += 1
            r = s.check()
        return r == z3.unsat

    def oblige(self, st, name, goal, line=0, kind='post'):
        if self.mute:
            return
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.oblige(st, name, g, line, kind)
            return
        o = Obligation(self.cur, name, line, None, None, None, kind)
        if goal is True:
            o.result = 'discharged'
            o.backend = 'simplifier'
            self.obls.append(o)
            return
        o.facts = list(st.pc) + list(st.q)
        o.goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        o.trace = list(st.trace)
        self.obls.append(o)

    # ------------------------------------------------------------ integer ops
    def conv_int(self, t, fr, to):
        if fr[0] != 'int' or to[0] != 'int':
            return t
        w, s = to[1], to[2]
        lo, hi = rng(to)
        if isc(t):
            m = int(t) & ((1 << w) - 1)
            if s and m >> (w - 1):
                m -= 1 << w
            return m
        flo, fhi = rng(fr)
        if flo >= lo and fhi <= hi:
            return t
        if fr[1] == w:
            if fr[2]:                       # signed -> unsigned
                return z3.If(t < 0, t + (1 << w), t)
            return z3.If(t > hi, t - (1 << w), t)
        if fr[1] < w:                       # signed -> wider unsigned
            return z3.If(t < 0, t + (1 << w), t)
        m = t % (1 << w)
        if s:
            m = z3.If(m > hi, m - (1 << w), m)
        return z3.If(z3.And(t >= lo, t <= hi), t, m)

    def wrap(self, st, t, ty, line, op):
        if ty[0] != 'int':
            return t
        if isc(t):
            if ty[2]:
                return t
            return int(t) & ((1 << ty[1]) - 1)
        lo, hi = rng(ty)
        if ty[2]:
            if self.view.check_overflow and ty[1] >= self.view.overflow_width:
                self.oblige(st, 'no signed overflow in %s' % op, z3.And(t >= lo, t <= hi), line, 'arith')
                st.assume(z3.And(t >= lo, t <= hi))
            elif self.view.assume_no_overflow:
                self.assumptions.add('signed %d-bit arithmetic treated as mathematical where no overflow obligation is generated' % ty[1])
            return t
        m = 1 << ty[1]
        if op in ('+', '++'):
            return z3.If(t > hi, t - m, t)
        if op in ('-', '--'):
            return z3.If(t < 0, t + m, t)
        return t % m

    def bit(self, st, x, k):
        """truth of bit k of int term x"""
        if isc(x):
            return bool((int(x) >> k) & 1)
        # structured terms
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return Ite_b(x.arg(0), self.bit(st, unz(x.arg(1)), k), self.bit(st, unz(x.arg(2)), k))
        b = bitf(x, z3.IntVal(k))
        key = ('bz', x.get_id())
        if key not in st.ranged:
            st.ranged.add(key)
            self._keep(x)
        kk = (x.get_id(), k, 'b')
        if kk not in st.ranged:
            st.ranged.add(kk)
            st.pc.append(z3.Implies(x == 0, z3.Not(b)))
        return b

    def band(self, st, x, c):
        if isc(x) and isc(c):
            return int(x) & int(c)
        if isc(x):
            x, c = c, x
        if isc(c):
            c = int(c)
            if c >= 31 and c & (c + 1) == 0:
                return x % (c + 1)      # low-order bits
            if c >= 0:
                r = 0
                terms = []
                for k in range(c.bit_length()):
                    if (c >> k) & 1:
                        b = self.bit(st, x, k)
                        if b is True:
                            terms.append(1 << k)
                        elif b is not False:
                            terms.append(z3.If(b, z3.IntVal(1 << k), z3.IntVal(0)))
                if not terms:
                    return 0
                if len(terms) > 20:
                    return self.fresh_bits(st, lambda k: And(self.bit(st, x, k), bool((c >> k) & 1)), 'and')
                r = terms[0]
                for t in terms[1:]:
                    r = add(r, t)
                return r
            # mask ~d : clear bits d
            d = ~c
            return self.fresh_bits(st, lambda k: False if (d >> k) & 1 else self.bit(st, x, k), 'andn')
        return self.fresh_bits(st, lambda k: And(self.bit(st, x, k), self.bit(st, c, k)), 'and')

    def fresh_bits(self, st, fn, name, width=None):
        width = width or self.view.bits_width
        y = fresh(name)
        for k in range(width):
            b = fn(k)
            st.assume(bitf(y, z3.IntVal(k)) == tz(b))
        allz = z3.And(*[z3.Not(bitf(y, z3.IntVal(k))) for k in range(width)])
        self.assumptions.add('flag words use bits 0..%d only (bitwise results are zero iff those bits are zero)' % (width - 1))
        st.assume((y == 0) == allz)
        st.assume(y >= -(1 << 31))
        st.assume(y < (1 << 32))
        self._keep(y)
        return y

    def bor(self, st, x, c):
        if isc(x) and isc(c):
            return int(x) | int(c)
        if isc(x) and x == 0:
            return c
        if isc(c) and c == 0:
            return x
        r = self.fresh_bits(st, lambda k: Or(self.bit(st, x, k), self.bit(st, c, k)), 'or')
        if self.view.or_zero:
            st.assume((tz(r) == 0) == z3.And(tz(x) == 0, tz(c) == 0))
        if self.view.or_sign and (isc(c) and c >= 0 or isc(x) and x >= 0):
            a, b = (x, c) if isc(c) else (c, x)
            st.assume(z3.If(tz(a) >= 0, z3.And(tz(r) >= tz(a), tz(r) >= tz(b), tz(r) <= tz(a) + tz(b)), tz(r) < 0))
        return r

    def bxor(self, st, x, c):
        if isc(x) and isc(c):
            return int(x) ^ int(c)
        if isc(x) and x == 0:
            return c
        if isc(c) and c == 0:
            return x
        if self.view.arith_xor and isc(c) and c > 0 and c & (c - 1) == 0:
            return tz(x) + z3.If(z3.IntVal(0) == (tz(x) / c) % 2, z3.IntVal(c), z3.IntVal(-c))
        return self.fresh_bits(st, lambda k: Xor(self.bit(st, x, k), self.bit(st, c, k)), 'xor')

    def binop(self, st, op, a, b, ty, line):
        """a, b Val; ty result type"""
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return BV(cmp(op, a.i(), b.i()))
        if op in ('+', '-') and (a.ty[0] == 'ptr' or b.ty[0] == 'ptr'):
            if op == '-' and a.ty[0] == 'ptr' and b.ty[0] == 'ptr':
                sz = self.T.size(a.ty[1]) if a.ty[1][0] not in ('void', 'func') else 1
                d = sub(a.i(), b.i())
                if sz == 1:
                    return Val(d, ty)
                if isc(d):
                    return Val(d // sz, ty)
                q = fresh('pdiff')
                st.assume(d == q * sz)
                return Val(q, ty)
            if b.ty[0] == 'ptr':
                a, b = b, a
            sz = self.T.size(a.ty[1]) if a.ty[1][0] not in ('void', 'func') else 1
            # unsigned 64-bit offsets are two's complement
            k = b.i()
            if b.ty == ULONG and not isc(k):
                pass
            d = mul(k, sz)
            if op == '-':
                d = -d if isc(d) else -d
            prov = None
            if a.prov is not None and isc(d) and d == 0:
                prov = a.prov
            elif a.prov is not None and a.prov[0].endswith(']'):
                prov = (a.prov[0], add(a.prov[1], d))
            r = add(a.i(), d)
            if b.ty == ULONG and not isc(r):
                # wrap-around of (size_t)-1 style offsets
                pass
            return Val(r, a.ty, prov)
        x, y = a.i(), b.i()
        if ty[0] == 'float' or a.ty[0] == 'float' or b.ty[0] == 'float':
            return self.fresh_val(st, ty, 'float')
        if op == '+':
            return Val(self.wrap(st, add(x, y), ty, line, '+'), ty)
        if op == '-':
            return Val(self.wrap(st, sub(x, y), ty, line, '-'), ty)
        if op == '*':
            return Val(self.wrap(st, mul(x, y), ty, line, '*'), ty)
        if op in ('/', '%'):
            if isc(x) and isc(y) and y != 0:
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return Val(q if op == '/' else x - q * y, ty)
            if not isc(y):
                if self.view.check_div:
                    self.oblige(st, 'divisor is not zero', Not(eq(y, 0)), line, 'arith')
                st.assume(Not(eq(y, 0)))
            zx, zy = tz(x), tz(y)
            q, r = fresh('quo'), fresh('rem')
            st.assume(zx == q * zy + r if isc(y) or isc(x) else zx == q * zy + r)
            ay = z3.If(zy < 0, -zy, zy)
            st.assume(z3.And(r < ay, r > -ay, z3.Implies(zx >= 0, r >= 0), z3.Implies(zx <= 0, r <= 0)))
            return Val(q if op == '/' else r, ty)
        if op == '&':
            return Val(self.band(st, x, y), ty)
        if op == '|':
            return Val(self.bor(st, x, y), ty)
        if op == '^':
            return Val(self.bxor(st, x, y), ty)
        if op == '<<':
            if isc(y):
                return Val(self.wrap(st, mul(x, 1 << int(y)), ty, line, '<<'), ty)
            return self.fresh_val(st, ty, 'shl')
        if op == '>>':
            if isc(y) and isc(x):
                return Val(int(x) >> int(y), ty)
            if isc(y):
                return Val(tz(x) / (1 << int(y)), ty)   # floor division = arithmetic shift
            return self.fresh_val(st, ty, 'shr')
        raise Unsupported('binop ' + op)

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        n = strip_par(n)
        k = n['kind']
        ty = self.prog.ptype(n)
        if k == 'DeclRefExpr':
            return [(self.lv_decl(n['referencedDecl'], ty, st), st)]
        if k == 'MemberExpr':
            out = []
            base = n['inner'][0]
            if n.get('isArrow'):
                for v, s in self.ev(base, st):
                    tag = v.ty[1][1] if v.ty[0] == 'ptr' and v.ty[1][0] == 'rec' else self.prog.ptype(base)[1][1]
                    out.append((self.member(tag, n['name'], v.i(), ty, s, n), s))
            else:
                for l, s in self.lv(base, st):
                    out.append((self.member(l.ty[1], n['name'], l.idx, ty, s, n), s))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            a, b = n['inner']
            for va, s in self.ev(a, st):
                for vb, s2 in self.ev(b, s):
                    if va.ty[0] != 'ptr':
                        va, vb = vb, va
                    p = self.binop(s2, '+', va, vb, va.ty, n_line(n))
                    out.append((self.deref(p, s2, ty), s2))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return [(self.deref(v, s, ty), s) for v, s in self.ev(n['inner'][0], st)]
        if k == 'UnaryOperator' and n['opcode'] == '__extension__':
            return self.lv(n['inner'][0], st)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            return self.lv(n['inner'][-1], st)
        if k == 'StringLiteral':
            a = self.str_addr(n, st)
            return [(LV('arr', '*8', a, ty if ty[0] == 'arr' else ('arr', CHAR, 1)), st)]
        if k == 'ConditionalOperator':
            out = []
            for b, s in self.split(n['inner'][0], st):
                out += self.lv(n['inner'][1 if b else 2], s)
            return out
        if k == 'CallExpr' or k == 'BinaryOperator' or k == 'StmtExpr':
            # record-valued expression
            return [(LV('rec', None, v.i(), v.ty), s) for v, s in self.ev(n, st)]
        if k == 'CompoundLiteralExpr':
            a = self.new_local_addr()
            return [(LV('rec' if ty[0] == 'rec' else 'arr', '*8', a, ty), st)]
        if k == 'PredefinedExpr':
            return [(LV('arr', '*8', fresh('fname'), ty), st)]
        raise Unsupported('lvalue ' + k)

    def str_addr(self, n, st):
        s = n.get('value', '""')
        if s not in self.strs:
            self.strs[s] = GLOBAL_BASE + (1 << 44) + len(self.strs) * (1 << 16)
        a = self.strs[s]
        try:
            import ast as _a
            b = _a.literal_eval('b' + s) if s.startswith('"') else None
        except Exception:
            b = None
        if b is not None and len(b) < 64 and ('str', a) not in st.ranged:
            st.ranged.add(('str', a))
            st.aux.setdefault('strs', {})
            d = dict(st.aux['strs'])
            d[a] = b
            st.aux['strs'] = d
        return a

    def lv_decl(self, d, ty, st):
        i = d['id']
        if d['kind'] == 'FunctionDecl':
            return LV('func', d['name'], None, ty)
        if d['kind'] == 'EnumConstantDecl':
            return LV('enum', d['name'], None, ty)
        if i in self.ms.statics:
            key = self.ms.statics[i]
            if ty[0] in ('rec', 'arr'):
                a = self.gaddr.setdefault(key, GLOBAL_BASE + (1 << 42) + len(self.gaddr) * (1 << 20))
                if ty[0] == 'rec':
                    return LV('rec', None, a, ty)
                return LV('arr', tykey(ty[1]) if ty[1][0] != 'rec' else None, a, ty)
            return LV('mem', key, 0, ty)
        if i in st.vars or d['kind'] == 'ParmVarDecl' or i in self.ms.prog_locals():
            r = st.aux.get('memloc', {}).get(i)
            if r is not None:
                if ty[0] == 'rec':
                    return LV('rec', None, r, ty)
                if ty[0] == 'arr':
                    return LV('arr', tykey(ty[1]) if ty[1][0] not in ('rec', 'arr') else None, r, ty)
                return LV('mem', '%%%s@%s' % (d['name'], r), 0, ty)
            return LV('var', i, None, ty)
        # file-scope object
        name = d['name']
        if ty[0] in ('rec', 'arr'):
            a = self.gaddr.setdefault(name, GLOBAL_BASE + len(self.gaddr) * 65536)
            if ty[0] == 'rec':
                return LV('rec', None, a, ty)
            key = None
            if ty[1][0] not in ('rec', 'arr'):
                key = '@%s[]' % name
            return LV('arr', key, a, ty)
        return LV('mem', '@' + name, 0, ty)

    def member(self, tag, f, addr, ty, st, n):
        offs, _, _ = self.T.layout(tag)
        if f not in offs:
            for an, (o, t) in offs.items():
                if an.startswith('?anon') and t[0] == 'rec' and f in self.T.layout(t[1])[0]:
                    return self.member(t[1], f, add(addr, o), ty, st, n)
            raise Unsupported('member %s.%s' % (tag, f))
        off, fty = offs[f]
        if self.view.check_null and not isc(addr) and n.get('isArrow'):
            self.null_check(st, addr, '%s.%s' % (tag, f), n_line(n))
        if fty[0] == 'rec':
            return LV('rec', None, add(addr, off), fty)
        if fty[0] == 'arr':
            key = '%s.%s[]' % (tag, f) if fty[1][0] in ('int', 'ptr') else None
            return LV('arr', key, add(addr, off), fty)
        return LV('mem', '%s.%s' % (tag, f), addr, fty)

    def null_check(self, st, addr, what, line):
        k = ('nn', addr.get_id())
        if k in st.ranged:
            return
        st.ranged.add(k)
        self._keep(addr)
        self.oblige(st, 'pointer is valid at access to %s' % what, self.view.valid_ptr(self, st, addr, what), line, 'mem')

    def deref(self, v, st, ty):
        pt = v.ty[1] if v.ty[0] == 'ptr' else ty
        if pt[0] == 'void':
            pt = ty
        if pt[0] == 'rec':
            return LV('rec', None, v.i(), pt)
        if pt[0] == 'arr':
            return LV('arr', tykey(pt[1]) if pt[1][0] in ('int', 'ptr') else None, v.i(), pt)
        if pt[0] == 'func':
            return LV('func', None, v.i(), pt)
        if v.prov is not None:
            return LV('mem', v.prov[0], v.prov[1], pt)
        return LV('mem', tykey(pt), v.i(), pt)

    # ------------------------------------------------------------ conditions
    def split(self, n, st):
        """evaluate condition; list of (bool, state) with feasible states only"""
        n = strip_par(n)
        if not is_pure(n) or self.view.watch_loads:
            k = n['kind']
            if k == 'BinaryOperator' and n['opcode'] == '&&':
                out = []
                for b, s in self.split(n['inner'][0], st):
                    if b:
                        out += self.split(n['inner'][1], s)
                    else:
                        out.append((False, s))
                return out
            if k == 'BinaryOperator' and n['opcode'] == '||':
                out = []
                for b, s in self.split(n['inner'][0], st):
                    if not b:
                        out += self.split(n['inner'][1], s)
                    else:
                        out.append((True, s))
                return out
            if k == 'UnaryOperator' and n['opcode'] == '!':
                return [(not b, s) for b, s in self.split(n['inner'][0], st)]
        out = []
        for v, s in self.ev(n, st):
            out += self.fork(v.bool(), s, n)
        return out

    def fork(self, c, s, n=None):
        if isinstance(c, bool):
            return [(c, s)]
        if z3.is_true(c):
            return [(True, s)]
        if z3.is_false(c):
            return [(False, s)]
        nc = Not(c)
        ft, m1 = self.feasible_m(s, c)
        ff, m2 = self.feasible_m(s, nc) if ft else (True, None)
        if not ft and not ff:
            return []
        if not ff:
            s.assume(c)
            if m1 is not None:
                s.aux['model'] = (m1, len(s.pc))
            return [(True, s)]
        if not ft:
            s.assume(nc)
            return [(False, s)]
        s2 = s.copy()
        ln = n_line(n) if n else 0
        s.assume(c)
        s.trace.append((ln, True))
        s2.assume(nc)
        s2.trace.append((ln, False))
        if m1 is not None:
            s.aux['model'] = (m1, len(s.pc))
        if m2 is not None:
            s2.aux['model'] = (m2, len(s2.pc))
        return [(True, s), (False, s2)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n, st)

    def ev1(self, n, st):
        r = self.ev(n, st)
        return r

    def ev_ParenExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_ConstantExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_IntegerLiteral(self, n, st):
        return [(Val(int(n['value']), self.prog.ptype(n)), st)]

    def ev_CharacterLiteral(self, n, st):
        v = n['value']
        if v >= 1 << 31:
            v -= 1 << 32
        return [(Val(int(v), INT), st)]

    def ev_FloatingLiteral(self, n, st):
        return [(self.fresh_val(st, ('float',), 'f'), st)]

    def ev_ImplicitValueInitExpr(self, n, st):
        return [(Val(0, self.prog.ptype(n)), st)]

    def ev_StringLiteral(self, n, st):
        return [(self.load(st, l), s) for l, s in self.lv(n, st)]

    def ev_PredefinedExpr(self, n, st):
        return [(self.load(st, l), s) for l, s in self.lv(n, st)]

    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return [(Val(self.enum_value(d), INT), st)]
        if d['kind'] == 'FunctionDecl':
            return [(Val(self.func_addr(d['name']), ('ptr', ('func', VOID))), st)]
        return [(self.load(s, l), s) for l, s in self.lv(n, st)]

    def func_addr(self, name):
        return self.gaddr.setdefault('fn:' + name, GLOBAL_BASE + (1 << 43) + len(self.gaddr) * 16)

    def enum_value(self, d):
        return self.view.enums[d['name']]

    def ev_MemberExpr(self, n, st):
        return [(self.load(s, l), s) for l, s in self.lv(n, st)]

    ev_ArraySubscriptExpr = ev_MemberExpr

    def ev_ImplicitCastExpr(self, n, st):
        return self.cast(n, st, n['inner'][0])

    def ev_CStyleCastExpr(self, n, st):
        c = strip(n['inner'][-1])
        if c.get('kind') == 'CallExpr':
            f = strip(c['inner'][0])
            if f.get('kind') == 'DeclRefExpr' and f['referencedDecl']['name'] in ('malloc', 'calloc', 'realloc'):
                self.alloc_ty = self.prog.ptype(n)
        return self.cast(n, st, n['inner'][-1])

    def cast(self, n, st, sub_):
        ck = n['castKind']
        ty = self.prog.ptype(n)
        if ck == 'LValueToRValue':
            return [(self.load(s, l), s) for l, s in self.lv(sub_, st)]
        if ck == 'ArrayToPointerDecay':
            return [(self.decay(l) if l.k == 'arr' else Val(l.idx, ty), s) for l, s in self.lv(sub_, st)]
        if ck == 'FunctionToPointerDecay':
            return self.ev(sub_, st)
        if ck in ('NoOp',):
            return [(Val(v.t, ty if ty[0] != 'rec' else v.ty, v.prov, v.b), s) for v, s in self.ev(sub_, st)]
        if ck == 'BitCast':
            return [(Val(v.t, ty, v.prov, v.b), s) for v, s in self.ev(sub_, st)]
        if ck == 'NullToPointer':
            return [(Val(0, ty), st)]
        if ck == 'IntegralCast':
            out = []
            for v, s in self.ev(sub_, st):
                if v.t is None and ty[0] == 'int':
                    out.append((Val(None, ty, b=v.b), s))
                else:
                    out.append((Val(self.conv_int(v.i(), v.ty, ty), ty), s))
            return out
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(Val(None, ty, b=v.bool()), s) for v, s in self.ev(sub_, st)]
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return [(Val(v.i(), ty), s) for v, s in self.ev(sub_, st)]
        if ck == 'ToVoid':
            return [(Val(0, VOID), s) for v, s in self.ev(sub_, st)]
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            return [(self.fresh_val(s, ty, 'fl'), s) for v, s in self.ev(sub_, st)]
        if ck == 'BuiltinFnToFnPtr':
            return self.ev(sub_, st)
        raise Unsupported('cast ' + ck)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n['name'] != 'sizeof':
            return [(Val(8, ULONG), st)]
        if 'argType' in n:
            t = self.T.parse(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else:
            t = self.prog.ptype(strip_par(n['inner'][0]))
        return [(Val(self.T.size(t), ULONG), st)]

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']
        ty = self.prog.ptype(n)
        ln = n_line(n)
        e = n['inner'][0]
        if op == '&':
            out = []
            for l, s in self.lv(e, st):
                out.append((self.addr_of(l, ty), s))
            return out
        if op == '*':
            return [(self.load(s, l), s) for l, s in self.lv(n, st)]
        if op == '!':
            return [(BV(Not(v.bool())), s) for v, s in self.ev(e, st)]
        if op == '-':
            return [(Val(self.wrap(s, sub(0, v.i()), ty, ln, '-'), ty), s) for v, s in self.ev(e, st)]
        if op == '+' or op == '__extension__':
            return self.ev(e, st)
        if op == '~':
            out = []
            for v, s in self.ev(e, st):
                t = v.i()
                if isc(t):
                    r = ~int(t)
                    if ty[0] == 'int' and not ty[2]:
                        r &= (1 << ty[1]) - 1
                    out.append((Val(r, ty), s))
                else:
                    r = sub(-1, t) if ty[2] else sub((1 << ty[1]) - 1, t)
                    out.append((Val(r, ty), s))
            return out
        if op in ('++', '--'):
            out = []
            for l, s in self.lv(e, st):
                v = self.load(s, l)
                o = '+' if op == '++' else '-'
                nv = self.binop(s, o, v, Val(1, INT), l.ty, ln)
                nv = Val(nv.i() if nv.t is not None or nv.b is not None else nv.t, l.ty, nv.prov)
                if l.ty[0] == 'int' and l.ty[1] < 32:
                    nv = Val(self.conv_int(nv.i(), INT, l.ty), l.ty)
                self.store(s, l, nv)
                out.append((v if n.get('isPostfix') else nv, s))
            return out
        raise Unsupported('unary ' + op)

    def addr_of(self, l, ty):
        if l.k == 'rec':
            return Val(l.idx, ty)
        if l.k == 'arr':
            return Val(l.idx, ty)
        if l.k == 'func':
            return Val(self.func_addr(l.key) if l.key else l.idx, ty)
        if l.k == 'mem':
            key = l.key
            if key.startswith('*out:'):
                return Val(z3.Int('arg:' + key[5:]), ty, (key, l.idx))
            if key.startswith('*'):
                return Val(l.idx, ty)
            if key.startswith('%'):
                a = int(key.rsplit('@', 1)[1])
                return Val(a, ty, (key, l.idx))
            if key.startswith('@'):
                a = self.gaddr.setdefault(key, GLOBAL_BASE + (1 << 42) + len(self.gaddr) * (1 << 20))
                if key.endswith('[]'):
                    return Val(l.idx, ty, (key, l.idx))
                return Val(a, ty, (key, l.idx))
            if key.endswith('[]'):
                return Val(l.idx, ty, (key, l.idx))
            tag, f = key.split('.', 1)
            return Val(add(l.idx, self.T.layout(tag)[0][f][0]), ty, (key, l.idx))
        raise Unsupported('address of register variable')

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner']
        ty = self.prog.ptype(n)
        ln = n_line(n)
        if op == '=':
            out = []
            for v, s in self.ev(b, st):
                for l, s2 in self.lv(a, s):
                    if v.ty[0] == 'rec' or l.k == 'rec':
                        self.store(s2, l, v)
                        out.append((Val(l.idx, l.ty), s2))
                    else:
                        v2 = Val(v.t, l.ty, v.prov, v.b)
                        self.store(s2, l, v2)
                        out.append((v2, s2))
            return out
        if op == ',':
            out = []
            for _, s in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op in ('&&', '||'):
            if is_pure(n) and not self.view.watch_loads:
                out = []
                for va, s in self.ev(a, st):
                    ba = va.bool()
                    if ba is (op == '||'):
                        out.append((BV(ba), s))
                        continue
                    # facts produced while evaluating b are type facts only
                    for vb, s2 in self.ev(b, s):
                        out.append((BV(And(ba, vb.bool()) if op == '&&' else Or(ba, vb.bool())), s2))
                return out
            return [(BV(x), s) for x, s in self.split(n, st)]
        if op == '&':
            r = self.ctype_test(n, st)
            if r is not None:
                return r
        out = []
        for va, s in self.ev(a, st):
            for vb, s2 in self.ev(b, s):
                out.append((self.binop(s2, op, va, vb, ty, ln), s2))
        return out

    def ctype_test(self, n, st):
        """(*__ctype_b_loc())[c] & mask  ->  character class predicate"""
        a, b = n['inner']
        s = strip(a)
        if s.get('kind') != 'ArraySubscriptExpr':
            return None
        base = strip(s['inner'][0])
        if base.get('kind') == 'UnaryOperator' and base['opcode'] == '*':
            c = strip(base['inner'][0])
            if c.get('kind') == 'CallExpr' and strip(c['inner'][0]).get('referencedDecl', {}).get('name') == '__ctype_b_loc':
                out = []
                for vm, s0 in self.ev(b, st):
                    for vi, s1 in self.ev(s['inner'][1], s0):
                        m = vm.i()
                        out.append((BV(self.ctype_pred(s1, m, vi.i())), s1))
                return out
        return None

    def ctype_pred(self, st, mask, c):
        name = {2048: 'digit', 8192: 'space', 512: 'lower', 256: 'upper', 8: 'alnum', 4: 'punct', 1024: 'alpha',
                16384: 'print', 4096: 'xdigit', 2: 'cntrl', 1: 'blank', 32768: 'graph'}.get(mask)
        if name is None:
            return fresh_bool('ctype')
        R = {'digit': [(48, 57)], 'space': [(9, 13), (32, 32)], 'lower': [(97, 122)], 'upper': [(65, 90)],
             'alnum': [(48, 57), (65, 90), (97, 122)], 'alpha': [(65, 90), (97, 122)],
             'punct': [(33, 47), (58, 64), (91, 96), (123, 126)], 'print': [(32, 126)], 'graph': [(33, 126)],
             'cntrl': [(0, 31), (127, 127)], 'blank': [(9, 9), (32, 32)],
             'xdigit': [(48, 57), (65, 70), (97, 102)]}[name]
        if isc(c):
            return any(lo <= c <= hi for lo, hi in R)
        self.assumptions.add('character classes are those of the C/POSIX (and UTF-8) locales')
        return Or(*[And(c >= lo, c <= hi) if lo != hi else c == lo for lo, hi in R])

    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = n['inner']
        ty = self.prog.ptype(n)
        cty = self.T.parse(n.get('computeResultType', n['type']).get('desugaredQualType') or
                           n.get('computeResultType', n['type'])['qualType'])
        lty = self.T.parse(n.get('computeLHSType', n['type']).get('desugaredQualType') or
                           n.get('computeLHSType', n['type'])['qualType'])
        out = []
        for vb, s in self.ev(b, st):
            for l, s2 in self.lv(a, s):
                v = self.load(s2, l)
                if l.ty[0] == 'int' and lty[0] == 'int':
                    va = Val(self.conv_int(v.i(), l.ty, lty), lty)
                else:
                    va = v
                r = self.binop(s2, op, va, vb, cty if l.ty[0] != 'ptr' else l.ty, n_line(n))
                if l.ty[0] == 'int':
                    r = Val(self.conv_int(r.i(), cty, l.ty), l.ty)
                else:
                    r = Val(r.i(), l.ty, r.prov)
                self.store(s2, l, r)
                out.append((r, s2))
        return out

    def ev_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        if is_pure(n) and not self.view.watch_loads and not self.view.check_overflow:
            out = []
            for vc, s in self.ev(c, st):
                bc = vc.bool()
                if bc is True or bc is False:
                    out += self.ev(a if bc else b, s)
                    continue
                for va, s1 in self.ev(a, s):
                    for vb, s2 in self.ev(b, s1):
                        prov = va.prov if va.prov == vb.prov else None
                        ty = self.prog.ptype(n)
                        if va.ty[0] == 'rec':
                            raise Unsupported('conditional record')
                        if va.prov != vb.prov and (va.prov or vb.prov):
                            for x, s3 in self.fork(bc, s2, n):
                                out.append((va if x else vb, s3))
                            continue
                        if va.t is None and vb.t is None:
                            out.append((Val(None, ty, b=Ite_b(bc, va.b, vb.b)), s2))
                        else:
                            out.append((Val(Ite(bc, va.i(), vb.i()), ty, prov), s2))
            return out
        out = []
        for x, s in self.split(c, st):
            out += self.ev(a if x else b, s)
        return out

    def ev_StmtExpr(self, n, st):
        body = n['inner'][0]
        items = body.get('inner', [])
        outs = [Outcome('normal', st)]
        for i, it in enumerate(items):
            last = i == len(items) - 1
            nxt = []
            for o in outs:
                if last and not it['kind'].endswith('Stmt'):
                    return [(v, s) for o2 in outs for v, s in self.ev(it, o2.st)]
                nxt += self.stmt(it, o.st)
            if any(o.kind != 'normal' for o in nxt):
                raise Unsupported('jump out of statement expression')
            outs = nxt
        return [(Val(0, VOID), o.st) for o in outs]

    def ev_InitListExpr(self, n, st):
        raise Unsupported('init list value')

    def ev_CompoundLiteralExpr(self, n, st):
        return [(self.load(s, l), s) for l, s in self.lv(n, st)]

    def ev_VAArgExpr(self, n, st):
        return [(self.fresh_val(st, self.prog.ptype(n), 'va'), st)]

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, n, st):
        callee = n['inner'][0]
        argn = n['inner'][1:]
        c = strip(callee)
        name = None
        if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl':
            name = c['referencedDecl']['name']
        states = [([], st)]
        fnv = None
        if name is None:
            states = [([v], s) for v, s in self.ev(callee, st)]
        for a in argn:
            nx = []
            for vs, s in states:
                for v, s2 in self.ev(a, s):
                    nx.append((vs + [v], s2))
            states = nx
        out = []
        for vs, s in states:
            out += self.call(name, vs if name else vs[1:], s, n, argn, vs[0] if not name else None)
        return out

    def call(self, name, args, st, n, argn, fnval=None):
        ty = self.prog.ptype(n)
        line = n_line(n)
        h = self.view.on_call(self, name, args, st, n)
        if h is not None:
            return h
        if name is None:
            name = self.resolve_fnptr(fnval)
        if name is None:
            r = self.view.fnptr_call(self, args, st, n, fnval)
            if r is not None:
                return r
            keys = set()
            for f in self.ms.fnptr_targets():
                keys |= self.ms.of_func(f)
            self.havoc_keys(st, keys)
            self.assumptions.add('indirect call at line %d forgets everything its possible targets may write' % line)
            return [(self.fresh_val(st, ty, 'fnptr'), st)]
        ct = self.view.contracts.get(name)
        if ct is not None and not (name == self.cur and not self.stack and False):
            return self.apply_contract(ct, name, args, st, n, argn, ty)
        if name in EXT and name not in self.prog.funcs:
            r = EXT[name](self, st, args, n, ty)
            if r is not None:
                return r
        if name in self.prog.funcs:
            fn = self.prog.funcs[name]
            if self.view.should_inline(self, name) and name not in self.stack and len(self.stack) < 8:
                return self.inline(fn, args, st, n)
            return self.auto_call(name, args, st, n, argn, ty)
        return self.ext_call(name, args, st, n, argn, ty)

    def resolve_fnptr(self, v):
        if v is not None and isc(v.i()):
            for k, a in self.gaddr.items():
                if k.startswith('fn:') and a == v.i():
                    return k[3:]
        return None

    def ext_call(self, name, args, st, n, argn, ty):
        """library function without a model: result unknown; non-const pointees forgotten"""
        self.view.externals.add(name)
        keys = set()
        self.ms._collecting = False
        self.ms._call(n, keys, None)
        self.havoc_args(st, args, keys)
        return [(self.fresh_val(st, ty, name) if ty != VOID else Val(0, VOID), st)]

    def havoc_args(self, st, args, keys):
        """out-parameters with known provenance are forgotten cell-wise"""
        provs = [a.prov for a in args if a is not None and a.prov is not None]
        done = set()
        for p in provs:
            if p[0].endswith('[]'):
                continue
            if any(k == p[0] for k, _ in keys) or p[0].startswith('%') or p[0].startswith('@') or p[0].startswith('*out:'):
                self.havoc_cell(st, p[0], p[1])
                done.add(p[0])
        self.havoc_keys(st, {(k, q) for (k, q) in keys if k not in done and k != 'L'})

    def havoc_cell(self, st, key, idx):
        t = fresh('hv')
        fty = self.key_type(key)
        if fty:
            self.range_fact(st, t, fty)
        self.wr(st, key, idx, t)

    def key_type(self, key):
        if key.startswith('*'):
            return {'*8': CHAR, '*16': ('int', 16, True), '*32': INT, '*64': LONG, '*ptr': ('ptr', VOID)}.get(key)
        if '.' in key and key[0] not in '@%':
            tag, f = key.split('.', 1)
            f = f.rstrip('[]')
            try:
                t = self.T.layout(tag)[0][f][1]
                return t[1] if t[0] == 'arr' else t
            except KeyError:
                return None
        return None

    def havoc_keys(self, st, keys):
        ks = {}
        for k, p in keys:
            if k == 'L':
                continue
            ks.setdefault(k, set()).add(p)
        self._havoc_ghosts(st, ks)
        cells = []
        for k, ps in ks.items():
            if None in ps:
                continue
            for p in ps:
                cells.append((k, self.path_addr(st, p)))
        if '@alloc' in ks:
            del ks['@alloc']
            for t in self.view.track_alive:
                k = '@alive:' + t
                if k not in ks:
                    old = self.mem(st, k).z()
                    new = fresh_arr('Hv:' + k)
                    st.heap[k] = Mem(new)
                    x = z3.Int('ax')
                    st.assume(z3.ForAll([x], z3.Implies(old[x] == 1, new[x] == 1), patterns=[new[x]]))
        for k, ps in ks.items():
            if None in ps:
                nm = k
                st.heap[k] = Mem(fresh_arr('Hv:' + nm))
                if k.startswith('@') and not k.endswith('[]'):
                    gt = self.prog.globals.get(k[1:])
                    t = fresh('hv')
                    if gt:
                        self.range_fact(st, t, self.T.parse(gt))
                    st.heap[k] = Mem(st.heap[k].base, ((0, t),))
        for k, a in cells:
            self.havoc_cell(st, k, a)

    def _havoc_ghosts(self, st, ks):
        for g, deps in self.view.ghost_deps.items():
            if g in st.gh and any(d in ks for d in deps):
                self.havoc_ghost(st, g)

    def havoc_ghost(self, st, g):
        v = st.gh[g]
        if z3.is_array(v) if not isc(v) else False:
            st.gh[g] = z3.Const('%s!%d' % (g, next(sym._fresh)), v.sort())
        else:
            st.gh[g] = z3.Const('%s!%d' % (g, next(sym._fresh)), v.sort() if not isc(v) else IntS)

    def auto_call(self, name, args, st, n, argn, ty):
        keys = set(self.ms.of_func(name))
        self.ms._collecting = False
        extra = set()
        fn = self.prog.funcs[name]
        for a, p in zip(argn, fn.params):
            if 'const' in p['type']['qualType'].split('*')[0]:
                continue
            self.ms._addr_arg(a, extra)
        pre = st.copy()
        self.havoc_args(st, args, keys | {x for x in extra if x[0] != 'L'})
        for a in args:
            if a.prov is not None and a.prov[0].startswith('%'):
                self.havoc_cell(st, a.prov[0], a.prov[1])
        self.view.after_auto(self, name, args, pre, st, n)
        v = self.fresh_val(st, ty, name) if ty != VOID else Val(0, VOID)
        if self.ms_noreturn(name):
            return []
        return [(v, st)]

    def ms_noreturn(self, name):
        return name in ('quit', 'script_die')

    def apply_contract(self, ct, name, args, st, n, argn, ty):
        line = n_line(n)
        pre = st.copy()
        c0 = Ctx(self, args, pre, mode='call')
        for nm, f in ct.requires(c0):
            self.oblige(st, 'precondition of %s: %s' % (name, nm), f, line, 'pre')
            st.assume(f)
            pre.assume(f)
        if ct.noreturn:
            return []
        if ct.assigns == 'auto':
            keys = set(self.ms.of_func(name)) if name in self.prog.funcs else set()
            fn = self.prog.funcs.get(name)
            extra = set()
            if fn:
                for a, p in zip(argn, fn.params):
                    if 'const' in p['type']['qualType'].split('*')[0]:
                        continue
                    self.ms._addr_arg(a, extra)
            self.havoc_args(st, args, keys | {x for x in extra if x[0] != 'L'})
            for a in args:
                if a.prov is not None and a.prov[0].startswith('%'):
                    self.havoc_cell(st, a.prov[0], a.prov[1])
        else:
            cells = ct.assigns(c0) if callable(ct.assigns) else ct.assigns
            self._havoc_ghosts(st, {k: 1 for k, i in cells})
            for k, i in cells:
                if i is None:
                    st.heap[k] = Mem(fresh_arr('Hv:' + k))
                else:
                    self.havoc_cell(st, k, i)
        for g in ct.ghost_mod:
            self.havoc_ghost(st, g)
        v = self.fresh_val(st, ty, name) if ty != VOID else Val(0, VOID)
        c1 = Ctx(self, args, pre, st, v.i() if ty != VOID else None, mode='call')
        c1.retval = v
        for nm, f in ct.ensures(c1):
            st.assume(f)
        for f in ct.frame(c1):
            st.assume(f)
        if ct.at_call:
            return ct.at_call(self, c1, v, st)
        return [(v, st)]

    def inline(self, fn, args, st, n):
        self.stack.append(fn.name)
        keep = set(st.vars)
        try:
            st.aux['memloc'] = dict(st.aux.get('memloc', {}))
            self.bind_params(fn, args, st)
            outs = self.stmt(fn.body, st)
            res = []
            rty = self.T.parse(fn.ret)
            for o in outs:
                if o.kind == 'return':
                    v = o.val
                    if v is None:
                        v = Val(0, VOID)
                    res.append((v, o.st))
                elif o.kind == 'normal':
                    res.append((self.fresh_val(o.st, rty, 'noret') if rty != VOID else Val(0, VOID), o.st))
                else:
                    raise Unsupported('outcome %s of inlined %s' % (o.kind, fn.name))
            for v, s in res:
                s.vars = {k: x for k, x in s.vars.items() if k in keep}
            return res
        finally:
            self.stack.pop()

    def bind_params(self, fn, args, st):
        at = self.addr_taken_of(fn)
        for p, a in zip(fn.params, args):
            ty = self.prog.ptype(p)
            if ty[0] == 'arr':
                ty = ('ptr', ty[1])
            if p['id'] in at:
                ad = self.new_local_addr()
                st.aux['memloc'][p['id']] = ad
                self.store(st, LV('mem', '%%%s@%s' % (p.get('name', '?'), ad), 0, ty), a)
                self.memty[ad] = ('%%%s@%s' % (p.get('name', '?'), ad), ty)
            else:
                st.vars[p['id']] = Val(a.t, ty, a.prov, a.b)

    def addr_taken_of(self, fn):
        r = self.addr_taken.get(fn.name)
        if r is None:
            r = set()

            def w(n):
                if n.get('kind') == 'UnaryOperator' and n['opcode'] == '&':
                    e = strip_par(n['inner'][0])
                    while e.get('kind') == 'MemberExpr' and not e.get('isArrow'):
                        e = strip_par(e['inner'][0])
                    if e.get('kind') == 'DeclRefExpr':
                        r.add(e['referencedDecl']['id'])
                for c in n.get('inner', []):
                    if c:
                        w(c)
            w(fn.body)
            self.addr_taken[fn.name] = r
        return r

    # ------------------------------------------------------------ statements
    def jumps(self, n, depth=0):
        """does control leave this statement other than by falling through (or may it not return)"""
        k = n.get('kind')
        if k in ('ReturnStmt', 'GotoStmt', 'LabelStmt'):
            return True
        if k in ('BreakStmt', 'ContinueStmt') and depth == 0:
            return True
        d = 1 if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt') else 0
        return any(self.jumps(c, depth + d) for c in n.get('inner', []) if c)

    def can_skip(self, n):
        r = self.__dict__.setdefault('_skip', {}).get(id(n))
        if r is None:
            self.ms._collecting = False
            ks = {k for k, p in self.ms.of_node(n)}
            r = not (ks & self.view.coarse) and not self.jumps(n)
            self._skip[id(n)] = r
        return r

    def skip(self, n, st):
        """a statement that cannot touch what the view is about: forget what it may write"""
        self.ms._collecting = False
        mods = self.ms.of_node(n)
        self.forget(st, {i for k, i in mods if k == 'L'}, {(k, p) for k, p in mods if k != 'L'})
        self.nskip = getattr(self, 'nskip', 0) + 1
        return [Outcome('normal', st)]

    def forget(self, st, locs, keys):
        for i in locs:
            if i in st.vars:
                v = st.vars[i]
                ml = st.aux.get('memloc', {}).get(i)
                if ml is not None:
                    self.havoc_local_mem(st, i, ml, v)
                    continue
                nv = self.fresh_val(st, v.ty, 'lv')
                if v.prov is not None and v.ty[0] == 'ptr' and v.prov[0].endswith('[]'):
                    nv.prov = (v.prov[0], nv.t)
                st.vars[i] = nv
        ks = {k for k, p in keys}
        done = set()
        for i, v in list(st.vars.items()):
            # cells reached through pointers that are kept apart from the memory of their type
            if v.prov is not None and v.ty[0] == 'ptr' and tykey(v.ty[1]) in ks and (v.prov[0][0] == '%' or v.prov[0].startswith('*out:')):
                if (v.prov[0], str(v.prov[1])) not in done:
                    done.add((v.prov[0], str(v.prov[1])))
                    t = fresh('oc')
                    self.range_fact(st, t, v.ty[1])
                    self.wr(st, v.prov[0], v.prov[1], t)
        self.havoc_keys(st, keys)

    def stmt(self, n, st):
        k = n['kind']
        if n.get('ln'):
            self.curline = n['ln']
        if self.view.coarse and k in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt') and self.can_skip(n):
            return self.skip(n, st)
        m = getattr(self, 'st_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        return [Outcome('normal', s) for v, s in self.ev(n, st)]

    def st_NullStmt(self, n, st):
        return [Outcome('normal', st)]

    def st_CompoundStmt(self, n, st):
        return self.seq(n.get('inner', []), 0, [st])

    def labels_in(self, n):
        r = set()

        def w(x):
            if x.get('kind') == 'LabelStmt':
                r.add(x['declId'])
            for c in x.get('inner', []):
                if c:
                    w(c)
        w(n)
        return r

    def gotos_in(self, n):
        r = set()

        def w(x):
            if x.get('kind') == 'GotoStmt':
                r.add(x['targetLabelDeclId'])
            for c in x.get('inner', []):
                if c:
                    w(c)
        w(n)
        return r

    def seq(self, items, i, states):
        """execute items[i:] from each state; forward gotos wait at their label"""
        outs = []
        cur = list(states)
        pend = {}
        enter = {}

        def route(o, frm):
            if o.kind == 'goto':
                q2 = [q for q in range(frm, len(items)) if items[q]['kind'] == 'LabelStmt'
                      and items[q]['declId'] == o.val]
                if q2:
                    pend.setdefault(q2[0], []).append(o.st)
                    return
                for q in range(frm, len(items)):
                    if items[q]['kind'] in ('ForStmt', 'WhileStmt') and self.body_label(items[q], o.val) is not None:
                        enter.setdefault((q, o.val), []).append(o.st)
                        pend.setdefault(q, [])
                        return
            outs.append(o)
        while i < len(items):
            if i in pend:
                cur = self.maybe_merge(cur + pend.pop(i))
            ent = [k for k in enter if k[0] == i]
            if ent:
                nxt = []
                for k in ent:
                    for s in self.maybe_merge(enter.pop(k)):
                        for o in self.enter_loop(items[i], k[1], s):
                            if o.kind == 'normal':
                                nxt.append(o.st)
                            else:
                                route(o, i + 1)
                if nxt:
                    pend[i + 1] = pend.get(i + 1, []) + nxt
            if not cur:
                if not pend:
                    return outs
                i = min(pend)
                continue
            it = items[i]
            nxt = []
            if it['kind'] == 'LabelStmt':
                lid = it['declId']
                js = [q for q in range(i, len(items)) if lid in self.gotos_in(items[q])]
                if js:
                    # backward goto: the items up to its last occurrence are a loop
                    j = max(js)
                    body = [it['inner'][0]] + items[i + 1:j + 1]
                    for s in cur:
                        for o in self.loop_generic(s, items[i:j + 1], lambda s2: self._goto_iter(body, lid, s2), 'goto'):
                            if o.kind == 'normal':
                                nxt.append(o.st)
                            else:
                                route(o, j + 1)
                    cur = self.maybe_merge(nxt)
                    i = j + 1
                    continue
            for s in cur:
                for o in self.stmt(it, s):
                    if o.kind == 'normal':
                        nxt.append(o.st)
                    else:
                        route(o, i + 1)
            cur = self.maybe_merge(nxt)
            i += 1
        return outs + [Outcome('normal', s) for s in cur]

    def body_label(self, n, lid):
        body = n['inner'][-1]
        if body['kind'] != 'CompoundStmt':
            return None
        for q, x in enumerate(body.get('inner', [])):
            if x['kind'] == 'LabelStmt' and x['declId'] == lid:
                return q
        return None

    def enter_loop(self, n, lid, st):
        """control jumps to a label inside the body of a loop"""
        body = n['inner'][-1]
        q = self.body_label(n, lid)
        heads, outs = [], []
        inc = n['inner'][3] if n['kind'] == 'ForStmt' else None
        for o in self.seq(body['inner'], q, [st]):
            if o.kind in ('normal', 'continue'):
                if inc is not None and inc.get('kind'):
                    heads += [s for v, s in self.ev(inc, o.st)]
                else:
                    heads.append(o.st)
            elif o.kind == 'break':
                outs.append(Outcome('normal', o.st))
            else:
                outs.append(o)
        for h in self.maybe_merge(heads):
            if n['kind'] == 'ForStmt':
                cond = n['inner'][2]
                outs += self.loop(n, h, cond if cond and cond.get('kind') else None, body,
                                  inc if inc and inc.get('kind') else None, False)
            else:
                outs += self.stmt(n, h)
        return outs

    def _goto_iter(self, body, lid, st):
        backs, outs = [], []
        for o in self.seq(body, 0, [st]):
            if o.kind == 'goto' and o.val == lid:
                backs.append(o.st)
            else:
                outs.append(o)
        return self.maybe_merge(backs), outs

    def st_LabelStmt(self, n, st):
        return self.stmt(n['inner'][0], st)

    def st_GotoStmt(self, n, st):
        return [Outcome('goto', st, n['targetLabelDeclId'])]

    def st_DeclStmt(self, n, st):
        states = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            nx = []
            for s in states:
                nx += self.vardecl(d, s)
            states = nx
        return [Outcome('normal', s) for s in states]

    def vardecl(self, d, st):
        ty = self.prog.ptype(d)
        i = d['id']
        if d.get('storageClass') in ('static', 'extern'):
            return [st]
        init = None
        for c in d.get('inner', []):
            if c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment'):
                init = c
        fn = self.prog.funcs.get(self.stack[-1] if self.stack else self.cur)
        mem = ty[0] in ('rec', 'arr') or i in self.addr_taken_of(fn)
        if mem:
            ad = self.new_local_addr()
            st.aux['memloc'] = dict(st.aux.get('memloc', {}))
            st.aux['memloc'][i] = ad
            st.vars[i] = Val(ad, ('ptr', ty))
            if self.view.all_memlocs and ty[0] in ('int', 'ptr'):
                self.memty[ad] = ('%%%s@%s' % (d['name'], ad), ty)
        if init is None or d.get('init') is None:
            if not mem:
                st.vars[i] = self.fresh_val(st, ty, d['name'])
            return [st]
        if ty[0] == 'rec':
            if strip_par(init)['kind'] == 'InitListExpr':
                return self.init_rec(init, ty, st.aux['memloc'][i], st)
            out = []
            for v, s in self.ev(init, st):
                self.copy_rec(s, ty[1], s.aux['memloc'][i], v.t)
                out.append(s)
            return out
        if ty[0] == 'arr':
            self.init_arr(init, ty, st.aux['memloc'][i], st)
            return [st]
        out = []
        for v, s in self.ev(init, st):
            if mem:
                self.store(s, LV('mem', '%%%s@%s' % (d['name'], s.aux['memloc'][i]), 0, ty), v)
                self.memty[s.aux['memloc'][i]] = ('%%%s@%s' % (d['name'], s.aux['memloc'][i]), ty)
            else:
                s.vars[i] = Val(v.t, ty, v.prov, v.b)
            out.append(s)
        return out

    def init_rec(self, init, ty, addr, st):
        offs = list(self.T.layout(ty[1])[0].items())
        its = init.get('inner', [])
        states = [st]
        for (f, (o, t)), e in zip(offs, its):
            if t[0] in ('rec', 'arr'):
                continue
            nx = []
            for s in states:
                for v, s2 in self.ev(e, s):
                    self.wr(s2, '%s.%s' % (ty[1], f), addr, v.i())
                    nx.append(s2)
            states = nx
        return states

    def init_arr(self, init, ty, addr, st):
        if init['kind'] == 'InitListExpr' and ty[1][0] in ('int', 'ptr'):
            key = tykey(ty[1])
            its = init.get('inner', init.get('array_filler', []))
            sz = self.T.size(ty[1])
            for j, e in enumerate(its):
                if e.get('kind') == 'ImplicitValueInitExpr':
                    continue
                r = self.ev(e, st)
                if len(r) == 1:
                    self.wr(st, key, addr + j * sz, r[0][0].i())

    def const_tables(self, st, names):
        """contents of file-scope constant arrays (initialised, declared const, written nowhere)"""
        for g in names:
            if g not in self.prog.static_globals_init:
                continue
            d = self.prog.static_globals_init[g][0]
            q = d['type'].get('desugaredQualType') or d['type']['qualType']
            q0 = d['type']['qualType']
            if 'const' not in q0 and 'const' not in q:
                continue
            ty = self.prog.ptype(d)
            init = strip_par(d['inner'][-1])
            if ty[0] != 'arr' or init['kind'] != 'InitListExpr' or ty[1][0] not in ('int', 'ptr'):
                continue
            lv = self.lv_decl(d, ty, st)
            sz = self.T.size(ty[1])
            for j, e in enumerate(init.get('inner', init.get('array_filler', []))):
                if e.get('kind') == 'ImplicitValueInitExpr':
                    continue
                r = self.ev(e, st)
                if len(r) == 1:
                    self.wr(st, lv.key, lv.idx + j * sz, r[0][0].i())

    def st_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [Outcome('return', st, None)]
        return [Outcome('return', s, v) for v, s in self.ev(n['inner'][0], st)]

    def st_BreakStmt(self, n, st):
        return [Outcome('break', st)]

    def st_ContinueStmt(self, n, st):
        return [Outcome('continue', st)]

    def st_IfStmt(self, n, st):
        inner = n['inner']
        cond = inner[0]
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        outs = []
        for b, s in self.split(cond, st):
            if b:
                outs += self.stmt(then, s)
            elif els is not None:
                outs += self.stmt(els, s)
            else:
                outs.append(Outcome('normal', s))
        return outs

    def st_SwitchStmt(self, n, st):
        inner = n['inner']
        cond, body = inner[0], inner[-1]
        # flatten
        seqs = []

        def flat(x, labs):
            if x['kind'] == 'CaseStmt':
                v = self.const_of(x['inner'][0])
                flat(x['inner'][-1], labs + [v])
            elif x['kind'] == 'DefaultStmt':
                flat(x['inner'][-1], labs + ['default'])
            else:
                seqs.append((labs, x))
        for c in body.get('inner', []):
            flat(c, [])
        items = [x for _, x in seqs]
        allc = [l for labs, _ in seqs for l in labs if l != 'default']
        outs = []
        for v, s in self.ev(cond, st):
            t = v.i()
            rest = s
            alive = True
            for idx, (labs, _) in enumerate(seqs):
                cs = [l for l in labs if l != 'default']
                if not cs or not alive:
                    continue
                c = Or(*[cmp('==', t, l) for l in cs])
                fr = self.fork(c, rest, n)
                alive = False
                for b, s2 in fr:
                    if b:
                        outs += self._switch_from(items, idx, s2)
                    else:
                        rest = s2
                        alive = True
            if alive:
                di = [i for i, (labs, _) in enumerate(seqs) if 'default' in labs]
                if di:
                    outs += self._switch_from(items, di[0], rest)
                else:
                    outs.append(Outcome('normal', rest))
        norm = [o.st for o in outs if o.kind == 'normal']
        oth = [o for o in outs if o.kind != 'normal']
        return oth + [Outcome('normal', s) for s in self.maybe_merge(norm)]

    def _switch_from(self, items, idx, st):
        r = []
        for o in self.seq(items, idx, [st]):
            if o.kind == 'break':
                r.append(Outcome('normal', o.st))
            else:
                r.append(o)
        return r

    def const_of(self, n):
        if n['kind'] == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        r = self.ev(n, State())
        return int(r[0][0].i())

    # ------------------------------------------------------------ loops
    def st_WhileStmt(self, n, st):
        cond, body = n['inner'][0], n['inner'][-1]
        return self.loop(n, st, cond, body, None, False)

    def st_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        c = strip(cond)
        if c.get('kind') == 'IntegerLiteral' and int(c['value']) == 0:
            outs = []
            for o in self.stmt(body, st):
                if o.kind in ('break', 'continue'):
                    outs.append(Outcome('normal', o.st))
                else:
                    outs.append(o)
            return outs
        return self.loop(n, st, cond, body, None, True)

    def st_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        states = [st]
        if init and init.get('kind'):
            states = [o.st for o in self.stmt(init, st)]
        outs = []
        for s in states:
            outs += self.loop(n, s, cond if cond and cond.get('kind') else None, body,
                              inc if inc and inc.get('kind') else None, False)
        return outs

    def one_iter(self, st, cond, body, inc, isdo):
        """one iteration from the loop head: (states back at the head, other outcomes)"""
        backs, outs = [], []
        if not isdo and cond is not None:
            starts = []
            for b, s in self.split(cond, st):
                if b:
                    starts.append(s)
                else:
                    outs.append(Outcome('normal', s))
        else:
            starts = [st]
        conts = []
        for s in starts:
            for o in self.stmt(body, s):
                if o.kind in ('normal', 'continue'):
                    conts.append(o.st)
                elif o.kind == 'break':
                    outs.append(Outcome('normal', o.st))
                else:
                    outs.append(o)
        conts = self.maybe_merge(conts)
        if isdo:
            for s in conts:
                for b, s2 in self.split(cond, s):
                    if b:
                        backs.append(s2)
                    else:
                        outs.append(Outcome('normal', s2))
        else:
            for s in conts:
                if inc is not None:
                    for v, s2 in self.ev(inc, s):
                        backs.append(s2)
                else:
                    backs.append(s)
        return backs, outs

    def loop(self, n, st, cond, body, inc, isdo):
        # concrete unrolling
        if cond is not None and not isdo:
            r = self.try_unroll(n, st, cond, body, inc)
            if r is not None:
                return r
        nodes = [x for x in (cond, body, inc) if x]
        return self.loop_generic(st, nodes, lambda s: self.one_iter(s, cond, body, inc, isdo), n)

    def try_unroll(self, n, st, cond, body, inc):
        if not is_pure(cond) or not self.view.unroll:
            return None
        r = self.ev(cond, st.copy())
        if len(r) != 1 or not isinstance(r[0][0].bool(), bool):
            return None
        outs = []
        cur = [st]
        save = len(self.obls)
        for it in range(self.view.unroll):
            nx = []
            for s in cur:
                r = self.ev(cond, s)
                if len(r) != 1 or not isinstance(r[0][0].bool(), bool):
                    del self.obls[save:]
                    return None if it else None
                if not r[0][0].bool():
                    outs.append(Outcome('normal', r[0][1]))
                    continue
                bs, os_ = self.one_iter(r[0][1].copy(), cond, body, inc, False)
                nx += bs
                outs += os_
            cur = self.maybe_merge(nx)
            if not cur:
                return outs
        del self.obls[save:]
        return None

    def loop_generic(self, st, nodes, step, n):
        mods = set()
        self.ms._collecting = False
        for x in nodes:
            mods |= self.ms.of_node(x)
        # contracts with explicit frames are covered by the computed frame (superset)
        locs = {i for k, i in mods if k == 'L'}
        keys = {(k, p) for k, p in mods if k != 'L'}
        entry = st
        head0 = st.copy()
        self.loop_keys = {k for k, p in keys}
        self.forget(head0, locs, keys)
        cands = []
        if self.view.houdini and self.cur not in self.view.no_houdini:
            cands = self.gen_cands(entry, head0, locs, keys, n)
        ct = self.view.contracts.get(self.cur)
        if ct is not None and ct.loop is not None:
            cands += ct.loop(self, entry, head0, locs, keys, n)
        cands += self.view.loop_cands(self, entry, head0, locs, keys, n)
        # initiation
        live = []
        for nm, fn in cands:
            try:
                f = fn(entry)
            except Exception as e:
                continue
            if f is None:
                continue
            if self.prove_all(entry, f):
                live.append((nm, fn))
            elif DBG:
                print('init fails:', nm)
        # consecution
        self.mute += 1
        rounds = 0
        ghmod = set()
        nobl = len(self.loopinfo)
        try:
            while True:
                rounds += 1
                h = head0.copy()
                for nm, fn in live:
                    h.assume(fn(h))
                self.view.at_head(self, h, n)
                del self.loopinfo[nobl:]
                backs, _ = step(h.copy())       # a step may change its state in place
                self.check_loop_frame(h, backs, locs, keys)
                # ghost state an iteration changes is unknown at the loop head
                gm = {g for b in backs for g in b.gh if g in head0.gh and not same(b.gh[g], h.gh[g])} - ghmod
                if gm:
                    ghmod |= gm
                    for g in gm:
                        self.havoc_ghost(head0, g)
                    continue
                keep = list(live)
                for b in backs:
                    k2 = []
                    for nm, fn in keep:
                        f = fn(b)
                        self.houdini_checks += 1
                        if self.prove_all(b, f):
                            k2.append((nm, fn))
                        elif DBG:
                            print('not kept:', nm)
                            if nm.endswith(os.environ['EDVC_DBG']):
                                sl = z3.SimpleSolver(); sl.add(*b.pc); sl.add(*b.q); sl.add(negate(f)); open('/tmp/q.smt2', 'w').write(sl.to_smt2())
                    keep = k2
                if len(keep) == len(live):
                    break
                live = keep
                if rounds > 25 + len(ghmod):
                    live = []
        finally:
            self.mute -= 1
        h = head0.copy()
        for nm, fn in live:
            h.assume(fn(h))
        del self.loopinfo[nobl:]
        self.loopinfo.append((self.cur, self.stack[-1] if self.stack else '', n_line(n) if isinstance(n, dict) else 0,
                              [nm for nm, _ in live]))
        if not self.mute:
            for nm, fn in live:
                o = Obligation(self.cur, 'loop invariant (initiation and consecution): ' + nm,
                               n_line(n) if isinstance(n, dict) else 0, None, None, None, 'inv')
                o.result, o.backend = 'discharged', 'z3'
                self.obls.append(o)
        self.view.at_head(self, h, n)
        h0 = h.copy()
        backs, outs = step(h)
        outs = [o for o in outs]
        if not self.mute:
            self.view.loop_step(self, entry, h0, backs, outs, locs, keys, n)
        norm = [o.st for o in outs if o.kind == 'normal']
        oth = [o for o in outs if o.kind != 'normal']
        return oth + [Outcome('normal', s) for s in self.maybe_merge(norm)]

    def check_loop_frame(self, h, backs, locs, keys):
        """internal check: whatever an iteration changed was forgotten at the loop head"""
        ks = {k for k, p in keys}
        outs = {v.prov[0] for v in h.vars.values() if v.prov is not None and v.ty[0] == 'ptr' and tykey(v.ty[1]) in ks}
        for b in backs:
            for k, m in b.heap.items():
                if k in ks or k.startswith('@alive') or k.startswith('@alloc'):
                    continue
                o = h.heap.get(k)
                if o is None or o is m or (o.base.eq(m.base) and len(o.log) == len(m.log)):
                    continue
                if any(k.startswith('%') and k.endswith('@%s' % b.aux.get('memloc', {}).get(i)) for i in locs) or k in outs:
                    continue
                raise Unsupported('loop writes %s outside its computed frame' % k)
            for i, v in b.vars.items():
                o = h.vars.get(i)
                if i in locs or o is None or o is v or v.t is o.t or (not isc(v.t) and not isc(o.t) and v.t.eq(o.t)) or (isc(v.t) and isc(o.t) and v.t == o.t):
                    continue
                raise Unsupported('loop changes %s outside its computed frame: %s -> %s' % (i, o.t, v.t))

    def havoc_local_mem(self, st, i, ad, v):
        ty = v.ty[1]
        if ty[0] == 'rec':
            return       # field keys are havocked through the mod set
        if ty[0] == 'arr':
            return
        for k in list(st.heap):
            if k.startswith('%') and k.endswith('@%s' % ad):
                t = fresh('lm')
                self.range_fact(st, t, ty)
                st.heap[k] = Mem(st.heap[k].base, ((0, t),))

    def prove_all(self, st, f):
        if isinstance(f, (list, tuple)):
            return all(self.prove_now(st, x) for x in f)
        return self.prove_now(st, f)

    def gen_cands(self, entry, head, locs, keys, n):
        """generic arithmetic candidates over the scalars the loop modifies"""
        acc = []      # accessors: (name, fn(state)->term, type)
        for i in sorted(locs):
            v = entry.vars.get(i)
            if v is None:
                continue
            ml = entry.aux.get('memloc', {}).get(i)
            if ml is not None:
                ty = v.ty[1]
                if ty[0] in ('int', 'ptr'):
                    for k in list(entry.heap):
                        if k.startswith('%') and k.endswith('@%s' % ml):
                            acc.append((k, lambda s, k=k: self.rd(s, k, 0), ty))
                continue
            if v.ty[0] in ('int', 'ptr'):
                acc.append((i, lambda s, i=i: s.vars[i].i(), v.ty))
        for k, p in sorted(keys, key=str):
            if p is not None:
                ty = self.key_type(k)
                if ty and ty[0] in ('int',):
                    acc.append((k, lambda s, k=k, p=p: self.rd(s, k, self.path_addr(s, p)), ty))
            elif k.startswith('@') and not k.endswith('[]'):
                gt = self.prog.globals.get(k[1:])
                ty = self.T.parse(gt) if gt else INT
                if ty[0] in ('int', 'ptr'):
                    acc.append((k, lambda s, k=k: self.rd(s, k, 0), ty))
        acc = [a for a in acc if not self.view.gen_skip(a[0])][:self.view.max_acc]
        out = []
        ent = []
        for nm, f, ty in acc:
            try:
                e = f(entry)
            except Exception:
                e = None
            ent.append(e)
        for (nm, f, ty), e in zip(acc, ent):
            if e is None:
                continue
            out.append(('%s unchanged' % short(nm), lambda s, f=f, e=e: cmp('==', f(s), e)))
            if ty[0] == 'int':
                out.append(('%s not below entry' % short(nm), lambda s, f=f, e=e: cmp('>=', f(s), e)))
                out.append(('%s not above entry' % short(nm), lambda s, f=f, e=e: cmp('<=', f(s), e)))
                if ty[2]:
                    out.append(('%s >= 0' % short(nm), lambda s, f=f: cmp('>=', f(s), 0)))
            if ty[0] == 'ptr':
                out.append(('%s != 0' % short(nm), lambda s, f=f: cmp('!=', f(s), 0)))
        ints = [(a, e) for a, e in zip(acc, ent) if a[2][0] == 'int' and e is not None and a[2][1] >= 32]
        for x in range(len(ints)):
            for y in range(x):
                (n1, f1, t1), e1 = ints[x]
                (n2, f2, t2), e2 = ints[y]
                out.append(('%s-%s const' % (short(n1), short(n2)),
                            lambda s, f1=f1, f2=f2, e1=e1, e2=e2: cmp('==', sub(f1(s), e1), sub(f2(s), e2))))
                out.append(('%s+%s const' % (short(n1), short(n2)),
                            lambda s, f1=f1, f2=f2, e1=e1, e2=e2: cmp('==', add(f1(s), f2(s)), add(e1, e2))))
        # order against unmodified scalars in scope
        others = []
        for i, v in entry.vars.items():
            if i not in locs and v.ty[0] == 'int' and v.ty[1] >= 32 and i not in entry.aux.get('memloc', {}):
                others.append(('%s' % short(i), v.i()))
        for nm, t in self.view.scalars(self, entry):
            others.append((nm, t))
        others = others[:12]
        for (nm, f, ty), e in ints:
            for on, ot in others:
                out.append(('%s <= %s' % (short(nm), on), lambda s, f=f, ot=ot: cmp('<=', f(s), ot)))
                out.append(('%s >= %s' % (short(nm), on), lambda s, f=f, ot=ot: cmp('>=', f(s), ot)))
                out.append(('%s <= %s+1' % (short(nm), on), lambda s, f=f, ot=ot: cmp('<=', f(s), add(ot, 1))))
        return out

    # ------------------------------------------------------------ merging
    def maybe_merge(self, states):
        if len(states) <= self.view.merge_limit:
            return states
        groups = {}
        ids = set(states[0].vars)
        for s in states[1:]:
            ids &= set(s.vars)
        for s in states:
            # a pointer to a local keeps its target: states that differ in it stay apart
            sig = tuple(sorted((i, v.prov[0]) for i, v in s.vars.items()
                               if i in ids and v.prov is not None and (v.prov[0].startswith('*out') or v.prov[0][0] == '%')))
            groups.setdefault(sig if self.view.sep_out else 0, []).append(s)
        return [self.merge(g) for g in groups.values()]

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        base = states[0]
        m = State()
        # common prefix
        p = 0
        mn = min(len(s.pc) for s in states)
        while p < mn and all(s.pc[p] is base.pc[p] or s.pc[p].eq(base.pc[p]) for s in states):
            p += 1
        qn = 0
        mq = min(len(s.q) for s in states)
        while qn < mq and all(s.q[qn] is base.q[qn] for s in states):
            qn += 1
        m.pc = base.pc[:p]
        m.q = base.q[:qn]
        sel = [fresh_bool('sel') for _ in states]
        m.pc.append(z3.Or(*sel))
        for b, s in zip(sel, states):
            suf = s.pc[p:]
            if suf:
                for f in suf:
                    m.pc.append(z3.Implies(b, f))
            for q in s.q[qn:]:
                m.q.append(z3.Implies(b, q))
        m.ranged = set.intersection(*[s.ranged for s in states])
        m.trace = base.trace[:]

        def mt(ts):
            r = ts[-1]
            for b, t in reversed(list(zip(sel[:-1], ts[:-1]))):
                r = Ite(b, t, r) if not (z3.is_array(t) if not isc(t) else False) else (t if t.eq(r) else z3.If(b, t, r))
            return r
        ids = set(base.vars)
        for s in states[1:]:
            ids &= set(s.vars)
        for i in ids:
            vs = [s.vars[i] for s in states]
            if all(v is vs[0] for v in vs):
                m.vars[i] = vs[0]
                continue
            prov = vs[0].prov if all(v.prov == vs[0].prov for v in vs) else None
            if any(v.ty[0] == 'rec' for v in vs):
                m.vars[i] = vs[0]
                continue
            m.vars[i] = Val(mt([v.i() for v in vs]), vs[0].ty, prov)
        keys = set()
        for s in states:
            keys |= set(s.heap)
        for k in keys:
            ms_ = [self.mem(s, k) for s in states]
            if all(x is ms_[0] for x in ms_):
                m.heap[k] = ms_[0]
                continue
            if all(x.base.eq(ms_[0].base) for x in ms_):
                idxs = []
                okk = True
                for x in ms_:
                    for i, _ in x.log:
                        if any(same(i, j) for j in idxs):
                            continue
                        if not all(distinct(i, j) for j in idxs):
                            okk = False
                        idxs.append(i)
                if okk:
                    log = []
                    for i in idxs:
                        vs = [x.read(i) for x in ms_]
                        if k in self.view.qkeys and not all(same(v, vs[0]) for v in vs):
                            r = fresh('mv')
                            for b, v in zip(sel, vs):
                                m.pc.append(z3.Implies(b, r == v))
                            log.append((i, r))
                        else:
                            log.append((i, mt(vs)))
                    m.heap[k] = Mem(ms_[0].base, tuple(log))
                    continue
            r = fresh_arr('M:' + k)
            for b, x in zip(sel, ms_):
                m.pc.append(z3.Implies(b, r == x.z()))
            m.heap[k] = Mem(r)
        for g in base.gh:
            vs = [s.gh[g] for s in states]
            if all((v is vs[0]) or (not isc(v) and not isc(vs[0]) and v.eq(vs[0])) or (isc(v) and isc(vs[0]) and v == vs[0]) for v in vs):
                m.gh[g] = vs[0]
            elif z3.is_array(tz(vs[0])):
                r = z3.Const('G:%s!%d' % (g, next(sym._fresh)), vs[0].sort())
                for b, v in zip(sel, vs):
                    m.pc.append(z3.Implies(b, r == v))
                m.gh[g] = r
            else:
                m.gh[g] = mt2(sel, vs)
        m.fr = []
        for s in states:
            for f in s.fr:
                if not any(f.eq(x) for x in m.fr):
                    m.fr.append(f)
        for a in set().union(*[set(s.aux) for s in states]):
            if a == 'model':
                continue
            vs = [s.aux.get(a) for s in states]
            if a == 'memloc' or a == 'strs':
                d = {}
                for v in vs:
                    d.update(v or {})
                m.aux[a] = d
            elif a == 'prov':
                d = {}
                ks = set().union(*[set(v or {}) for v in vs])
                for k in ks:
                    xs = [(v or {}).get(k) for v in vs]
                    if all(x == xs[0] for x in xs):
                        d[k] = xs[0]
                m.aux[a] = d
            elif all(v == vs[0] for v in vs):
                m.aux[a] = vs[0]
            else:
                m.aux[a] = self.view.merge_aux(a, sel, vs)
        return m

    # ------------------------------------------------------------ verify one function
    def verify(self, name, budget=600):
        self.cur = name
        self.stack = []
        fn = self.prog.funcs[name]
        self.deadline = time.time() + budget
        ct = self.view.verify_contract(name)
        st = State()
        st.aux['memloc'] = {}
        self.view.init_state(self, st)
        args = []
        for p in fn.params:
            ty = self.prog.ptype(p)
            if ty[0] == 'arr':
                ty = ('ptr', ty[1])
            if ty == ('ptr', ('rec', 'ed_buffer')):
                v = Val(self.ED, ty)
            else:
                t = z3.Int('arg:%s' % (p.get('name') or '?'))
                self.range_fact(st, t, ty)
                v = Val(t, ty)
                if ty[0] == 'ptr' and ty[1][0] in ('int', 'ptr') and ty[1][1] != 8 and self.view.param_prov(name, p):
                    v.prov = ('*out:%s' % p.get('name'), 0)
            args.append(v)
        self.bind_params(fn, args, st)
        self.view.entry(self, name, args, st)
        if ct is not None:
            if ct.entry:
                ct.entry(self, st)
            c = Ctx(self, args, st)
            for nm, f in ct.requires(c):
                st.assume(f)
        self.curline = fn.line
        self.vacuity = self.check_vacuity(st)
        pre = st.copy()
        self.pre = pre
        outs = self.stmt(fn.body, st)
        nret = 0
        rty = self.T.parse(fn.ret)
        for o in outs:
            if o.kind in ('return', 'normal'):
                nret += 1
                s = o.st
                v = o.val
                ret = None
                if rty != VOID:
                    if v is None:
                        v = self.fresh_val(s, rty, 'noret')
                    ret = v.i()
                c = Ctx(self, args, pre, s, ret)
                c.retval = v
                if ct is not None:
                    if ct.ghost:
                        facts = ct.ghost(c)
                        if facts:
                            s.assume(facts)
                    for nm, f in ct.ensures(c):
                        self.oblige(s, nm, f, self.retline(o), 'post')
                    if ct.assigns != 'auto':
                        self.check_frame(ct, c, s)
                self.view.exit(self, name, c, s)
            else:
                raise Unsupported('outcome ' + o.kind)
        self.nret = nret
        return nret

    def retline(self, o):
        return o.st.trace[-1][0] if o.st.trace else 0

    def check_frame(self, ct, c, s):
        cells = ct.assigns(c) if callable(ct.assigns) else ct.assigns
        allowed = {}
        for k, i in cells:
            allowed.setdefault(k, []).append(i)
        for k, m in s.heap.items():
            if k[0] == '%' or k.startswith('*out:'):
                continue
            m0 = self.pre.heap.get(k) or self.h0.get(k)
            if m0 is None or m is m0:
                continue
            if m0.base.eq(m.base) and m0.log == m.log:
                continue
            al = allowed.get(k)
            if al is not None and (None in al or (k.startswith('@') and not k.endswith('[]') and ':' not in k)):
                continue
            x = z3.Int('frame_x')
            conds = [x == tz(i) for i in (al or [])] + [x == f for f in s.fr] + [x >= LOCAL_BASE]
            g = z3.Or(z3.Select(m.z(), x) == z3.Select(m0.z(), x), *conds)
            self.oblige(s, 'writes outside its frame: ' + k, g, 0, 'frame')

    def check_vacuity(self, st):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*st.pc)
        s.add(*st.q)
        return str(s.check())


_syms = {}


def syms_of(t):
    """symbols of a term; a read of a constant cell counts as one symbol"""
    k = t.get_id()
    r = _syms.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        res = syms_of(t.body())
    elif z3.is_app(t):
        d = t.decl()
        n = t.num_args()
        if n == 0:
            res = frozenset() if (z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t) or
                                  d.name().startswith('sel!')) else frozenset((k,))
        elif d.kind() == z3.Z3_OP_SELECT and t.arg(0).num_args() == 0 and (
                t.arg(1).num_args() == 0):
            res = frozenset((k,))
        else:
            res = frozenset().union(*[syms_of(c) for c in t.children()])
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                res = res
    else:
        res = frozenset()
    _syms[k] = (t, res)
    return res


def slice_facts(pc, cond, rounds=4):
    """facts connected to the condition (dropping facts only keeps more paths alive)"""
    want = set(syms_of(cond))
    rest = [(f, syms_of(f)) for f in pc]
    got = []
    for _ in range(rounds):
        new = []
        r2 = []
        for f, sy in rest:
            if not want.isdisjoint(sy):
                new.append((f, sy))
            else:
                r2.append((f, sy))
        if not new:
            break
        for f, sy in new:
            got.append(f)
            want |= sy
        rest = r2
    return got


def negate(goal):
    """Not(goal), with the outer universal quantifiers of the goal replaced by fresh constants"""
    if isinstance(goal, bool):
        return z3.BoolVal(not goal)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const('sk!%s!%d' % (goal.var_name(i), next(sym._fresh)), goal.var_sort(i)) for i in range(goal.num_vars())]
        return negate(z3.substitute_vars(goal.body(), *reversed(vs)))
    if z3.is_implies(goal):
        return z3.And(goal.arg(0), negate(goal.arg(1)))
    if z3.is_and(goal) and sym.has_quant(goal):
        return z3.Or(*[negate(c) for c in goal.children()])
    if z3.is_or(goal) and sym.has_quant(goal):
        return z3.And(*[negate(c) for c in goal.children()])
    return z3.Not(goal)


def has_ite(t, depth=12):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return True
    return depth > 0 and z3.is_app(t) and any(has_ite(c, depth - 1) for c in t.children())


def mt2(sel, vs):
    r = tz(vs[-1])
    for b, t in reversed(list(zip(sel[:-1], vs[:-1]))):
        r = z3.If(b, tz(t), r)
    return r


def unz(t):
    return t.as_long() if z3.is_int_value(t) else t


def Ite_b(c, a, b):
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else Not(c)
    return z3.If(c, tz(a), tz(b))


def Xor(a, b):
    if isinstance(a, bool):
        return Not(b) if a else b
    if isinstance(b, bool):
        return Not(a) if b else a
    return z3.Xor(a, b)


def short(n):
    return str(n).split(':')[-1][-24:]


def n_line(n):
    """line of a node (line numbers are attached by front.attach_lines)"""
    return n.get('ln', 0) if isinstance(n, dict) else 0


class View:
    """a set of contracts plus the policy used to verify functions against them"""
    ranges = {}         # object invariants: field -> (lo, hi), obliged at every store, assumed at every load

    def verify_contract(self, name):
        return self.contracts.get(name)

    feas_timeout = 400
    inv_timeout = 1500
    inv_rlimit = 0
    merge_limit = 12
    or_zero = False     # bitwise or is zero only if both operands are
    or_sign = False     # bitwise or with a constant: bounds of the result
    sep_out = True
    unroll = 70
    houdini = True
    no_houdini = ()     # functions whose loops need no generic candidates
    check_overflow = False
    overflow_width = 64
    assume_no_overflow = True
    check_div = False
    check_null = False
    max_acc = 14
    malloc_never_fails = False
    check_free = False

    def __init__(self, enums):
        self.contracts = {}
        self.ghost_deps = {}
        self.enums = enums
        self.externals = set()
        self.inlines = set()
        self.known = set()

    def init_state(self, ex, st):
        """the ed singleton: every sub-object pointer is a constant"""
        T = ex.T
        st.assume(ex.ED > 0)
        if 'ed' in ex.prog.globals:
            ex.wr(st, '@ed', 0, ex.ED)
        cs = {'state': 'ed_state', 'core': 'ed_core', 'display': 'ed_display', 'exec': 'ed_execute', 'file': 'ed_file'}
        for f, tag in cs.items():
            a = z3.Int('ed_' + f)
            st.assume(And(a > 0, a < GLOBAL_BASE))
            ex.wr(st, 'ed_buffer.' + f, ex.ED, a)
        st.assume(z3.Int('ed_state') % 8 == 0) if False else None
        e = z3.Int('ed_exec')
        for f in ('subst', 'region'):
            a = z3.Int('ed_exec_' + f)
            st.assume(And(a > 0, a < GLOBAL_BASE))
            ex.wr(st, 'ed_execute.' + f, e, a)
        a = z3.Int('ed_core_regbuf')
        st.assume(And(a > 0, a < GLOBAL_BASE))
        ex.wr(st, 'ed_core.regbuf', z3.Int('ed_core'), a)

    def entry(self, ex, name, args, st):
        pass

    def exit(self, ex, name, c, st):
        pass

    def on_call(self, ex, name, args, st, n):
        return None

    def fnptr_call(self, ex, args, st, n, fnval):
        return None

    def should_inline(self, ex, name):
        return name in self.inlines or name not in self.known

    def after_auto(self, ex, name, args, pre, st, n):
        pass

    def loop_cands(self, ex, entry, head, locs, keys, n):
        return []

    def scalars(self, ex, st):
        return []

    def merge_aux(self, a, sel, vs):
        return None

    def param_prov(self, fname, p):
        return True

    bits_width = 21
    qkeys = frozenset()     # keys that occur in quantified contracts (merged without ite terms)
    track_alive = ()

    def on_alloc(self, ex, st, r, tag):
        pass

    def on_free(self, ex, st, p, tag, n):
        pass

    watch = False
    watch_loads = False
    all_memlocs = False
    prune = True            # infeasible paths are cut (else: merely carried along)
    coarse = None
    arith_xor = False

    def at_head(self, ex, h, n):
        """valid facts (instances of the definitions of specification functions) wanted at a loop head"""

    def loop_step(self, ex, entry, h, backs, outs, locs, keys, n):
        """after a loop was cut: h is the state at its head, backs the states at the end of an iteration"""

    def on_store(self, ex, st, lv, v):
        pass

    def on_load(self, ex, st, lv):
        pass

    def gen_skip(self, name):
        return False

    def on_exit(self, ex, st, n):
        pass

    def valid_ptr(self, ex, st, addr, what):
        return addr > 0
