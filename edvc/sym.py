"""Symbolic executor / verification-condition generator over the clang AST.

Values are mathematical integers carrying their C type; memory is one map per
struct field (Burstall) plus one map per pointee width for raw pointers.
Every function is executed for all paths; loops are cut by inductive
invariants (candidates are checked for initiation and consecution by the
solver, Houdini style); calls use the callee's contract, or - when the callee has
no contract in the current view - the callee's computed frame (everything it
may write is forgotten) or its inlined body.
"""
import z3, itertools, os, time, sys
from front import VOID, INT, UINT, LONG, ULONG, CHAR, UCHAR, ptr

IntS = z3.IntSort()
ArrS = z3.ArraySort(IntS, IntS)
LOCAL_BASE = 1 << 47
GLOBAL_BASE = 1 << 46
PTR_MAX = 1 << 48

bitf = z3.Function('bit', IntS, IntS, z3.BoolSort())
_fresh = itertools.count()


class Unsupported(Exception):
    pass


def isc(x):
    return isinstance(x, (int, bool))


def fresh(name='v'):
    return z3.Int('%s!%d' % (name, next(_fresh)))


def fresh_arr(name='a'):
    return z3.Array('%s!%d' % (name, next(_fresh)), IntS, IntS)


def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, next(_fresh)))


def split_add(t):
    """term -> (base term or None, const)"""
    if isc(t):
        return None, int(t)
    if z3.is_int_value(t):
        return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(b):
            return a, b.as_long()
        if z3.is_int_value(a):
            return b, a.as_long()
    return t, 0


def add(a, b):
    if isc(a) and isc(b):
        return int(a) + int(b)
    if isc(b):
        ba, ca = split_add(a)
        if ba is None:
            return ca + int(b)
        c = ca + int(b)
        return ba if c == 0 else ba + c
    if isc(a):
        return add(b, a)
    if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
        ba, ca = split_add(a)
        bb, cb = split_add(b)
        if ba is None:
            return add(b, ca)
        if bb is None:
            return add(a, cb)
        if ca or cb:
            s = ba + bb
            return s if ca + cb == 0 else s + (ca + cb)
    return a + b


def sub(a, b):
    if isc(b):
        return add(a, -int(b))
    if isc(a):
        return int(a) - b
    ba, ca = split_add(a)
    bb, cb = split_add(b)
    if ba is not None and bb is not None and ba.eq(bb):
        return ca - cb
    return a - b


def mul(a, b):
    if isc(a) and isc(b):
        return int(a) * int(b)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return a * b


def same(a, b):
    if isc(a) or isc(b):
        if isc(a) and isc(b):
            return int(a) == int(b)
        x = b if isc(a) else a
        c = a if isc(a) else b
        return z3.is_int_value(x) and x.as_long() == int(c)
    return a.eq(b)


def distinct(a, b):
    ba, ca = split_add(a)
    bb, cb = split_add(b)
    if ba is None and bb is None:
        return ca != cb
    if ba is not None and bb is not None and ba.eq(bb):
        return ca != cb
    return False


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    r = []
    for x in out:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    r = []
    for x in out:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False:
        return True
    if b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    return z3.If(c, a, b)


def tz(x):
    """to z3"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def eq(a, b):
    if same(a, b):
        return True
    if isc(a) and isc(b):
        return int(a) == int(b)
    if isinstance(a, bool) or isinstance(b, bool):
        return tz(a) == tz(b)
    if distinct(a, b):
        return False
    return a == b


def cmp(op, a, b):
    if isc(a) and isc(b):
        a, b = int(a), int(b)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return Not(eq(a, b))
    ba, ca = split_add(a)
    bb, cb = split_add(b)
    if ba is not None and bb is not None and ba.eq(bb):
        return cmp(op, ca, cb)
    if op == '<':
        return a < b
    if op == '>':
        return a > b
    if op == '<=':
        return a <= b
    return a >= b


class Val:
    """C value.  t: int term (python int or ArithRef) or None; b: bool term or None."""
    __slots__ = ('t', 'b', 'ty', 'prov')

    def __init__(self, t, ty, prov=None, b=None):
        self.t = t
        self.ty = ty
        self.prov = prov
        self.b = b

    def i(self):
        if self.t is None:
            if isinstance(self.b, bool):
                self.t = int(self.b)
            else:
                self.t = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
        return self.t

    def bool(self):
        if self.b is None:
            if isc(self.t):
                self.b = self.t != 0
            else:
                t = self.t
                self.b = Not(eq(t, 0))
        return self.b

    def __repr__(self):
        return 'V(%s:%s)' % (self.t if self.t is not None else self.b, self.ty)


def BV(b):
    return Val(None, INT, b=b)


def rng(ty):
    if ty[0] == 'int':
        w, s = ty[1], ty[2]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if ty[0] == 'ptr':
        return (0, PTR_MAX)
    return None


class Mem:
    """array with a python-level store log for cheap syntactic read-over-write"""
    __slots__ = ('base', 'log', '_z')

    def __init__(self, base, log=(), z=None):
        self.base = base
        self.log = log
        self._z = z

    def z(self):
        if self._z is None:
            a = self.base
            for i, v in self.log:
                a = z3.Store(a, tz(i), tz(v))
            self._z = a
        return self._z

    def read(self, idx):
        for i, v in reversed(self.log):
            if same(i, idx):
                return v
            if not distinct(i, idx):
                return z3.Select(self.z(), tz(idx))
        return z3.Select(self.base, tz(idx))

    def write(self, idx, v):
        log = tuple((i, w) for (i, w) in self.log if not same(i, idx)) if any(
            same(i, idx) for i, _ in self.log) and all(
            same(i, idx) or distinct(i, idx) for i, _ in self.log) else self.log
        return Mem(self.base, log + ((idx, v),))


class State:
    __slots__ = ('vars', 'heap', 'pc', 'q', 'gh', 'ranged', 'trace', 'fr', 'aux', 'brefs')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.pc = []      # quantifier-free facts
        self.q = []       # quantified facts
        self.gh = {}      # ghost state
        self.ranged = set()
        self.trace = []
        self.fr = []      # fresh allocations on this path
        self.aux = {}     # free for views
        self.brefs = set()

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.q = list(self.q)
        s.gh = dict(self.gh)
        s.ranged = set(self.ranged)
        s.trace = list(self.trace)
        s.fr = list(self.fr)
        s.aux = dict(self.aux)
        s.brefs = set(self.brefs)
        return s

    def assume(self, f):
        if f is True or f is None:
            return self
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return self
        if f is False:
            self.pc.append(z3.BoolVal(False))
            return self
        if has_quant(f):
            self.q.append(f)
        else:
            self.pc.append(f)
        return self


_hq = {}


def has_quant(f):
    if z3.is_quantifier(f):
        return True
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    res = False
    if z3.is_app(f) and f.sort() == z3.BoolSort():
        for c in f.children():
            if z3.is_quantifier(c) or (z3.is_bool(c) and has_quant(c)):
                res = True
                break
    _hq[k] = (f, res)
    return res


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


class Obligation:
    __slots__ = ('func', 'name', 'line', 'facts', 'goal', 'trace', 'kind', 'result', 'backend', 'time', 'model', 'st')

    def __init__(self, func, name, line, facts, goal, trace, kind):
        self.func, self.name, self.line = func, name, line
        self.facts, self.goal, self.trace, self.kind = facts, goal, trace, kind
        self.result = None
        self.backend = None
        self.time = 0.0
        self.model = None


class LV:
    __slots__ = ('k', 'key', 'idx', 'ty')

    def __init__(self, k, key, idx, ty):
        self.k = k      # 'var' | 'mem' | 'rec' | 'arr' | 'func'
        self.key = key
        self.idx = idx
        self.ty = ty


def tykey(ty):
    if ty[0] == 'int':
        return '*%d' % ty[1]
    if ty[0] == 'ptr':
        return '*ptr'
    return '*' + ty[0]


SKIP = ('ParenExpr', 'ConstantExpr', 'FullComment')


def strip(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        n = n['inner'][0] if n['kind'] != 'CStyleCastExpr' else n['inner'][-1]
    return n


def strip_par(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n


ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}


def is_pure(n, cache={}):
    """no calls, assignments, increments, statement expressions"""
    k = id(n)
    r = cache.get(k)
    if r is not None and r[0] is n:
        return r[1]
    kind = n.get('kind')
    res = True
    if kind in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'):
        res = False
        if kind == 'CallExpr':
            c = strip(n['inner'][0])
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['name'] in ('__ctype_b_loc', '__errno_location'):
                res = True
    elif kind == 'BinaryOperator' and n['opcode'] == '=':
        res = False
    elif kind == 'UnaryOperator' and n['opcode'] in ('++', '--'):
        res = False
    if res:
        for c in n.get('inner', []):
            if not is_pure(c):
                res = False
                break
    cache[k] = (n, res)
    return res
