"""Symbolic scalars, path exploration, facts and obligations of the deductive verifier.

Values that the real source computes with are represented by
  * concrete Python objects: int, bool, Fraction (every real literal), str, None, list, tuple, dict
  * Sym: a z3 term of sort Int, Real or Bool with a "bad" flag (a z3 Bool: the value is NaN or
    infinite, or was never assigned).  bad is None when it can not be.
Reals are mathematical reals, integers are unbounded.
"""
import contextlib
import itertools
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The source uses something the verifier has no semantics for."""


class PyRaise(Exception):
    """The interpreted program raised an exception."""
    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ scalars
class Sym(object):
    __slots__ = ('t', 'bad', 'py')

    def __init__(self, t, bad=None, py=False):
        self.t = t
        self.bad = bad
        self.py = py        # a genuine Python bool (so that 'is False' means something)

    def __repr__(self):
        return 'Sym(%s%s)' % (self.t, '' if self.bad is None else ' bad? %s' % self.bad)

    def __bool__(self):
        raise Unsupported('truth value of a symbolic scalar outside the interpreter')

    # operator sugar for contracts
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __truediv__(a, b): return div(a, b)
    def __rtruediv__(a, b): return div(b, a)
    def __neg__(a): return neg(a)
    def __pow__(a, n): return power(a, n)
    def __le__(a, b): return cmp('<=', a, b)
    def __lt__(a, b): return cmp('<', a, b)
    def __ge__(a, b): return cmp('>=', a, b)
    def __gt__(a, b): return cmp('>', a, b)
    def __eq__(a, b): return cmp('==', a, b)
    def __ne__(a, b): return cmp('!=', a, b)
    def __and__(a, b): return land(a, b)
    def __or__(a, b): return lor(a, b)
    def __invert__(a): return lnot(a)
    __hash__ = object.__hash__


def is_num(v):
    return isinstance(v, (int, Fraction, Sym)) and not isinstance(v, bool) or isinstance(v, bool)


def is_scalar(v):
    return isinstance(v, (int, bool, Fraction, Sym, float))


def lift(v):
    """z3 term of a scalar."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        return z3.RealVal(str(Fraction(repr(v))))
    if z3.is_expr(v):
        return v
    raise Unsupported('not a scalar: %r' % (type(v),))


def badof(v):
    return v.bad if isinstance(v, Sym) else None


def bor(*bs):
    bs = [b for b in bs if b is not None and not z3.is_false(b)]
    if not bs:
        return None
    for b in bs:
        if z3.is_true(b):
            return z3.BoolVal(True)
    out, seen = [], set()
    for b in bs:
        if b.get_id() not in seen:
            seen.add(b.get_id())
            out.append(b)
    return out[0] if len(out) == 1 else z3.Or(*out)


def zand(*cs):
    cs = [c for c in cs if not z3.is_true(c)]
    for c in cs:
        if z3.is_false(c):
            return z3.BoolVal(False)
    if not cs:
        return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def mk(t, bad=None):
    """Wraps a z3 term, folding it to a concrete value when it is one."""
    if bad is None:
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.as_fraction()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return Sym(t, bad)


def toreal(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def toint(t):
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def pair(a, b):
    x, y = lift(a), lift(b)
    if x.sort() == y.sort() and x.sort() != z3.BoolSort():
        return x, y
    x, y = toint(x), toint(y)
    if x.sort() != y.sort():
        x, y = toreal(x), toreal(y)
    return x, y


def conc(v):
    return not isinstance(v, Sym)


def cfrac(v):
    """concrete value as int or Fraction"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return Fraction(repr(v))
    return v


def isreal(v):
    if isinstance(v, Sym):
        return v.t.sort() == z3.RealSort()
    return isinstance(v, (Fraction, float))


def isbool(v):
    if isinstance(v, Sym):
        return v.t.sort() == z3.BoolSort()
    return isinstance(v, bool)


def add(a, b):
    if conc(a) and conc(b):
        return cfrac(a) + cfrac(b)
    if conc(a) and a == 0 and not isreal(a):
        return b
    if conc(b) and b == 0 and not isreal(b):
        return a
    x, y = pair(a, b)
    if conc(a) and a == 0:
        return mk(y, badof(b))
    if conc(b) and b == 0:
        return mk(x, badof(a))
    return mk(z3.simplify(x + y) if (z3.is_int(x)) else x + y, bor(badof(a), badof(b)))


def sub(a, b):
    if conc(a) and conc(b):
        return cfrac(a) - cfrac(b)
    x, y = pair(a, b)
    if conc(b) and b == 0:
        return mk(x, badof(a))
    if x.eq(y):
        return mk(z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0), bor(badof(a), badof(b)))
    return mk(z3.simplify(x - y) if z3.is_int(x) else x - y, bor(badof(a), badof(b)))


def mul(a, b):
    if conc(a) and conc(b):
        return cfrac(a) * cfrac(b)
    x, y = pair(a, b)
    if conc(a) and a == 1:
        return mk(y, badof(b))
    if conc(b) and b == 1:
        return mk(x, badof(a))
    return mk(z3.simplify(x * y) if z3.is_int(x) else x * y, bor(badof(a), badof(b)))


def neg(a):
    if conc(a):
        return -cfrac(a)
    x = toint(lift(a))
    return mk(z3.simplify(-x) if z3.is_int(x) else -x, badof(a))


def nonzero_known(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return t.as_fraction() != 0
    c = CTX
    if c is not None and t.get_id() in c.nonzero:
        return True
    return False


def div(a, b):
    if conc(a) and conc(b):
        if cfrac(b) == 0:
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        return Fraction(cfrac(a)) / Fraction(cfrac(b))
    x, y = toreal(toint(lift(a))), toreal(toint(lift(b)))
    if conc(b):
        if cfrac(b) == 0:
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        return mk(x * z3.RealVal(str(1 / Fraction(cfrac(b)))), badof(a))
    bad = bor(badof(a), badof(b))
    if not nonzero_known(y):
        bad = bor(bad, y == 0)
    return Sym(x / y, bad)


def cmp(op, a, b):
    if conc(a) and conc(b):
        a, b = cfrac(a), cfrac(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if isbool(a) and isbool(b) and op in ('==', '!='):
        r = lift(a) == lift(b)
        r = r if op == '==' else z3.Not(r)
        return mk(z3.simplify(r))
    x, y = pair(a, b)
    r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    r = z3.simplify(r, arith_lhs=False) if False else r
    if x.eq(y):
        r = z3.BoolVal(op in ('<=', '>=', '=='))
    bad = bor(badof(a), badof(b))
    if bad is not None:
        r = z3.Or(bad, r) if op == '!=' else z3.And(z3.Not(bad), r)
    return mk(r)


def tobool(v):
    """z3 Bool of a scalar used as a condition"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sym):
        if z3.is_bool(v.t):
            return v.t
        r = v.t != 0
        if v.bad is not None:
            r = z3.Or(v.bad, r)
        return r
    if isinstance(v, (int, Fraction)):
        return z3.BoolVal(v != 0)
    if z3.is_expr(v):
        return v
    raise Unsupported('condition %r' % (type(v),))


def land(*vs):
    return mk(zand(*[tobool(v) for v in vs]))


def lor(*vs):
    cs = [tobool(v) for v in vs]
    cs = [c for c in cs if not z3.is_false(c)]
    if any(z3.is_true(c) for c in cs):
        return True
    if not cs:
        return False
    return mk(cs[0] if len(cs) == 1 else z3.Or(*cs))


def lnot(v):
    if conc(v):
        return not v
    return mk(z3.simplify(z3.Not(tobool(v))) if False else z3.Not(tobool(v)))


def implies(a, b):
    return mk(z3.Implies(tobool(a), tobool(b)))


def ite(c, a, b):
    """c scalar condition, a and b scalars"""
    c = tobool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return mk(z3.simplify(z3.If(c, lift(a), lift(b))))
    x, y = pair(a, b)
    ba, bb = badof(a), badof(b)
    if ba is None and bb is None:
        bad = None
    else:
        F = z3.BoolVal(False)
        ba = F if ba is None else ba
        bb = F if bb is None else bb
        bad = ba if ba.eq(bb) else z3.simplify(z3.If(c, ba, bb))
        if z3.is_false(bad):
            bad = None
    if x.eq(y):
        return mk(x, bad)
    return mk(z3.If(c, x, y), bad)


# uninterpreted functions with axioms instantiated when an obligation is discharged
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SIN, COS = z3.Function('sin', R, R), z3.Function('cos', R, R)
ACOS, ASIN = z3.Function('acos', R, R), z3.Function('asin', R, R)
ATAN2 = z3.Function('atan2', R, R, R)
SQRT, CBRT = z3.Function('sqrt', R, R), z3.Function('cbrt', R, R)
FLOOR = z3.Function('floor', R, I)
ANG = z3.Function('ang2pi', R, R, R)      # the angle of (x, y) in [0, 2 pi), 0 at the origin; arguments y, x
LOG10, EXP10 = z3.Function('log10', R, R), z3.Function('exp10', R, R)
PI_T = z3.Real('pi')


def PI():
    return Sym(PI_T)


def sqrt(a):
    if conc(a):
        a = Fraction(cfrac(a))
        if a < 0:
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        import math
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
    x = toreal(lift(a))
    s = z3.simplify(x)
    bad = badof(a)
    if not sum_of_squares(s) and not conc(a):
        bad = bor(bad, x < 0)
    return Sym(SQRT(x), bad)


def sum_of_squares(t):
    if z3.is_add(t):
        return all(sum_of_squares(c) for c in t.children())
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        return z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() in (2, 4)
    if z3.is_mul(t):
        cs = t.children()
        if len(cs) == 2 and cs[0].eq(cs[1]):
            return True
        if z3.is_rational_value(cs[0]) and cs[0].as_fraction() >= 0:
            return len(cs) == 2 and sum_of_squares(cs[1]) or len(cs) == 3 and cs[1].eq(cs[2])
    return False


def fn1(F, a, domain=None):
    x = toreal(toint(lift(a)))
    bad = badof(a)
    if domain is not None:
        bad = bor(bad, z3.Not(domain(x)))
    return Sym(F(x), bad)


def sin(a):
    if conc(a) and a == 0:
        return Fraction(0)
    return fn1(SIN, a)


def cos(a):
    if conc(a) and a == 0:
        return Fraction(1)
    return fn1(COS, a)


def acos(a):
    return fn1(ACOS, a, lambda x: z3.And(x >= -1, x <= 1))


def asin(a):
    return fn1(ASIN, a, lambda x: z3.And(x >= -1, x <= 1))


def atan2(y, x):
    return Sym(ATAN2(toreal(lift(y)), toreal(lift(x))), bor(badof(y), badof(x)))


def ang(y, x):
    return Sym(ANG(toreal(lift(y)), toreal(lift(x))), bor(badof(y), badof(x)))


def integral(t):
    """the integer term equal to the real term t, when t is built from integers by ring operations"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ch = [integral(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for c in ch[1:]:
            r = r + c if k == z3.Z3_OP_ADD else (r - c if k == z3.Z3_OP_SUB else r * c)
        return r
    if k == z3.Z3_OP_ITE:
        a, b = integral(t.arg(1)), integral(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


def floor_int(a):
    """floor as an integer-sorted scalar"""
    if conc(a):
        a = cfrac(a)
        return a if isinstance(a, int) else a.numerator // a.denominator
    t = lift(a)
    if t.sort() == I:
        return a
    s = z3.simplify(t)
    if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
        return mk(s.arg(0), badof(a))
    n = integral(t)
    if n is not None:
        return mk(n, badof(a))
    return Sym(FLOOR(t), badof(a))


def floor(a):
    return toreal_s(floor_int(a))


def ceil_int(a):
    return neg(floor_int(neg(a)))


def toreal_s(a):
    if conc(a):
        return Fraction(cfrac(a))
    return mk(toreal(lift(a)), badof(a))


def trunc_int(a):
    if conc(a):
        a = cfrac(a)
        return a if isinstance(a, int) else int(a)
    t = lift(a)
    if t.sort() == I:
        return a
    if t.sort() == B:
        return mk(toint(t))
    s = z3.simplify(t)
    if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
        return mk(s.arg(0), badof(a))
    n = integral(t)
    if n is not None:
        return mk(n, badof(a))
    # already a floor: floor terms carry their own sign information
    return ite(cmp('>=', Sym(t), 0), Sym(FLOOR(t), badof(a)), neg(Sym(FLOOR(-t), badof(a))))


def floordiv(a, b):
    if conc(a) and conc(b):
        return cfrac(a) // cfrac(b)
    q = div(a, b)
    f = floor_int(q)
    if isreal(a) or isreal(b):
        return toreal_s(f)
    return f


def mod(a, b):
    if conc(a) and conc(b):
        return cfrac(a) % cfrac(b)
    if not isreal(a) and not isreal(b) and conc(b) and cfrac(b) > 0:
        return mk(lift(a) % lift(b), badof(a))
    q = floor_int(div(a, b))
    return sub(a, mul(b, q))


def power(a, n):
    if isinstance(n, float):
        n = Fraction(repr(n))
    if conc(n):
        if isinstance(n, Fraction) and n.denominator == 1:
            m = int(n)
            asreal = True
        elif isinstance(n, int):
            m = n
            asreal = False
        elif n == Fraction(1, 2):
            return sqrt(a)
        elif n == Fraction(1, 3):
            return fn1(CBRT, a, lambda x: x >= 0)
        elif n == Fraction(3, 2):
            return mul(a, sqrt(a))
        else:
            raise Unsupported('power %s' % n)
        if m < 0:
            return div(1, power(a, -m))
        if m == 0:
            return Fraction(1) if asreal or isreal(a) else 1
        if m > 8:
            raise Unsupported('power %s' % n)
        r = toreal_s(a) if asreal else a
        base = r
        for _ in range(m - 1):
            r = mul(r, base)
        return r
    if conc(a) and a == 10:
        return fn1(EXP10, n)
    raise Unsupported('symbolic power')


def absv(a):
    if conc(a):
        return abs(cfrac(a))
    return ite(cmp('>=', Sym(a.t), 0), a, neg(a))


def minv(a, b):
    return ite(cmp('<=', a, b), a, b)


def maxv(a, b):
    return ite(cmp('>=', a, b), a, b)


def sign(a):
    if conc(a):
        return (a > 0) - (a < 0)
    z = Fraction(0) if isreal(a) else 0
    o = Fraction(1) if isreal(a) else 1
    r = ite(cmp('>', Sym(a.t), 0), o, ite(cmp('<', Sym(a.t), 0), -o, z))
    if a.bad is not None:
        r = Sym(lift(r), bor(badof(r), a.bad))
    return r


NAN = Sym(z3.RealVal(0), z3.BoolVal(True))


# ------------------------------------------------------------------ context
class Obl(object):
    def __init__(self, name, hyps, goal, kind='post'):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.kind = kind
        self.ctx = None
        self.ctxid = 0
        self.limit = None
        self.stages = None
        self.cand = None
        self.terms = {}
        self.gives = []         # facts that rest on it (lemmas)
        self.lemma = False
        self.pure = False       # follows from the hypotheses alone, with all functions abstracted
        c = CTX
        # what is known when the obligation arises: nothing that is assumed later may serve to prove it
        self.nf = len(c.facts) if c is not None else 0
        self.nu = len(c.universals) if c is not None else 0
        self.tag = tuple(c.runs) if c is not None else ()


class Ctx(object):
    def __init__(self):
        self.facts = []
        self.fact_ids = set()
        self.path = []
        self.obls = []
        self.trail = []
        self.pos = 0
        self.alts = []
        self.bound = []         # active bound variables (loop and comprehension indices)
        self.counter = itertools.count()
        self.journal = []
        self.runs = []          # (exploration, path number) for every exploration in progress
        self.nexplore = 0
        self.name_tag = {}      # name of a fresh symbol -> runs at its creation
        self.origin = {}        # id of a fact -> the path it was established on
        self.univ_origin = {}
        self.keep = []
        self.inst_cache = {}
        self.univ_tag = {}
        self.universals = []    # (arity, fn) -> fact, instantiated at index terms
        self.index_terms = {}   # id -> z3 int term
        self.sums = {}          # decl name -> SumInfo
        self.nonzero = set()
        self.solver_calls = 0
        self.prune = True
        self.trace = []
        self.log = []
        self.stubs = {}
        self.inlined = set()
        self.used_stubs = set()
        self.externals = set()
        self.frames = []
        self.loop_level = 0
        self.mixed = False
        self.common = set()     # symbols that do not connect facts
        self.pair_univ = {}
        self.quick_s = 0.
        self.write_hooks = []
        self.readonly = {}      # id of a buffer -> what it is
        self.prefix = ''
        self.quiet = 0
        self.randoms = []
        self.hooks = {}
        self.where = None

    def entails(self, c):
        """does the present path imply c (quick, may say no)"""
        if isinstance(c, (bool, Sym)):
            c = tobool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        from . import solve
        return solve.quick_unsat(self, list(self.path) + [z3.Not(s)])

    def literals(self):
        """the negations of the present path, as keys of literals"""
        self.keep.extend(self.path)
        return tuple((p.arg(0).get_id(), True) if z3.is_not(p) else (p.get_id(), False) for p in self.path)

    def proves(self, v):
        from . import solve
        return solve.quick_unsat(self, list(self.path) + [z3.Not(tobool(v))], ms=2000, full=True)

    def universal(self, arity, fn, tag='', trig=None, pair=False):
        """fn(indices) is a fact for all index values; trig: names of the functions at whose arguments it is used"""
        guard = zand(*self.path) if self.path else None
        if guard is not None and not z3.is_true(guard):
            f0 = fn
            fn = lambda ix: implies(Sym(guard), f0(ix))
        self.universals.append((arity, fn, trig))
        if self.runs:
            self.univ_tag[len(self.universals) - 1] = True
        if self.path:
            self.univ_origin[len(self.universals) - 1] = self.literals()
        if pair:
            self.pair_univ[len(self.universals) - 1] = True

    @contextlib.contextmanager
    def under(self, guard):
        g = tobool(guard)
        n = len(self.path)
        self.path.append(g)
        try:
            yield
        finally:
            del self.path[n:]

    def on_write(self, buf):
        w = self.readonly.get(id(buf))
        if w is not None:
            self.oblige('%s is not modified' % w, False, 'frame')
        for h in self.write_hooks:
            h(buf)

    def name(self, base):
        n = '%s!%d' % (base, next(self.counter))
        if self.runs:
            self.name_tag[n] = tuple(self.runs)
        return n

    def fresh_fun(self, base, *sorts):
        """a fresh function of the given index sorts, also a function of every active bound variable"""
        nm = self.name(base)
        bound = list(self.bound)
        args = [b.sort() for b in bound] + list(sorts[:-1])
        if not args:
            c = z3.Const(nm, sorts[-1])
            return lambda: c
        F = z3.Function(nm, *(args + [sorts[-1]]))
        return lambda *xs: F(*(bound + list(xs)))

    def fresh(self, base, sort):
        return Sym(self.fresh_fun(base, sort)())

    def fact(self, f, guarded=True):
        """records a fact that holds here (under the current path condition)"""
        f = tobool(f)
        if z3.is_true(f):
            return
        if guarded and self.path:
            f = z3.Implies(zand(*self.path), f)
        if f.get_id() not in self.fact_ids:
            self.fact_ids.add(f.get_id())
            self.facts.append(f)
            if self.path:
                self.origin[f.get_id()] = self.literals()
            return f.get_id()
        self.origin.pop(f.get_id(), None)

    def assume(self, f):
        """adds to the path condition"""
        f = tobool(f)
        if not z3.is_true(f):
            self.path.append(f)
            if z3.is_false(f):
                raise Infeasible()

    def oblige(self, name, goal, kind='post'):
        g = tobool(goal)
        if z3.is_true(g):
            # counted, trivially discharged
            self.obls.append(Obl(self.prefix + name, [], g, kind))
            return
        if self.quiet:
            return
        self.obls.append(Obl(self.prefix + name, list(self.path), g, kind))

    def index_term(self, t):
        t = lift(t)
        self.index_terms[t.get_id()] = t

    # --- branching
    def branch(self, cond):
        c = tobool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self.path.append(c if d else z3.Not(c))
            return d
        feas_t = self.feasible(c)
        feas_f = self.feasible(z3.Not(c)) if feas_t else True
        if feas_t and feas_f:
            d = True
            self.alts.append(self.trail[:self.pos] + [False])
        elif feas_t:
            d = True
        else:
            d = False
        self.trail = self.trail[:self.pos] + [d]
        self.pos += 1
        if feas_t and feas_f:
            self.path.append(c if d else z3.Not(c))
        else:
            # implied by the path: keep it as a (redundant) condition
            self.path.append(c if d else z3.Not(c))
        return d

    def feasible(self, c):
        if not self.prune:
            return True
        from . import solve
        self.solver_calls += 1
        return solve.quick_feasible(self, list(self.path) + [c])


CTX = None


def set_ctx(c):
    global CTX
    CTX = c
    return c


def ctx():
    return CTX


def mutate(undo):
    """registers how to undo a mutation of interpreter state"""
    CTX.journal.append(undo)


def rollback(mark):
    j = CTX.journal
    while len(j) > mark:
        j.pop()()


def freeze(v):
    """a copy of a value that later undoing of mutations does not change"""
    from . import arr
    if isinstance(v, arr.Arr):
        b = arr.Buf(v.buf.dims, v.buf.fn, v.buf.dtype)
        return arr.Arr(b, list(v.axes), v.imap, v.inv)
    if isinstance(v, arr.Sel):
        return arr.Sel(v.where, v.f, v.dtype, v.comp, v.rest)
    if type(v) in (list, tuple):
        return type(v)(freeze(x) for x in v)
    return v


class Outcome(object):
    def __init__(self, kind, path, value, extra=None):
        self.kind = kind
        self.path = path
        self.value = value
        self.extra = extra


def explore(thunk, after=None, maxpaths=400):
    """Runs thunk once per feasible path.  Each run starts from the same state (mutations are undone).
    after(value) is called before the rollback, while the path condition is in force; it may add obligations."""
    c = CTX
    base_path = list(c.path)
    saved = (c.trail, c.pos, c.alts)
    out = []
    todo = [[]]
    c.nexplore += 1
    eid, run = c.nexplore, 0
    while todo:
        run += 1
        c.runs.append((eid, run))
        pre = todo.pop()
        c.trail, c.pos, c.alts = pre, 0, []
        c.path = list(base_path)
        mark = len(c.journal)
        nr = len(c.randoms)
        try:
            v = thunk()
            if after is not None:
                o = Outcome('ok', c.path[len(base_path):], v)
                o.extra = after(o)
                o.path = list(c.path[len(base_path):])
            else:
                o = Outcome('ok', list(c.path[len(base_path):]), freeze(v))
            out.append(o)
        except PyRaise as e:
            o = Outcome('raise', c.path[len(base_path):], e)
            if after is not None:
                o.extra = after(o)
            out.append(o)
        except Infeasible:
            pass
        finally:
            rollback(mark)
            del c.randoms[nr:]
            c.runs.pop()
        todo.extend(reversed(c.alts))
        if len(out) > maxpaths:
            raise Unsupported('too many paths')
    c.trail, c.pos, c.alts = saved
    c.path = base_path
    return out


def subst(t, pairs):
    """substitutes bound variables in a term and instantiates the facts that mention them"""
    if not pairs:
        return t
    live = [(k, v) for k, v in pairs if not k.eq(v)]
    if not live:
        return t
    r = z3.substitute(t, *live)
    if not r.eq(t):
        inst_facts(live)
    return r


_inst_done = None


def inst_facts(live):
    c = CTX
    key = tuple((k.get_id(), v.get_id()) for k, v in live)
    done = c.__dict__.setdefault('inst_done', {})
    start = done.get(key, 0)
    n = len(c.facts)
    done[key] = n
    ids = set(k.get_id() for k, _ in live)
    for f in c.facts[start:n]:
        if mentions(f, ids):
            g = z3.substitute(f, *live)
            if g.get_id() not in c.fact_ids:
                c.fact_ids.add(g.get_id())
                c.facts.append(g)
                if f.get_id() in c.origin:
                    c.origin[g.get_id()] = c.literals()


_consts_cache = {}
_named_cache = {}


def foreign(t, tag):
    """symbols of a term that were made on another path of an exploration the tag is a path of"""
    nt = CTX.name_tag
    if not tag or not nt:
        return ()
    i = t.get_id()
    r = _named_cache.get(i)
    if r is None:
        r = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    g = nt.get(nm)
                    if g:
                        r.append((x.get_id() if x.num_args() == 0 else nm, g))
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        _named_cache[i] = (t, r)
    else:
        r = r[1]
    if not r:
        return ()
    d = dict(tag)
    return [k for k, g in r if any(e in d and d[e] != n for e, n in g)]


def consts_of(t):
    """ids of the uninterpreted constants and function symbols of a term"""
    i = t.get_id()
    r = _consts_cache.get(i)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() == 0:
                    out.add(xi)
                else:
                    out.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _consts_cache[i] = (t, out)
    return out


def mentions(t, ids):
    return not ids.isdisjoint(consts_of(t))


def subst_s(v, pairs):
    """substitution in a scalar"""
    if not isinstance(v, Sym):
        return v
    return mk(subst(v.t, pairs), None if v.bad is None else subst(v.bad, pairs))
