"""Evaluates every axiom the prover uses about functions of the reals, on numbers (50 digits), and exits 1 if one is false.

    python3-vt tools/axioms.py

The axioms of vc/solve.py are generated for terms; here they are generated for constants (rationals, and rational multiples of
pi, where the special cases are) and evaluated with mpmath. ang2pix, pix2theta and pix2phi are healpy's and are not covered here."""
import os
import random
import sys
from fractions import Fraction
import mpmath as mp
import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import core as K, solve      # noqa: E402

mp.mp.dps = 50
EPS = mp.mpf(10) ** -40


def ang2pi(y, x):
    a = mp.atan2(y, x) if (x, y) != (0, 0) else mp.mpf(0)
    if abs(y) < EPS:
        a = mp.mpf(0) if x >= 0 else mp.pi
    return a + 2 * mp.pi if a < 0 else a


def atan2(y, x):
    if abs(y) < EPS:
        return mp.mpf(0) if x >= 0 else +mp.pi
    return mp.atan2(y, x)


def root(x, n):
    if abs(x) < EPS:
        return mp.mpf(0)
    return mp.root(x, n) if x > 0 else mp.mpf(0)


def acos(x):
    return mp.acos(max(mp.mpf(-1), min(mp.mpf(1), x)))


def asin(x):
    return mp.asin(max(mp.mpf(-1), min(mp.mpf(1), x)))


FN = {'sin': mp.sin, 'cos': mp.cos, 'sqrt': lambda x: root(x, 2), 'cbrt': lambda x: root(x, 3), 'floor': lambda x: mp.floor(x + EPS), 'acos': acos, 'asin': asin,
      'atan2': atan2, 'ang2pi': ang2pi, 'log10': lambda x: mp.log10(x) if x > 0 else mp.mpf(0), 'exp10': lambda x: mp.mpf(10) ** x}


def ev(t):
    k = t.decl().kind()
    if z3.is_rational_value(t):
        return mp.mpf(t.numerator_as_long()) / t.denominator_as_long()
    if z3.is_int_value(t):
        return mp.mpf(t.as_long())
    if t.eq(solve.PI):
        return +mp.pi
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    c = t.children()
    if k == z3.Z3_OP_IMPLIES:
        return (not ev(c[0])) or ev(c[1])
    if k == z3.Z3_OP_AND:
        return all(ev(x) for x in c)
    if k == z3.Z3_OP_OR:
        return any(ev(x) for x in c)
    if k == z3.Z3_OP_ITE:
        return ev(c[1]) if ev(c[0]) else ev(c[2])
    v = [ev(x) for x in c]
    if k == z3.Z3_OP_NOT:
        return not v[0]
    if k == z3.Z3_OP_EQ:
        return v[0] == v[1] if isinstance(v[0], bool) else abs(v[0] - v[1]) < EPS
    if k == z3.Z3_OP_LE:
        return v[0] <= v[1] + EPS
    if k == z3.Z3_OP_GE:
        return v[0] >= v[1] - EPS
    if k == z3.Z3_OP_LT:
        return v[0] < v[1] - EPS
    if k == z3.Z3_OP_GT:
        return v[0] > v[1] + EPS
    if k == z3.Z3_OP_DISTINCT:
        return abs(v[0] - v[1]) >= EPS
    if k == z3.Z3_OP_ADD:
        return sum(v)
    if k == z3.Z3_OP_SUB:
        return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    if k == z3.Z3_OP_MUL:
        r = mp.mpf(1)
        for x in v:
            r *= x
        return r
    if k == z3.Z3_OP_DIV:
        return v[0] / v[1]
    if k == z3.Z3_OP_TO_REAL:
        return v[0]
    if t.decl().name() in FN:
        return FN[t.decl().name()](*v)
    raise SystemExit('axioms: cannot evaluate %s' % t.decl())


class Collect(object):
    def __init__(self):
        self.out, self.by_decl = [], {}

    def add(self, c):
        self.out.append(c)


def main():
    rng = random.Random(7)
    pi = [solve.PI * z3.Q(n, 4) for n in range(-12, 13)]
    few = [z3.RealVal(x) for x in (-1, 0, 1, 2, '1/2', '-1/2')]
    rat = few + [z3.Q(rng.randint(-900, 900), rng.randint(40, 200)) for _ in range(30)]
    args = pi + rat
    n, bad = {}, []

    def check(nm, fn, *a):
        p = Collect()
        if nm == 'exp10':
            p.by_decl['exp10'] = [K.EXP10(x) for x in rat[:12]]
        fn(p, *a)
        for c in p.out:
            n[nm] = n.get(nm, 0) + 1
            if not ev(c):
                bad.append((nm, c))
    for nm, fn in sorted(solve.AX.items()):
        if nm not in FN:
            continue
        f = {'sin': K.SIN, 'cos': K.COS, 'sqrt': K.SQRT, 'exp10': K.EXP10}.get(nm)
        two = nm in ('atan2', 'ang2pi')
        if f is None:
            f = z3.Function(nm, *([K.R] * (2 if two else 1) + [K.I if nm == 'floor' else K.R]))
        if two:
            for a in rat[:16] + pi[10:15]:
                for b in rat[:16]:
                    check(nm, fn, f(a, b))
        else:
            for a in (rat if nm in ('sqrt', 'cbrt', 'log10', 'exp10') else args):
                check(nm, fn, f(a))
                if nm == 'sqrt':
                    check(nm, fn, f(a * a))
    for i, a in enumerate(args):
        for b in args[:i + 1] + [a + solve.PI, solve.PI - a, 2 * solve.PI - a, a + solve.PI / 2, solve.PI / 2 - a]:
            check('pairs of angles', solve.trig_pair, a, b)
    # the addition theorems (k_rot.addition)
    for a in args:
        for b in args:
            n['addition'] = n.get('addition', 0) + 2
            x, y = ev(a), ev(b)
            if abs(mp.cos(x + y) - (mp.cos(x) * mp.cos(y) - mp.sin(x) * mp.sin(y))) > EPS or abs(mp.sin(x + y) - (mp.sin(x) * mp.cos(y) + mp.cos(x) * mp.sin(y))) > EPS:
                bad.append(('addition', (a, b)))
    print('axioms evaluated:', ', '.join('%s %d' % kv for kv in sorted(n.items())))
    for nm, c in bad[:10]:
        print('FALSE', nm, str(c)[:300])
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
