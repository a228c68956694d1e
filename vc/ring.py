"""Polynomial identities modulo known equations, with a certificate.

goal: a == b; known equations l_i == r_i, used to rewrite the leading monomial of l_i.  When the difference a - b rewrites to zero,
the cofactors c_i with  a - b = sum c_i (l_i - r_i)  are the certificate, which z3's normaliser of polynomials checks again."""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 60000


class Ring(object):
    def __init__(self):
        self.atoms, self.num = [], {}
        self.keep = []
        self.memo = {}

    def atom(self, t):
        i = t.get_id()
        if i not in self.num:
            self.num[i] = len(self.atoms)
            self.atoms.append(t)
        return self.num[i]

    def poly(self, t):
        """{monomial (sorted tuple of (atom, exponent)): coefficient}"""
        i = t.get_id()
        if i not in self.memo:
            self.keep.append(t)
            self.memo[i] = self.poly_(t)
        return self.memo[i]

    def poly_(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): Fraction(f)} if f != 0 else {}
        if z3.is_add(t):
            r = {}
            for x in t.children():
                r = add(r, self.poly(x))
            return r
        if z3.is_sub(t):
            ch = t.children()
            r = self.poly(ch[0])
            for x in ch[1:]:
                r = add(r, self.poly(x), -1)
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return scale(self.poly(t.arg(0)), -1)
        if z3.is_mul(t):
            r = {(): Fraction(1)}
            for x in t.children():
                r = times(r, self.poly(x))
            return r
        if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and 0 <= t.arg(1).as_fraction() <= 8:
            r = {(): Fraction(1)}
            for _ in range(int(t.arg(1).as_fraction())):
                r = times(r, self.poly(t.arg(0)))
            return r
        if z3.is_div(t):
            d = self.poly(t.arg(1))
            if len(d) == 1 and () in d:
                return scale(self.poly(t.arg(0)), 1 / d[()])
            one = z3.RealVal(1) / t.arg(1)
            if not (z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() == 1):
                return times(self.poly(t.arg(0)), self.poly(one))
            return {((self.atom(t), 1),): Fraction(1)}
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return self.poly_int(t)
        return {((self.atom(t), 1),): Fraction(1)}

    def poly_int(self, t):
        return {((self.atom(t), 1),): Fraction(1)}

    def term(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = [z3.RealVal(c)] if c != 1 or not m else []
            for a, e in m:
                fs += [self.atoms[a]] * e
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            ts.append(r)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def times(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def divide(m, l):
    """m / l or None"""
    d = dict(m)
    for x, e in l:
        if d.get(x, 0) < e:
            return None
        d[x] -= e
        if d[x] == 0:
            del d[x]
    return tuple(sorted(d.items()))


def oriented(h):
    """the equation with a numeral on the right side"""
    return h.decl()(h.arg(1), h.arg(0)) if z3.is_rational_value(h.arg(0)) and not z3.is_rational_value(h.arg(1)) else h


def certificate(goal, hyps, plus=()):
    """cofactors (terms), or None"""
    goal = oriented(goal)
    hyps = [oriented(h) for h in hyps]
    plus = [(c, oriented(h)) for c, h in plus]
    R = Ring()
    try:
        g = add(R.poly(goal.arg(0)), R.poly(goal.arg(1)), -1)
        for c, h in plus:
            g = add(g, times(R.poly(c), add(R.poly(h.arg(0)), R.poly(h.arg(1)), -1)), -1)
        rules = []
        for h in hyps:
            l, r = R.poly(h.arg(0)), R.poly(h.arg(1))
            if not any(m for m in l):
                l, r = r, l
            d = add(R.poly(h.arg(0)), R.poly(h.arg(1)), -1)
            # the leading monomial: the first of the left side as it is written (the only one, as a rule)
            lead = max(l, key=lambda m: (sum(e for _, e in m), [(-a, e) for a, e in m])) if len(l) > 1 else list(l)[0]
            c = d.get(lead)
            if not c or not lead:
                rules.append(None)
                continue
            rules.append((lead, scale(d, Fraction(1) / c), c))
        cof = [{} for _ in hyps]
        steps = 0
        todo = dict(g)
        rest = {}
        while todo:
            steps += 1
            if steps > LIMIT * 3 or len(todo) > LIMIT:
                raise TooBig()
            m = max(todo, key=lambda q: sum(e for _, e in q)) if steps < 4000 else next(iter(todo))
            c = todo[m]
            for k, r in enumerate(rules):
                if r is None:
                    continue
                q = divide(m, r[0])
                if q is not None:
                    f = {q: c}
                    todo = add(todo, times(f, r[1]), -1)
                    cof[k] = add(cof[k], scale(f, Fraction(1) / r[2]))
                    break
            else:
                rest = add(rest, {m: c})
                del todo[m]
        if rest:
            return None, R.term(rest)
        return [R.term(c) for c in cof], None
    except TooBig:
        return None, z3.BoolVal(False)


def prove(goal, hyps, plus=()):
    """True when the equation follows from the equations by the certificate, checked by z3"""
    goal = oriented(goal)
    hyps = [oriented(h) for h in hyps]
    plus = [(c, oriented(h)) for c, h in plus]
    cs, _ = certificate(goal, hyps, plus)
    if cs is None:
        return False
    zero = z3.RealVal(0)
    d = goal.arg(0) - goal.arg(1)
    for c, h in list(plus) + list(zip(cs, hyps)):
        if not c.eq(zero):
            d = d - c * (h.arg(0) - h.arg(1))
    # divisions by the same term are one number
    seen, st, rep = set(), [d], {}
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
                rep[x.get_id()] = (x, x.arg(0) * z3.Function('reciprocal', z3.RealSort(), z3.RealSort())(x.arg(1)))
            st.extend(x.children())
    for _ in range(4):
        if not rep:
            break
        d = z3.substitute(d, *rep.values())
        break
    r = z3.simplify(d, som=True, hoist_mul=False, som_blowup=1000000)
    if z3.is_rational_value(r) and r.as_fraction() == 0:
        return True
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(d != 0)
    return s.check() == z3.unsat
