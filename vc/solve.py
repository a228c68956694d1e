"""Turns obligations into quantifier-free problems and discharges them with z3, and cvc5 where z3 gives up.

A problem is: path conditions, the facts connected to them, instances of the universal facts at the index
terms that occur, and the axioms of the real functions (sqrt, sin, atan2, floor, ...) and of finite sums at
the terms that occur.  Everything is instantiated here, so that the solvers see no quantifier.
"""
import os
import select
import signal
import time
import z3
from . import core as K
from .core import zand

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SUM = z3.Function('SUM', I, I, z3.ArraySort(I, R), R)
PI = K.PI_T
_sub_cache = {}
_noval = 0


def apps(t):
    """all subterms that are applications of uninterpreted functions (not under a binder)"""
    i = t.get_id()
    r = _sub_cache.get(i)
    if r is not None:
        return r[1]
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
                if x.decl().name() == 'SUM':
                    st.append(x.arg(0))
                    st.append(x.arg(1))
                    continue
            st.extend(x.children())
    _sub_cache[i] = (t, out)
    return out


def lam_at(lam, k):
    return z3.substitute_vars(lam.body(), k)


def is_square(t):
    """t is a product in which every factor occurs an even number of times (or is a positive constant)"""
    count = {}
    st = [t]
    while st:
        x = st.pop()
        if z3.is_mul(x):
            st.extend(x.children())
        elif z3.is_rational_value(x):
            if x.numerator_as_long() < 0:
                return False
        else:
            count[x.get_id()] = count.get(x.get_id(), 0) + 1
    return all(n % 2 == 0 for n in count.values())


DUMMY = [z3.Int('dummy@%d' % q) for q in range(6)]


def literals(hyps):
    out = set()
    st = list(hyps)
    while st:
        h = st.pop()
        if z3.is_and(h):
            st.extend(h.children())
        elif z3.is_not(h):
            out.add((h.arg(0).get_id(), False))
        else:
            out.add((h.get_id(), True))
    return out


def elsewhere(path, lits):
    """was it established on another path"""
    return bool(path) and not lits.isdisjoint(path)


class Problem(object):
    def __init__(self, ctx, hyps, goal, quick=False, lemmas=True, tag=None):
        self.ctx = ctx
        self.quick = quick
        self.lemmas = lemmas
        self.asserts = []
        self.ids = set()
        self.todo = []
        self.seen_apps = {}
        self.by_decl = {}
        self.done_univ = set()
        self.syms = set()
        self.sumrep = {}
        self.hyps = hyps
        self.goal = goal
        self.lits = literals(hyps)
        self.uni_foreign = {}
        self.tag = tuple(ctx.runs) if tag is None else tag
        for h in hyps:
            self.add(h)
        if goal is not None:
            self.add(z3.Not(goal))
        self.core_syms = set(self.syms)

    def add(self, a):
        if z3.is_true(a) or a.get_id() in self.ids:
            return
        self.ids.add(a.get_id())
        self.asserts.append(a)
        self.syms |= K.consts_of(a)
        for x in apps(a):
            xi = x.get_id()
            if xi not in self.seen_apps:
                self.seen_apps[xi] = x
                self.by_decl.setdefault(x.decl().name(), []).append(x)
                self.todo.append(x)

    # -- facts connected by symbols
    def connect(self, rounds):
        c = self.ctx
        used = getattr(self, 'used', None)
        if used is None:
            used = self.used = set()
        common = c.common
        for _ in range(rounds):
            live = self.syms - common
            hit = False
            for n, f in enumerate(c.facts):
                if n in used:
                    continue
                if elsewhere(c.origin.get(f.get_id()), self.lits):
                    used.add(n)
                    continue
                fo = K.foreign(f, self.tag)
                if fo and self.syms.isdisjoint(fo):
                    continue
                cs = K.consts_of(f)
                key = cs - common
                if (not key) or not key.isdisjoint(live):
                    used.add(n)
                    self.add(f)
                    hit = True
                    self.nused = getattr(self, 'nused', 0) + 1
                    if self.nused > (60 if self.quick else 600):
                        return
            if not hit:
                return

    def universals(self):
        c = self.ctx
        ints = {}
        for x in list(self.seen_apps.values()):
            if x.decl().name() in ('SUM',):
                continue
            for a in x.children():
                if a.sort() == I:
                    ints[a.get_id()] = a
        for t in c.index_terms.values():
            if K.consts_of(t) <= self.syms:
                ints[t.get_id()] = t
        n0 = len(self.asserts)
        for ui, (ar, fn, trig) in enumerate(c.universals):
            if elsewhere(c.univ_origin.get(ui), self.lits):
                continue
            if ui not in self.uni_foreign:
                f = fn([K.mk(DUMMY[q]) for q in range(ar)]) if c.univ_tag.get(ui) and self.tag else None
                self.uni_foreign[ui] = () if f is None else K.foreign(K.tobool(f), self.tag)
            if self.uni_foreign[ui] and self.syms.isdisjoint(self.uni_foreign[ui]):
                continue
            if trig is not None:
                pts = []
                seen = set()
                for d in trig:
                    for x in self.by_decl.get(d, []):
                        # the trailing arguments are the indices
                        a = tuple(x.children()[-1:] if ar <= 2 and len(trig) and c.pair_univ.get(ui) else x.children()[-ar:])
                        k = tuple(y.get_id() for y in a)
                        if k not in seen:
                            seen.add(k)
                            pts.append(a)
                if c.pair_univ.get(ui):
                    pts = [p + q for p in pts for q in pts if p[0].get_id() != q[0].get_id()]
            elif ar == 1:
                pts = [(t,) for t in ints.values()]
            else:
                pts, seen = [], set()
                for x in list(self.seen_apps.values()):
                    ch = x.children()
                    if len(ch) >= ar and all(y.sort() == I for y in ch[-ar:]):
                        a = tuple(ch[-ar:])
                        k = tuple(y.get_id() for y in a)
                        if k not in seen:
                            seen.add(k)
                            pts.append(a)
            if len(pts) > (12 if self.quick else 150):
                pts = pts[:12 if self.quick else 150]
            for p in pts:
                key = (ui,) + tuple(y.get_id() for y in p)
                if key in self.done_univ:
                    continue
                self.done_univ.add(key)
                f = c.inst_cache.get(key)
                if f is None:
                    f = c.inst_cache[key] = (fn([K.mk(y) for y in p]), p)
                f = f[0]
                if f is not None and any(y.num_args() == 0 and y.decl().name().startswith('kap') for y in p) and \
                        any(x.decl().name() == 'SUM' and x.get_id() not in self.seen_apps for x in apps(K.tobool(f))):
                    continue          # no new sums at the witnesses of sums
                if f is not None:
                    self.add(K.tobool(f))
        return len(self.asserts) > n0

    # -- axioms of the real functions
    def axioms(self):
        n0 = len(self.asserts)
        while self.todo:
            x = self.todo.pop()
            nm = x.decl().name()
            f = AX.get(nm)
            if f is not None:
                f(self, x)
        return len(self.asserts) > n0

    def pairs(self):
        """axioms about two terms"""
        done = self.__dict__.setdefault('pairdone', set())
        n0 = len(self.asserts)
        args = {}
        for nm in ('sin', 'cos'):
            for x in self.by_decl.get(nm, []):
                args[x.arg(0).get_id()] = x.arg(0)
        args = list(args.values())
        if len(args) <= 14:
            for i in range(len(args)):
                for j in range(i):
                    k = (args[i].get_id(), args[j].get_id())
                    if k in done:
                        continue
                    done.add(k)
                    trig_pair(self, args[i], args[j])
        fl = self.by_decl.get('floor', [])
        if len(fl) <= 12:
            for i in range(len(fl)):
                for j in range(i):
                    k = (fl[i].get_id(), fl[j].get_id())
                    if k in done:
                        continue
                    done.add(k)
                    a, b = fl[i].arg(0), fl[j].arg(0)
                    self.add(z3.Implies(a <= b, fl[i] <= fl[j]))
                    self.add(z3.Implies(b <= a, fl[j] <= fl[i]))
        sq = self.by_decl.get('sqrt', [])
        if len(sq) <= 10:
            for i in range(len(sq)):
                for j in range(i):
                    k = (sq[i].get_id(), sq[j].get_id())
                    if k in done:
                        continue
                    done.add(k)
                    a, b = sq[i].arg(0), sq[j].arg(0)
                    self.add(z3.Implies(a == b, sq[i] == sq[j]))
        return len(self.asserts) > n0

    def sums(self):
        done = self.__dict__.setdefault('sumdone', set())
        n0 = len(self.asserts)
        ss = self.by_decl.get('SUM', [])
        c = self.ctx
        cap = 40
        for s in ss[:cap]:
            if s.get_id() not in done:
                done.add(s.get_id())
                lo, hi, f = s.children()
                k = z3.FreshConst(I, 'kap')
                b = lam_at(f, k)
                self.add(z3.Implies(hi <= lo, s == 0))
                if is_square(b):
                    self.add(s >= 0)
                inr = z3.And(lo <= k, k < hi)
                self.add(z3.Implies(z3.Not(z3.And(inr, b < 0)), s >= 0))
                k2 = z3.FreshConst(I, 'kap')
                b2 = lam_at(f, k2)
                self.add(z3.Implies(z3.And(lo < hi, z3.Not(z3.And(lo <= k2, k2 < hi, b2 <= 0))), s > 0))
                k3 = z3.FreshConst(I, 'kap')
                b3 = lam_at(f, k3)
                self.add(z3.Implies(z3.Not(z3.And(lo <= k3, k3 < hi, b3 != 0)), s == 0))
        # prefix sums of terms that are not negative
        groups = {}
        for s in ss[:12]:
            groups.setdefault((s.arg(0).get_id(), s.arg(2).get_id()), []).append(s)
        for (_, _), g in groups.items():
            key = tuple(s.get_id() for s in g)
            if len(g) < 2 or key in done:
                continue
            done.add(key)
            lo, f = g[0].arg(0), g[0].arg(2)
            k = z3.FreshConst(I, 'kap')
            ok = z3.Not(z3.And(lo <= k, z3.Or(*[k < s.arg(1) for s in g]), lam_at(f, k) < 0))
            for i in range(len(g)):
                for j in range(i):
                    self.add(z3.Implies(z3.And(ok, g[i].arg(1) <= g[j].arg(1)), g[i] <= g[j]))
                    self.add(z3.Implies(z3.And(ok, g[j].arg(1) <= g[i].arg(1)), g[j] <= g[i]))
        for i in range(min(len(ss), cap)):
            for j in range(i):
                key = (ss[i].get_id(), ss[j].get_id())
                if key in done:
                    continue
                done.add(key)
                self.sum_pair(ss[i], ss[j])
        return len(self.asserts) > n0

    def sum_pair(self, a, b):
        la, ha, fa = a.children()
        lb, hb, fb = b.children()
        if fa.eq(fb):
            # prefix sums of the same terms
            if la.eq(lb):
                self.add(z3.Implies(z3.And(ha == hb + 1, lb <= hb), a == b + lam_at(fa, hb)))
                self.add(z3.Implies(z3.And(hb == ha + 1, la <= ha), b == a + lam_at(fa, ha)))
                self.add(z3.Implies(ha == hb, a == b))
            return
        shifts = [z3.IntVal(0)]
        d = z3.simplify(lb - la)
        if not (z3.is_int_value(d) and d.as_long() == 0):
            shifts.append(d)
        for d in shifts:
            k = z3.FreshConst(I, 'kap')
            va = z3.If(z3.And(la <= k, k < ha), lam_at(fa, k), z3.RealVal(0))
            k2 = z3.simplify(k + d)
            vb = z3.If(z3.And(lb <= k2, k2 < hb), lam_at(fb, k2), z3.RealVal(0))
            self.add(z3.Implies(va == vb, a == b))
            k = z3.FreshConst(I, 'kap')
            va = z3.If(z3.And(la <= k, k < ha), lam_at(fa, k), z3.RealVal(0))
            k2 = z3.simplify(k + d)
            vb = z3.If(z3.And(lb <= k2, k2 < hb), lam_at(fb, k2), z3.RealVal(0))
            self.add(z3.Implies(va <= vb, a <= b))

    def close(self):
        q = self.quick
        self.connect(1 if q else 4)
        self.axioms()
        if not q:
            for _ in range(4):
                a = self.universals()
                b = self.axioms()
                self.connect(2)
                d = self.sums() if self.lemmas else False
                e = self.pairs()
                f = self.axioms()
                if not (a or b or d or e or f):
                    break
        else:
            self.universals()
            self.axioms()
        # sums become constants
        reps = []
        for s in self.by_decl.get('SUM', []):
            reps.append((s, z3.Const('sum!%d' % s.get_id(), R)))
        out = [PI > z3.RealVal('3.14159265358979'), PI < z3.RealVal('3.14159265358980')] if PI.get_id() in self.syms or True else []
        if reps:
            # outer sums first
            for a in self.asserts:
                out.append(z3.substitute(a, *reps))
        else:
            out.extend(self.asserts)
        return out


def trig_args(p, t):
    p.add(K.COS(t) * K.COS(t) + K.SIN(t) * K.SIN(t) == 1)
    p.add(z3.And(K.COS(t) <= 1, K.COS(t) >= -1, K.SIN(t) <= 1, K.SIN(t) >= -1))


def ax_trig(p, x):
    t = x.arg(0)
    done = p.__dict__.setdefault('trigdone', set())
    if t.get_id() in done:
        return
    done.add(t.get_id())
    s, c = K.SIN(t), K.COS(t)
    trig_args(p, t)
    p.add(z3.Implies(z3.And(0 <= t, t <= PI), s >= 0))
    p.add(z3.Implies(z3.And(0 < t, t < PI), s > 0))
    p.add(z3.Implies(z3.And(PI < t, t < 2 * PI), s < 0))
    p.add(z3.Implies(z3.And(-PI < t, t < 0), s < 0))
    p.add(z3.Implies(z3.And(-PI / 2 < t, t < PI / 2), c > 0))
    p.add(z3.Implies(z3.And(PI / 2 < t, t < 3 * PI / 2), c < 0))
    p.add(z3.Implies(z3.Or(t == 0, t == 2 * PI), z3.And(s == 0, c == 1)))
    p.add(z3.Implies(z3.Or(t == PI, t == -PI), z3.And(s == 0, c == -1)))
    p.add(z3.Implies(t == PI / 2, z3.And(s == 1, c == 0)))
    p.add(z3.Implies(t == -PI / 2, z3.And(s == -1, c == 0)))
    p.add(z3.Implies(z3.And(0 < t, t < 2 * PI), c < 1))
    p.add(z3.Implies(z3.And(-PI < t, t < PI), c > -1))


def trig_pair(p, a, b):
    d = z3.simplify(a - b, som=True)
    sa, ca, sb, cb = K.SIN(a), K.COS(a), K.SIN(b), K.COS(b)
    p.add(z3.Implies(z3.Or(d == 2 * PI, d == -2 * PI, d == 0), z3.And(sa == sb, ca == cb)))
    p.add(z3.Implies(z3.Or(d == 4 * PI, d == -4 * PI), z3.And(sa == sb, ca == cb)))
    p.add(z3.Implies(z3.Or(d == PI, d == -PI), z3.And(sa == -sb, ca == -cb)))
    p.add(z3.Implies(d == PI / 2, z3.And(sa == cb, ca == -sb)))
    p.add(z3.Implies(d == -PI / 2, z3.And(sb == ca, cb == -sa)))
    e = z3.simplify(a + b, som=True)
    p.add(z3.Implies(z3.Or(e == 0, e == 2 * PI), z3.And(sa == -sb, ca == cb)))
    p.add(z3.Implies(e == PI, z3.And(sa == sb, ca == -cb)))
    p.add(z3.Implies(e == PI / 2, z3.And(sa == cb, ca == sb)))
    # cos is strictly decreasing on [0, pi]
    r = z3.And(0 <= a, a <= PI, 0 <= b, b <= PI)
    p.add(z3.Implies(r, z3.And((a < b) == (ca > cb), (b < a) == (cb > ca))))
    # the angle of a point is unique in a half open interval of length 2 pi
    same = z3.And(sa == sb, ca == cb)
    p.add(z3.Implies(z3.And(0 <= a, a < 2 * PI, 0 <= b, b < 2 * PI, same), a == b))
    p.add(z3.Implies(z3.And(-PI < a, a <= PI, -PI < b, b <= PI, same), a == b))


def ax_sqrt(p, x):
    t = x.arg(0)
    p.add(z3.Implies(t >= 0, z3.And(x >= 0, x * x == t)))
    p.add(z3.Implies(t == 0, x == 0))
    p.add(z3.Implies(t > 0, x > 0))
    p.add(z3.Implies(t < 0, x == 0))
    s = z3.simplify(t, som=True)
    ps = p.__dict__.setdefault('squares', [])
    # sqrt of a square
    if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
        u = t.arg(0)
        p.add(x == z3.If(u >= 0, u, -u))
    p.add(z3.Implies(t == 1, x == 1))


def ax_cbrt(p, x):
    t = x.arg(0)
    p.add(z3.Implies(t >= 0, z3.And(x >= 0, x * x * x == t)))


def ax_floor(p, x):
    t = x.arg(0)
    p.add(z3.And(z3.ToReal(x) <= t, t < z3.ToReal(x) + 1))


def ax_acos(p, x):
    t = x.arg(0)
    c = K.COS(x)
    p.add(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(x >= 0, x <= PI, c == t)))


def ax_asin(p, x):
    t = x.arg(0)
    p.add(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(x >= -PI / 2, x <= PI / 2, K.SIN(x) == t)))


def ax_atan2(p, x):
    y, u = x.arg(0), x.arg(1)
    p.add(z3.And(x > -PI, x <= PI))
    p.add(z3.Implies(z3.And(y == 0, u == 0), x == 0))
    p.add(z3.Implies(y < 0, x < 0))
    p.add(z3.Implies(y > 0, z3.And(x > 0, x < PI)))
    p.add(z3.Implies(z3.And(y == 0, u > 0), x == 0))
    p.add(z3.Implies(z3.And(y == 0, u < 0), x == PI))
    h = K.SQRT(u * u + y * y)
    p.add(z3.And(h >= 0, h * h == u * u + y * y))
    p.add(z3.Implies(z3.Or(u != 0, y != 0), h > 0))
    p.add(h * K.COS(x) == u)
    p.add(h * K.SIN(x) == y)


def ax_ang(p, x):
    y, u = x.arg(0), x.arg(1)
    p.add(z3.And(x >= 0, x < 2 * PI))
    p.add(z3.Implies(z3.And(y == 0, u == 0), x == 0))
    h = K.SQRT(u * u + y * y)
    p.add(z3.And(h >= 0, h * h == u * u + y * y))
    p.add(z3.Implies(z3.Or(u != 0, y != 0), h > 0))
    p.add(h * K.COS(x) == u)
    p.add(h * K.SIN(x) == y)


def ax_log10(p, x):
    p.add(z3.Implies(x.arg(0) > 0, K.EXP10(x) == x.arg(0)))


def ax_exp10(p, x):
    p.add(x > 0)
    p.add(z3.Implies(x.arg(0) == 0, x == 1))
    for y in p.by_decl.get('exp10', []):
        if not y.eq(x):
            p.add(z3.And((x.arg(0) < y.arg(0)) == (x < y), (x.arg(0) == y.arg(0)) == (x == y)))


def ax_ang2pix(p, x):
    n, t, _ = x.children()
    p.add(z3.Implies(z3.And(n >= 1, t >= 0, t <= PI), z3.And(x >= 0, x < 12 * n * n)))


def ax_pix2theta(p, x):
    n, q = x.children()
    p.add(z3.Implies(z3.And(n >= 1, q >= 0, q < 12 * n * n), z3.And(x > 0, x < PI)))


def ax_pix2phi(p, x):
    n, q = x.children()
    p.add(z3.Implies(z3.And(n >= 1, q >= 0, q < 12 * n * n), z3.And(x >= 0, x < 2 * PI)))


AX = {'ang2pix': ax_ang2pix, 'pix2theta': ax_pix2theta, 'pix2phi': ax_pix2phi, 'sin': ax_trig, 'cos': ax_trig, 'sqrt': ax_sqrt, 'cbrt': ax_cbrt, 'floor': ax_floor, 'acos': ax_acos, 'asin': ax_asin,
      'atan2': ax_atan2, 'ang2pi': ax_ang, 'log10': ax_log10, 'exp10': ax_exp10}


# ------------------------------------------------------------------ quick questions during execution
_qcache = {}


def quick_unsat(ctx, conds, ms=None, full=False):
    """True only when the conditions contradict each other under the facts"""
    conds = [c for c in conds if not z3.is_true(c)]
    if any(z3.is_false(c) for c in conds):
        return True
    key = (frozenset(c.get_id() for c in conds), len(ctx.facts), len(ctx.universals), full)
    r = _qcache.get(key)
    if r is not None:
        return r[0]
    ctx.solver_calls += 1
    t0 = time.time()
    # first without facts
    s = z3.Solver()
    s.set('timeout', ms or 150)
    s.add(*conds)
    s.add(PI > 3, PI < 4)
    res = s.check()
    if res != z3.unsat:
        p = Problem(ctx, conds, None, quick=True)
        s = z3.Solver()
        s.set('timeout', ms or 250)
        s.add(*p.close())
        res = s.check()
    if full and res != z3.unsat:
        p = Problem(ctx, conds, None, lemmas=False)
        s = z3.Solver()
        s.set('timeout', ms or 1000)
        s.add(*p.close())
        res = s.check()
    ctx.quick_s += time.time() - t0
    _qcache[key] = (res == z3.unsat, conds)
    return res == z3.unsat


def quick_feasible(ctx, conds):
    return not quick_unsat(ctx, conds)


# ------------------------------------------------------------------ discharging
def worker(ctx, ob, limit, seed, stages, dropped=()):
    """runs in a forked process; returns (status, solver, text)"""
    goal = ob.goal
    if z3.is_true(z3.simplify(goal)):
        return 'proved', 'simplify', ''
    if ob.pure:
        return pure_worker(ob, limit, seed)
    K.set_ctx(ctx)
    ctx.facts = [f for f in ctx.facts[:ob.nf] if f.get_id() not in dropped]
    ctx.fact_ids = set(f.get_id() for f in ctx.facts)
    if ob.kind != 'cover':
        # by the hypotheses and the facts alone, what is not linear being opaque
        memo = {}
        s = z3.Solver()
        s.set('timeout', 300)
        lits = literals(ob.hyps)
        s.add(*[opaque(h, memo) for h in list(ob.hyps) + [f for f in ctx.facts if not elsewhere(ctx.origin.get(f.get_id()), lits)]])
        s.add(opaque(z3.Not(goal), memo))
        s.add(*memo.pop('extra', []))
        if s.check() == z3.unsat:
            return 'proved', 'z3', ''
    ctx.inst_done = {}
    ctx.universals = ctx.universals[:ob.nu]
    ctx.path = []
    P = Problem(ctx, ob.hyps, goal, tag=ob.tag, lemmas=not ctx.__dict__.get('plain_sums', False))
    asserts = P.close()
    if ob.kind != 'cover':
        memo = {}
        s = z3.Solver()
        s.set('timeout', int(min(2.5, limit / 4.) * 1000))
        s.add(*[opaque(a, memo) for a in asserts])
        s.add(*memo.pop('extra', []))
        if s.check() == z3.unsat:
            return 'proved', 'z3', ''
    t_end = time.time() + limit
    last = ''
    nth = {}
    for st, frac in stages:
        left = t_end - time.time()
        if left < 0.2:
            break
        tl = max(0.3, min(left, limit * frac))
        nth[st] = nth.get(st, -1) + 1
        if st == 'z3':
            s = z3.Solver()
            s.set('timeout', int(tl * 1000))
            s.set('random_seed', seed + 100 * nth[st])
            s.add(*asserts)
            r = s.check()
        elif st == 'z3-old':
            s = z3.SimpleSolver()
            s.set('timeout', int(tl * 1000))
            s.set('arith.solver', 2)
            s.set('random_seed', seed + 7 + 100 * nth[st])
            s.add(*asserts)
            r = s.check()
        elif st == 'nlsat':
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'ackermannize_bv', 'qfnra-nlsat') if False else \
                z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfnra-nlsat')
            s = t.solver()
            s.set('timeout', int(tl * 1000))
            s.add(*purify(asserts))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                r = z3.unknown
        elif st == 'lean':
            r = z3.unknown
            ls = lean(asserts, ob.hyps, goal)
            for tac in (('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat'), ('simplify', 'propagate-values', 'solve-eqs', 'smt')):
                s = z3.Then(*tac).solver()
                s.set('timeout', int(tl * 500))
                s.add(*ls)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.unsat:
                    break
                r = z3.unknown
        elif st == 'cvc5':
            s = z3.Solver()
            s.add(*asserts)
            r = run_cvc5(s.to_smt2(), tl)
            if r == 'unsat':
                return 'proved', 'cvc5', ''
            continue
        if r == z3.unsat:
            return 'proved', st, ''
        if r == z3.sat:
            m = s.model()
            inp = {}
            for d in m.decls():
                if d.arity() == 0 and not d.name().startswith(('kap', 'sum!')):
                    inp[d.name()] = text_of(m[d])
            for n, t in ob.terms.items():
                inp[n] = text_of(m.eval(t, model_completion=True))
            return 'sat', st, inp
        last = s.reason_unknown() if hasattr(s, 'reason_unknown') else ''
    return 'unknown', '', last


UF = {}


def uf(name, n, sort):
    k = (name, n, sort.name())
    if k not in UF:
        UF[k] = z3.Function('%s%d_%s' % (name, n, sort.name()), *([sort] * (n + 1)))
    return UF[k]


def opaque(t, memo):
    """t with products and quotients replaced by uninterpreted functions and sums by constants: a consequence
    holds of any meaning of them"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = t
    num = lambda c: z3.is_rational_value(c) or z3.is_int_value(c)
    if z3.is_quantifier(t) and t.sort() != B:
        pass                                    # a lambda: only its identity counts
    elif z3.is_quantifier(t):
        r = z3.FreshConst(B, 'opq')
    elif z3.is_mul(t) and sum(1 for c in t.children() if not num(c)) > 1:
        fs = flat_factors(t)
        co = [c for c in fs if num(c)]
        ch = sorted([opaque(c, memo) for c in fs if not num(c)], key=lambda c: c.get_id())
        if len(ch) == 2:
            f = uf('mul', 2, t.sort())
            r = f(*ch)
            memo.setdefault('extra', []).append(r == f(ch[1], ch[0]))
        else:
            r = uf('mul', len(ch), t.sort())(*ch)
        for c in co:
            r = c * r
    elif (z3.is_div(t) or z3.is_app_of(t, z3.Z3_OP_IDIV) or z3.is_app_of(t, z3.Z3_OP_MOD) or z3.is_app_of(t, z3.Z3_OP_POWER)) and not num(t.arg(1)):
        x, y = [opaque(c, memo) for c in t.children()]
        if x.sort().eq(y.sort()):
            r = uf(t.decl().name(), 2, x.sort())(x, y)
            if not r.sort().eq(t.sort()):
                r = z3.FreshConst(t.sort(), 'opq')
        else:
            r = z3.FreshConst(t.sort(), 'opq')
    elif t.decl().name() == 'SUM':
        r = z3.FreshConst(t.sort(), 'opq')
    elif z3.is_app(t) and t.num_args():
        ch = [opaque(c, memo) for c in t.children()]
        if any(not x.eq(y) for x, y in zip(ch, t.children())):
            r = t.decl()(*ch) if not (z3.is_and(t) or z3.is_or(t) or z3.is_add(t) or z3.is_mul(t) or z3.is_distinct(t)) else rebuilt(t, ch)
    memo[i] = (t, r)
    return r


def flat_factors(t):
    out = []
    for x in t.children():
        if z3.is_mul(x):
            out.extend(flat_factors(x))
        else:
            out.append(x)
    return out


def rebuilt(t, ch):
    if z3.is_and(t):
        return z3.And(*ch)
    if z3.is_or(t):
        return z3.Or(*ch)
    if z3.is_distinct(t):
        return z3.Distinct(*ch)
    r = ch[0]
    for c in ch[1:]:
        r = r + c if z3.is_add(t) else r * c
    return r


def pure_worker(ob, limit, seed):
    if getattr(ob, 'ring', None) is not None:
        from . import ring
        if z3.is_eq(ob.goal) and ring.prove(ob.goal, list(ob.hyps), ob.ring):
            return 'proved', 'ring', ''
        return 'unknown', '', 'ring'
    ps = purify(list(ob.hyps) + [z3.Not(ob.goal)])
    for how, frac in (('nlsat', .5), ('z3', .4), ('nlsat2', .3)):
        if how == 'z3':
            s = z3.Solver()
            s.set('random_seed', seed)
        elif how == 'nlsat':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
        else:
            s = z3.Then('simplify', 'qfnra-nlsat').solver()
        s.set('timeout', int(limit * frac * 1000))
        s.add(*ps)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'proved', how, ''
    return 'unknown', '', 'algebra'


def text_of(v):
    if z3.is_algebraic_value(v):
        return v.as_decimal(17)
    return str(v)


def lean(asserts, hyps, goal):
    """what is left of the problem after unit propagation when only literals are kept, over the reals"""
    T, F_ = z3.BoolVal(True), z3.BoolVal(False)
    units = []
    rest = list(asserts)
    for _ in range(6):
        new = []
        keep = []
        for a in rest:
            st = [a]
            while st:
                x = st.pop()
                if z3.is_and(x):
                    st.extend(x.children())
                elif z3.is_true(x):
                    pass
                elif z3.is_or(x) or z3.is_implies(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
                    keep.append(x)
                elif z3.is_not(x) and z3.is_or(x.arg(0)):
                    st.extend(z3.Not(c) for c in x.arg(0).children())
                elif z3.is_not(x) and z3.is_implies(x.arg(0)):
                    st.extend([x.arg(0).arg(0), z3.Not(x.arg(0).arg(1))])
                elif z3.is_not(x) and z3.is_and(x.arg(0)):
                    keep.append(z3.Or(*[z3.Not(c) for c in x.arg(0).children()]))
                elif z3.is_quantifier(x):
                    pass
                else:
                    new.append(x)
        units.extend(new)
        if not new or not keep:
            break
        reps = []
        for u in new:
            if z3.is_not(u):
                reps.append((u.arg(0), F_))
            else:
                reps.append((u, T))
                if z3.is_app_of(u, z3.Z3_OP_LE) or z3.is_app_of(u, z3.Z3_OP_GE) or z3.is_app_of(u, z3.Z3_OP_LT) or z3.is_app_of(u, z3.Z3_OP_GT):
                    pass
        rest = [z3.simplify(z3.substitute(k, *reps), elim_and=False, flat=False, som=False, arith_lhs=False) for k in keep]
    g = z3.Not(goal)
    return purify(units + [g])


def purify(asserts):
    """replaces applications of uninterpreted functions by constants (with congruence for pairs) for nlsat;
    integers are relaxed to reals, which is sound for showing unsatisfiability"""
    rep = {}
    order = []
    cache = {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_app(t):
            k = t.decl().kind()
            ch = [go(c) for c in t.children()]
            if k == z3.Z3_OP_UNINTERPRETED:
                key = (t.decl().name(),) + tuple(z3.simplify(c).get_id() for c in ch)
                if key not in rep:
                    so = t.sort()
                    rep[key] = z3.FreshConst(R if so == I else so, 'p')
                    order.append((t.decl().name(), ch, rep[key]))
                r = rep[key]
            elif k == z3.Z3_OP_TO_REAL:
                r = ch[0]
            elif z3.is_int_value(t):
                r = z3.RealVal(t.as_long())
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT):
                r = z3.FreshConst(R, 'q') if t.sort() != B else z3.FreshConst(B, 'q')
            elif not ch:
                r = t
            elif k == z3.Z3_OP_DIV:
                q = z3.FreshConst(R, 'dv')
                extra.append(z3.Implies(ch[1] != 0, q * ch[1] == ch[0]))
                r = q
            elif k == z3.Z3_OP_EQ:
                r = ch[0] == ch[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            elif k == z3.Z3_OP_ITE:
                r = z3.If(*ch)
            elif k == z3.Z3_OP_LE:
                r = ch[0] <= ch[1]
            elif k == z3.Z3_OP_LT:
                r = ch[0] < ch[1]
            elif k == z3.Z3_OP_GE:
                r = ch[0] >= ch[1]
            elif k == z3.Z3_OP_GT:
                r = ch[0] > ch[1]
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch) if len(ch) > 1 else ch[0]
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
            elif k == z3.Z3_OP_POWER:
                r = ch[0] ** ch[1]
            else:
                r = t.decl()(*ch)
        else:
            r = t
        cache[i] = (t, r)
        return r
    extra = []
    out = [go(a) for a in asserts]
    names = {}
    for nm, ch, c in order:
        names.setdefault(nm, []).append((ch, c))
    for nm, l in names.items():
        if not l[0][0]:
            continue
        if len(l) > 8:
            continue
        for i in range(len(l)):
            for j in range(i):
                if l[i][1].sort() == l[j][1].sort():
                    out.append(z3.Implies(zand(*[x == y for x, y in zip(l[i][0], l[j][0])]), l[i][1] == l[j][1]))
    # consts of sort Int left: rename to reals
    ren = {}
    allf = out + extra
    res = []
    for a in allf:
        st, seen, pairs = [a], set(), []
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
        res.append(a)
    return res


def run_cvc5(text, tl):
    import cvc5
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(tl * 1000)))
        slv.setOption('nl-ext-tplanes', 'true')
        slv.setLogic('ALL')
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'p')
        sm = ip.getSymbolManager()
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            s = str(cmd)
            if s.startswith('(check-sat'):
                break
            if s.startswith('(set-logic') or s.startswith('(set-info'):
                continue
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        return 'unsat' if r.isUnsat() else ('sat' if r.isSat() else 'unknown')
    except Exception as e:       # the back end could not read the problem: no answer
        return 'error %s' % e


STAGES = [('z3', .1), ('lean', .08), ('z3-old', .1), ('cvc5', .15), ('nlsat', .1), ('z3', .2), ('cvc5', .25), ('z3-old', .2)]
COVER_STAGES = [('z3', .3)]


def conjuncts(ts):
    out, st = [], list(ts)
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        else:
            out.append(x)
    return out


def recorded(ctx, ob, dropped):
    """every conjunct of the goal is a hypothesis, or a fact recorded before under conditions that hold here"""
    ix = ctx.__dict__.setdefault('fact_index', {})
    n = ctx.__dict__.setdefault('fact_indexed', 0)
    for k in range(n, len(ctx.facts)):
        f = ctx.facts[k]
        g, c = conjuncts([f.arg(0)]) if z3.is_implies(f) else [], (f.arg(1) if z3.is_implies(f) else f)
        for x in conjuncts([c]):
            ix.setdefault(x.get_id(), []).append((k, f.get_id(), [y.get_id() for y in g]))
    ctx.fact_indexed = len(ctx.facts)
    goal, more = ob.goal, []
    while z3.is_implies(goal):
        more.append(goal.arg(0))
        goal = goal.arg(1)
    hyps = set(h.get_id() for h in conjuncts(list(ob.hyps) + more))
    for x in conjuncts([goal]):
        if x.get_id() in hyps or any(k < ob.nf and i not in dropped and all(y in hyps for y in g) for k, i, g in ix.get(x.get_id(), ())):
            continue
        return False
    return True


def discharge(ctx, obls, limit=8., jobs=8, seed=1, deadline=None, verbose=False, dropped=()):
    """returns a list of (status, solver, info, seconds) in the order of obls"""
    import pickle
    res = [None] * len(obls)
    running = {}
    queue = list(range(len(obls)))
    queue.reverse()
    cache = {}
    while queue or running:
        while queue and len(running) < jobs:
            k = queue.pop()
            ob = obls[k]
            if z3.is_true(ob.goal):
                res[k] = ('proved', 'trivial', '', 0.)
                continue
            if ob.kind != 'cover' and not ob.pure and (ob.ctx is None or ob.ctx is ctx) and recorded(ctx, ob, dropped):
                res[k] = ('proved', 'recorded', '', 0.)
                continue
            key = (ob.goal.get_id(), tuple(sorted(h.get_id() for h in ob.hyps)), ob.ctxid)
            if key in cache:
                cache[key].append(k)
                continue
            if deadline is not None and time.time() > deadline:
                res[k] = ('unknown', '', 'no time left', 0.)
                continue
            cache[key] = []
            r, w = os.pipe()
            lim = ob.limit or limit
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = worker(ob.ctx or ctx, ob, lim, seed, ob.stages or (COVER_STAGES if ob.kind == 'cover' else STAGES), dropped)
                except BaseException as e:
                    out = ('unknown', '', 'worker failed: %s %s' % (type(e).__name__, e))
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (k, pid, time.time(), time.time() + lim * 1.6 + 10, b'', key)
        if not running:
            continue
        ready, _, _ = select.select(list(running), [], [], .5)
        now = time.time()
        for fd in list(running):
            k, pid, t0, t1, buf, key = running[fd]
            if fd in ready:
                d = os.read(fd, 1 << 16)
                if d:
                    running[fd] = (k, pid, t0, t1, buf + d, key)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    st, sv, info = pickle.loads(buf)
                except Exception:
                    st, sv, info = 'unknown', '', 'the solver process died'
            elif now > t1:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                st, sv, info = 'unknown', '', 'out of time'
            else:
                continue
            del running[fd]
            res[k] = (st, sv, info, now - t0)
            if verbose:
                print('  %-8s %-8s %5.1fs %s' % (st, sv, now - t0, obls[k].name), flush=True)
            for j in cache.pop(key, []):
                res[j] = (st, sv, info, 0.)
    for k in range(len(obls)):
        if res[k] is None:
            res[k] = ('unknown', '', 'lost', 0.)
    return res
