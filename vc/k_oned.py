"""C05, C06: one dimensional rebinning."""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve

OD = 'magpie.one_d.one_d.'
ONE, ZERO = Fraction(1), Fraction(0)


def increasing(V, a, n):
    V.forall_fact(2, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], ix[1]), cmp('<', ix[1], n)), cmp('<', a.at(ix[0]), a.at(ix[1]))),
                  trig=[a.buf.name], pair=True)


def frac(a, b, lo, hi):
    """the part of the bin from a to b that is covered by lo..hi, by cases"""
    L = sub(b, a)
    inside = land(cmp('<=', lo, a), cmp('<=', b, hi))
    return ite(lor(cmp('<', b, lo), cmp('<', hi, a)), ZERO,
               ite(inside, ONE,
                   ite(cmp('<=', lo, a), strip(K.div(sub(hi, a), L)),
                       ite(cmp('<=', b, hi), strip(K.div(sub(b, lo), L)), strip(K.div(sub(hi, lo), L))))))


def covered(a, b, lo, hi):
    o = K.minv(b, hi)
    s = K.maxv(a, lo)
    return K.maxv(sub(o, s), ZERO)


class Spec(object):
    """the old bins n, the new bin lo..hi, and where its edges fall: p is the first edge not below lo, q the first above hi"""
    def __init__(self, V, n, e, lo, hi):
        self.V, self.n, self.e, self.lo, self.hi = V, n, e, lo, hi
        self.f = lambda c: frac(e.at(c), e.at(add(c, 1)), lo, hi)

    def ghosts(self):
        V, n, e, lo, hi = self.V, self.n, self.e, self.lo, self.hi
        c = K.CTX
        p, q = Sym(z3.Const(c.name('p'), K.I)), Sym(z3.Const(c.name('q'), K.I))
        # of an increasing sequence, the entries below a value come first
        for x, op, v in ((p, '<', lo), (q, '<=', hi)):
            c.fact(land(cmp('<=', 0, x), cmp('<=', x, add(n, 1))), guarded=False)
            c.universal(1, lambda ix, x=x, op=op, v=v: implies(land(cmp('<=', 0, ix[0]), cmp('<=', ix[0], n)),
                                                               cmp('==', cmp('<', ix[0], x), cmp(op, e.at(ix[0]), v))), 'ghost', trig=[e.buf.name])
        self.un = (len(c.universals) - 2, len(c.universals) - 1)
        for x in (p, q, sub(p, 1), sub(q, 1)):
            c.index_term(x)
        s = ite(cmp('>', p, 0), sub(p, 1), 0)
        l = ite(cmp('<', q, add(n, 1)), sub(q, 1), sub(n, 1))
        self.p, self.q = p, q
        self.s, self.m = s, add(sub(l, s), 1)

    def inst(self, *cs):
        """what is assumed of the edges of the given bins"""
        out = []
        for c in cs:
            for u in self.un:
                out += [self.V.instance(u, c), self.V.instance(u, add(c, 1))]
            out.append(self.V.instance(self.inc, c, add(c, 1)))
        return out

    def anchors(self):
        return [self.p, sub(self.q, 1), sub(self.q, self.p)]

    def total(self, g):
        """sum of g(c) f(c) over the old bins"""
        return npf.sum_range(self.n, lambda c: mul(self.f(c), g(c)))

    def window(self, g):
        """an instance of an axiom of finite sums: terms that are zero outside a window may be left out"""
        c = K.CTX
        n, s, m = self.n, self.s, self.m
        w = c.fresh('kap', K.I)
        h = lambda k: mul(self.f(k), g(k))
        whole = npf.sum_range(n, h)
        # (the witness is an index not in the window whose term is not zero, if there is one)
        zero = implies(land(cmp('<=', 0, w), cmp('<', w, n), lor(cmp('<', w, s), cmp('>=', w, add(s, m)))), cmp('==', h(w), 0))
        part = npf.sum_between(0, m, lambda j: h(add(s, j)))
        c.fact(implies(land(cmp('<=', 0, s), cmp('<=', 0, m), cmp('<=', add(s, m), n), zero), cmp('==', whole, part)), guarded=False)
        c.fact(implies(cmp('==', m, 1), cmp('==', part, h(s))), guarded=False)
        c.fact(implies(cmp('==', m, 2), cmp('==', part, add(h(s), h(add(s, 1))))), guarded=False)
        self.part = part
        return whole


def setup(V):
    n = V.int('n', 1)
    e = V.array('edges', add(n, 1))
    lo, hi = V.real('lo'), V.real('hi')
    V.assume(cmp('<', lo, hi))
    increasing(V, e, add(n, 1))
    inc = len(K.CTX.universals) - 1
    sp = Spec(V, n, e, lo, hi)
    sp.inc = inc
    sp.order = V.known_fact(cmp('<', lo, hi))
    return n, e, lo, hi, sp


@task('C05', 'C06', name='fraction of a bin')
def t(V):
    V.lemma_fn('the fraction by cases is overlap over length', 'rrrr', lambda a, b, lo, hi: land(cmp('<', a, b), cmp('<', lo, hi)),
               lambda a, b, lo, hi: cmp('==', mul(frac(a, b, lo, hi), sub(b, a)), covered(a, b, lo, hi)))


def disjoint(sp):
    return lor(cmp('<', sp.hi, sp.e.at(0)), cmp('>', sp.lo, sp.e.at(sp.n)))


def overlapping(sp):
    return land(cmp('>', sp.hi, sp.e.at(0)), cmp('<', sp.lo, sp.e.at(sp.n)))


def parts(t):
    """numerator and denominator, if the value is a quotient"""
    if isinstance(t, Sym) and z3.is_div(t.t):
        return t.t.arg(0), t.t.arg(1)
    return None


def establish(V, sp, got, g, name):
    """the sum in the result is the one over the window, which is the one over all the bins"""
    if z3.is_app(got) and got.decl().name() == 'SUM':
        part = npf.sum_between(0, sp.m, lambda j: mul(sp.f(add(sp.s, j)), g(add(sp.s, j))))
        sums_equal(V, name, got, K.lift(part))
    else:
        sum_of_ones(V, sp.m, lambda j: mul(sp.f(add(sp.s, j)), g(add(sp.s, j))))
    V.lemma(name + ' (all bins)', cmp('==', Sym(got), sp.total(g)))


def overlap_exists(V, sp):
    V.lemma('the window', land(cmp('<=', 0, sp.s), cmp('<=', 1, sp.m), cmp('<=', add(sp.s, sp.m), sp.n)))
    den = sp.window(lambda c: ONE)
    t = ite(cmp('>', sp.p, 0), ite(cmp('>', sp.e.at(sp.p), sp.lo), sub(sp.p, 1), sp.p), 0)
    rg = V.lemma('a bin in range', land(cmp('<=', 0, t), cmp('<', t, sp.n)))
    ends = [V.known_fact(cmp('>', sp.hi, sp.e.at(0))), V.known_fact(cmp('<', sp.lo, sp.e.at(sp.n)))]
    V.derive('a bin is covered', cmp('>', sp.f(t), 0), rg, sp.order, *(sp.inst(t, sub(sp.p, 1), sp.p) + ends))
    ok, pos = sum_positive(V, sp.n, sp.f, t)
    V.lemma('fractions are not negative', ok)
    V.ensure('the sum of the fractions is positive', pos)
    V.lemma('some overlap', pos)
    return den


def mean_of(V, sp, r, num, den, g, name):
    h = lambda c: mul(sp.f(c), g(c))
    one, two = cmp('==', sp.m, 1), cmp('==', sp.m, 2)
    ab = parts(strip(r))
    if ab and all(z3.is_app(x) and x.decl().name() == 'SUM' for x in ab) or ab and ab[0].decl().name() == 'SUM':
        establish(V, sp, ab[0], g, 'numerator')
        establish(V, sp, ab[1], lambda c: ONE, 'denominator')
    elif ab:
        e, p = sp.e, sp.p
        i = V.lemma('two bins', land(two, cmp('==', sp.s, sub(p, 1)), cmp('==', sp.q, add(p, 1))))
        w1 = strip(K.div(sub(e.at(p), sp.lo), sub(e.at(p), e.at(sub(p, 1)))))
        w2 = strip(K.div(sub(sp.hi, e.at(p)), sub(e.at(add(p, 1)), e.at(p))))
        f1, f2 = sp.f(sp.s), sp.f(add(sp.s, 1))
        f = V.lemma('the two fractions', land(cmp('==', f1, w1), cmp('==', f2, w2)))
        k1 = V.lemma('the sum over the window', cmp('==', num, sp.part))
        k2 = V.lemma('its two terms', cmp('==', sp.part, add(h(sp.s), h(add(sp.s, 1)))))
        V.derive('the two terms', cmp('==', num, add(mul(w1, g(sub(p, 1))), mul(w2, g(p)))), i, f, k1, k2)
        a = V.lemma('numerator', cmp('==', Sym(ab[0]), num))
        b = V.lemma('denominator', cmp('==', Sym(ab[1]), den))
        d = V.lemma('denominator is positive', cmp('>', den, 0))
        V.algebra('quotient', land(cmp('!=', Sym(ab[1]), 0), cmp('==', strip(K.div(num, den)), strip(r))), a, b, d, opaque=[num, den, Sym(ab[0]), Sym(ab[1])])
    else:
        V.lemma('one bin', one)
        x, y = sp.f(sp.s), g(sp.s)
        a = V.lemma('numerator', cmp('==', num, mul(x, y)))
        b = V.lemma('denominator', cmp('==', den, x))
        c = V.lemma('the bin', cmp('==', y, strip(r)))
        d = V.lemma('denominator is positive', cmp('>', den, 0))
        V.algebra('quotient', cmp('==', strip(K.div(num, den)), strip(r)), a, b, c, d, opaque=[num, den, strip(r), x, y])
    V.same(name, r, K.div(num, den))


@task('C05', name='_rebin_1d_single_bin', jobs=6)
def t(V):
    n, e, lo, hi, sp = setup(V)
    d = V.array('data', n)
    sp.ghosts()

    def post(r):
        with V.when(disjoint(sp)):
            V.ensure('NaN without overlap', isnan(r))
        with V.when(overlapping(sp)):
            if V.dead():
                return
            den = overlap_exists(V, sp)
            num = sp.window(lambda c: d.at(c))
            mean_of(V, sp, r, num, den, lambda c: d.at(c), 'weighted mean of the old bins')
    V.run(OD + '_rebin_1d_single_bin', [e, d, lo, hi], post=post)


def isnan(r):
    b = K.badof(r)
    return False if b is None else Sym(b)


@task('C06', name='rebin_1d_single_bin_weights')
def t(V):
    n, e, lo, hi, sp = setup(V)
    sp.ghosts()
    p, q = sp.p, sp.q

    def post(r):
        with V.when(disjoint(sp)):
            if not isinstance(r, Arr):
                V.ensure('NaN without overlap', isnan(r))
            elif not V.dead():
                V.ensure('NaN without overlap', False)
        with V.when(overlapping(sp)):
            if V.dead():
                return
            if not V.shape('weights', r, [n]):
                return
            with V.forall(n) as (c,):
                w = r.at(c)
                none, single = cmp('==', p, q), cmp('==', add(p, 1), q)
                first, last = land(single, cmp('==', p, 0)), land(single, cmp('==', p, n))
                unit = lambda b: ite(cmp('==', c, b), ONE, ZERO)
                V.same('weight', w, ite(none, unit(sub(p, 1)), ite(first, unit(0), ite(last, unit(sub(n, 1)), sp.f(c)))))
    V.run(OD + 'rebin_1d_single_bin_weights', [e, lo, hi], post=post)


# --- rebin_1d, from the contracts of the single bins

def single_stub(V, env, which, power):
    """contract: the quotient of the two sums when old and new bins overlap, NaN when they are disjoint, unspecified when they only touch"""
    e, d, lo, hi = (env[k] for k in ('bin_edges', which, 'bin_min', 'bin_max'))
    n = sub(e.shape()[0], 1)
    V.require('as many values as bins', cmp('==', d.shape()[0], n))
    V.require('a bin', cmp('>=', n, 1))
    V.require('new bin not empty', cmp('<', lo, hi))
    i = A.fresh_index([n], 'i')
    with V.ctx.under(A.inrange(i, [n])):
        V.require('increasing edges', cmp('<', e.at(i[0]), e.at(add(i[0], 1))))
    f = lambda c: frac(e.at(c), e.at(add(c, 1)), lo, hi)
    den = npf.sum_range(n, f)
    over = land(cmp('>', hi, e.at(0)), cmp('<', lo, e.at(n)))
    apart = lor(cmp('<', hi, e.at(0)), cmp('>', lo, e.at(n)))
    V.fact(implies(over, cmp('>', den, 0)))
    nan, odd = V.ctx.fresh('nan', K.B), V.ctx.fresh('touch', K.R)
    V.fact(land(implies(apart, nan), implies(over, lnot(nan))))
    if power == 1:
        v = strip(K.div(npf.sum_range(n, lambda c: mul(f(c), d.at(c))), den))
    else:
        v = K.sqrt(strip(K.div(npf.sum_range(n, lambda c: mul(f(c), mul(d.at(c), d.at(c)))), mul(den, den))))
    r = ite(over, strip(v), odd)
    return Sym(K.lift(r), K.lift(nan))


@stub(OD + '_rebin_1d_single_bin')
def s_bin(V, env):
    return single_stub(V, env, 'data', 1)


@stub(OD + '_rebin_1d_single_bin_sigma')
def s_sigma(V, env):
    return single_stub(V, env, 'sigma', 2)


def whole(V, weights, sigma):
    n, n2 = V.int('n', 1), V.int('n2', 1)
    e, e2 = V.array('edges', add(n, 1)), V.array('newedges', add(n2, 1))
    increasing(V, e, add(n, 1))
    increasing(V, e2, add(n2, 1))
    d = V.array('data', n)
    w = V.array('w', n) if weights else None
    s = V.array('sigma', n) if sigma else None
    V.use(OD + '_rebin_1d_single_bin')
    if sigma:
        V.use(OD + '_rebin_1d_single_bin_sigma')

    def post(r):
        if sigma:
            if not (isinstance(r, tuple) and len(r) == 2):
                V.ensure('two arrays', False)
                return
            r, rs = r
        if not V.shape('data', r, [n2]) or sigma and not V.shape('errors', rs, [n2]):
            return
        with V.forall(n2) as (i,):
            lo, hi = e2.at(i), e2.at(add(i, 1))
            f = lambda c: frac(e.at(c), e.at(add(c, 1)), lo, hi)
            one = lambda c: w.at(c) if weights else ONE
            den = npf.sum_range(n, lambda c: mul(f(c), one(c)))
            got, want = r.at(i), K.div(npf.sum_range(n, lambda c: mul(f(c), mul(one(c), d.at(c)))), den)
            with V.when(lor(cmp('<', hi, e.at(0)), cmp('>', lo, e.at(n)))):
                V.ensure('NaN without overlap', isnan(got))
                if sigma:
                    V.ensure('error is NaN without overlap', isnan(rs.at(i)))
            with V.when(land(cmp('>', hi, e.at(0)), cmp('<', lo, e.at(n)))):
                cover = npf.sum_range(n, f)
                if weights:
                    hp = V.lemma('some overlap', cmp('>', cover, 0))
                    num = npf.sum_range(n, lambda c: mul(f(c), mul(one(c), d.at(c))))
                    with V.when(cmp('!=', den, 0)):
                        V.algebra('the common factor cancels', cmp('==', V.resolve(strip(got)), strip(want)), hp, cmp('!=', den, 0), opaque=[cover, den, num])
                V.same('weighted mean', got, want)
                if sigma:
                    x = rs.at(i)
                    sq = lambda c: mul(mul(one(c), s.at(c)), mul(one(c), s.at(c)))
                    num = npf.sum_range(n, lambda c: mul(f(c), sq(c)))
                    ok, pos = sum_nonneg(V, n, lambda c: mul(f(c), sq(c)))
                    V.lemma('terms are not negative', ok)
                    V.lemma('sum of the terms', pos)
                    with V.when(cmp('!=', den, 0)):
                        y = V.resolve(strip(x))
                        if weights:
                            S = K.sqrt(strip(K.div(num, mul(cover, cover))))
                            q = V.lemma('root', cmp('==', mul(strip(S), strip(S)), strip(K.div(num, mul(cover, cover)))))
                            V.algebra('the common factor cancels in the error', cmp('==', mul(y, y), strip(K.div(num, mul(den, den)))), hp, cmp('!=', den, 0), q,
                                      opaque=[strip(S), num, den, cover])
                        V.same('square of the error', mul(x, x), K.div(num, mul(den, den)))
    V.run(OD + 'rebin_1d', [e, d, e2, w, s], post=post)


@task('C05', name='rebin_1d')
def t(V):
    whole(V, False, False)


@task('C05', name='rebin_1d (weights)')
def t(V):
    whole(V, True, False)


@task('C06', name='rebin_1d (errors)')
def t(V):
    whole(V, False, True)


@task('C06', name='rebin_1d (weights and errors)')
def t(V):
    whole(V, True, True)


@task('C05', name='rebin_1d (rejected)')
def t(V):
    """edges that do not increase and arrays of the wrong length are rejected"""
    n, m, n2 = V.int('n', 0), V.int('m', 0), V.int('n2', 0)
    mw, ms = V.int('mw', 0), V.int('ms', 0)
    e, e2 = V.array('edges', add(n, 1)), V.array('newedges', add(n2, 1))
    d, w, s = V.array('data', m), V.array('w', mw), V.array('sigma', ms)
    i, j = V.int('i', 0), V.int('j', 0)
    V.use(OD + '_rebin_1d_single_bin', OD + '_rebin_1d_single_bin_sigma')
    V.assume(lor(cmp('!=', n, m), cmp('!=', m, mw), cmp('!=', m, ms),
                 land(cmp('<', i, n), cmp('>', e.at(i), e.at(add(i, 1)))), land(cmp('<', j, n2), cmp('>', e2.at(j), e2.at(add(j, 1))))))
    V.ctx.index_term(i)
    V.ctx.index_term(j)

    def post(r):
        V.ensure('rejected', False)
    V.run(OD + 'rebin_1d', [e, d, e2, w, s], post=post, raises=lambda x: x.kind == 'AssertionError')


def length(sp, c):
    """length of old bin c and of its covered part, as code would write them, by cases"""
    e = sp.e
    a, b = e.at(c), e.at(add(c, 1))
    return [('first', land(cmp('==', c, sub(sp.p, 1)), cmp('<', c, sub(sp.q, 1))), sub(b, a), sub(b, sp.lo)),
            ('last', land(cmp('>=', c, sp.p), cmp('==', c, sub(sp.q, 1))), sub(b, a), sub(sp.hi, a)),
            ('inner', land(cmp('>=', c, sp.p), cmp('<', c, sub(sp.q, 1))), sub(b, a), sub(b, a)),
            ('within', land(cmp('==', c, sub(sp.p, 1)), cmp('==', c, sub(sp.q, 1))), sub(b, a), sub(sp.hi, sp.lo))]


def win(sp):
    return land(cmp('<=', 0, sp.p), cmp('<=', sp.p, sp.q), cmp('<=', sp.q, add(sp.n, 1)), cmp('<=', 1, sp.n))


def sides(V, sp):
    """whether the new bin begins below the first edge, ends above the last, and whether it has edges inside, as far as the path tells"""
    out = [V.lemma('length of the window', win(sp))]
    for qs in ((cmp('>', sp.p, 0), cmp('==', sp.p, 0)), (cmp('<=', sp.q, sp.n), cmp('==', sp.q, add(sp.n, 1))),
               (cmp('==', sp.q, sp.p), cmp('==', sp.q, add(sp.p, 1)), cmp('>', sp.q, add(sp.p, 1)))):
        for q in qs:
            if K.CTX.proves(q):
                out.append(V.lemma('side', q))
                break
    return out


def fraction(V, sp, c, nm, case, L, l):
    hs = sp.inst(c) + [V.lemma('range of the bin', land(cmp('<=', 0, c), cmp('<', c, sp.n))), case, sp.order]
    h2 = V.derive('lengths (%s)' % nm, land(cmp('>', L, 0), cmp('>=', l, 0), cmp('<=', l, L)), *hs)
    x = sp.f(c)
    h3 = V.derive('fraction (%s)' % nm, cmp('==', x, ONE if nm == 'inner' else strip(K.div(l, L))), *hs)
    return h2, h3, x


def agree(V, sp, got, d, g):
    """the term of the result at position k is the one of old bin s + k"""
    sd = sides(V, sp) + anchored(V, list(got.children()), sp.anchors())

    def prove(k, same):
        lo, hi, f = got.children()
        inr = land(cmp('<=', 0, k), cmp('<', k, sp.m))
        with V.when(inr):
            c = add(sp.s, k)
            rng = V.lemma('range of the sum', land(cmp('<=', Sym(lo), k), cmp('<', k, Sym(hi))))
            for nm, case, L, l in length(sp, c):
                with V.when(case):
                    if V.dead():
                        continue
                    T = solve.lam_at(f, k.t)
                    by = [case, inr, rng] + sd
                    T1, eqs = cases(V, T, by), []
                    T2 = normalize(V, T1, ('edges', 'sigma'), [c, add(c, 1)], eqs, by)
                    h1 = V.derive('the term (%s)' % nm, Sym(T == T2), *by)
                    h2, h3, x = fraction(V, sp, c, nm, case, L, l)
                    t = K.mk(T2)
                    V.algebra('term (%s)' % nm, cmp('==', t, mul(x, g(c))), h2, h3, opaque=[x, d.at(c)])
    return prove


def error_of(V, sp, r, num, den, d):
    sq = lambda c: mul(d.at(c), d.at(c))
    es = K.lift(strip(r))
    if z3.is_app(es) and es.decl().name() == 'sqrt':
        X = es.arg(0)
        want = strip(K.div(num, mul(den, den)))
        dp = V.lemma('denominator is positive', cmp('>', den, 0))
        if z3.is_div(X) and X.arg(0).decl().name() == 'SUM':
            a = X.arg(0)
            ys = [y for y in solve.flat_factors(X.arg(1))]
            part = npf.sum_between(0, sp.m, lambda j: mul(sp.f(add(sp.s, j)), sq(add(sp.s, j))))
            sums_equal(V, 'numerator', a, K.lift(part), prove=agree(V, sp, a, d, sq))
            h = [V.lemma('numerator (all bins)', cmp('==', Sym(a), num))]
            ops = [num, den, Sym(a)]
            for y in ys:
                if y.decl().name() == 'SUM':
                    part = npf.sum_between(0, sp.m, lambda j: sp.f(add(sp.s, j)))
                    sums_equal(V, 'denominator', y, K.lift(part), prove=agree(V, sp, y, d, lambda c: ONE))
                    h.append(V.lemma('denominator (all bins)', cmp('==', Sym(y), den)))
                    ops.append(Sym(y))
            V.algebra('under the root', cmp('==', Sym(X), want), dp, *h, opaque=ops)
        else:
            few(V, sp, X, want, num, den, d, dp)
        ok, pos = sum_nonneg(V, sp.n, lambda c: mul(sp.f(c), sq(c)))
        V.lemma('terms are not negative', ok)
        np_ = V.lemma('numerator is not negative', cmp('>=', num, 0))
        eq = cmp('==', Sym(X), want)
        nn = V.algebra('the variance is not negative', cmp('>=', Sym(X), 0), np_, dp, eq, opaque=[num, den, Sym(X)])
        V.derive('root', land(cmp('>=', Sym(es), 0), cmp('==', mul(Sym(es), Sym(es)), Sym(X))), nn, opaque=[Sym(X)])
    V.defined('error', r)
    V.ensure('error is not negative', cmp('>=', strip(r), 0))
    V.same('square of the error', mul(r, r), K.div(num, mul(den, den)))


def few(V, sp, X, want, num, den, d, dp):
    """one or two bins"""
    sq = lambda c: mul(d.at(c), d.at(c))
    e, s, p = sp.e, sp.s, sp.p
    V.window_den = den
    part_num = npf.sum_between(0, sp.m, lambda j: mul(sp.f(add(s, j)), sq(add(s, j))))
    part_den = npf.sum_between(0, sp.m, lambda j: sp.f(add(s, j)))
    sd = sides(V, sp) + anchored(V, [X], sp.anchors())
    k1 = V.lemma('the sums over the window', land(cmp('==', num, part_num), cmp('==', den, part_den)))
    for m in (1, 2):
        with V.when(cmp('==', sp.m, m)):
            if V.dead():
                continue
            cs = [add(s, j) for j in range(m)]
            fs = [sp.f(c) for c in cs]
            tot = lambda xs: xs[0] if m == 1 else add(xs[0], xs[1])
            k2 = V.lemma('their terms', land(cmp('==', part_num, tot([mul(x, sq(c)) for x, c in zip(fs, cs)])), cmp('==', part_den, tot(fs))))
            hs = [k1, k2, dp]
            for j, c in enumerate(cs):
                for nm, case, L, l in length(sp, c):
                    if K.CTX.proves(case):
                        V.lemma('case %s' % nm, case)
                        hs += fraction(V, sp, c, nm, case, L, l)[:2]
                        for q in (cmp('>', l, 0), cmp('==', l, 0)):
                            if K.CTX.proves(q):
                                hs.append(V.lemma('covered length', q))
                                break
                        break
            by = [cmp('==', sp.m, m)] + sd
            X2 = normalize(V, cases(V, X, by), ('edges', 'sigma'), cs + [add(cs[-1], 1)], None, by)
            h = V.derive('under the root, by bins', Sym(X == X2), *by)
            V.algebra('under the root', Sym(X2 == K.lift(want)), *hs, opaque=[num, den, part_num, part_den] + fs + [d.at(c) for c in cs])
            V.lemma('the variance', Sym(X == K.lift(want)))


@task('C06', name='_rebin_1d_single_bin_sigma', jobs=7)
def t(V):
    n, e, lo, hi, sp = setup(V)
    d = V.array('sigma', n)
    sp.ghosts()

    def post(r):
        with V.when(disjoint(sp)):
            V.ensure('NaN without overlap', isnan(r))
        with V.when(overlapping(sp)):
            if V.dead():
                return
            den = overlap_exists(V, sp)
            sq = lambda c: mul(d.at(c), d.at(c))
            num = sp.window(sq)
            error_of(V, sp, r, num, den, d)
    V.run(OD + '_rebin_1d_single_bin_sigma', [e, d, lo, hi], post=post)
