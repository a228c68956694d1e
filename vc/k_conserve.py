"""C03: what the contract of the remap (k_fort, k_remap) implies."""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve
from .k_fort import Axis, axis, sizes, target

ALL = ('C03',)


# --- axioms of finite sums (instances of)
def telescope(V, name, n, body, T):
    """the terms are differences of successive values of T"""
    c = K.CTX
    k = c.fresh('kap', K.I)
    s = raw_sum(V, 0, n, body)
    step = implies(land(cmp('<=', 0, k), cmp('<', k, n)), cmp('==', body(k), sub(T(add(k, 1)), T(k))))
    eq = cmp('==', Sym(s), sub(T(n), T(0)))
    c.fact(implies(land(step, cmp('>=', n, 0)), eq), guarded=False)
    V.lemma(name + ': differences', step)
    V.lemma(name, eq)
    return Sym(s)


def fubini(V, n, m, g):
    """sum over i of the sum over c = sum over c of the sum over i.  (the two terms)"""
    a = npf.sum_between(0, n, lambda i: strip(npf.sum_between(0, m, lambda c: g(i, c))))
    b = npf.sum_between(0, m, lambda c: strip(npf.sum_between(0, n, lambda i: g(i, c))))
    V.fact(cmp('==', strip(a), strip(b)))
    return strip(a), strip(b)


def total(dims, g):
    if not dims:
        return g()
    return strip(npf.sum_between(0, dims[0], lambda i: total(dims[1:], lambda *r: g(i, *r))))


def totals_equal(V, name, dims, f, g, prove):
    """f = g at every index (prove(index) shows it), so the sums are equal"""
    if not dims:
        prove()
        return V.lemma(name, cmp('==', f(), g()))
    F = lambda i: total(dims[1:], lambda *r: f(i, *r))
    G = lambda i: total(dims[1:], lambda *r: g(i, *r))
    a, b = raw_sum(V, 0, dims[0], F), raw_sum(V, 0, dims[0], G)

    def step(k, same):
        with V.when(land(cmp('<=', 0, k), cmp('<', k, dims[0]))):
            totals_equal(V, name, dims[1:], lambda *r: f(k, *r), lambda *r: g(k, *r), lambda *r: prove(k, *r))
    sums_equal(V, name, a, b, prove=step)
    return V.lemma(name, cmp('==', total(dims, f), total(dims, g)))


# --- an axis
@task(*ALL, name='the parts of an old cell add up')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    V.assume(cmp('<=', ax.lo2, ax.lo1))
    V.assume(cmp('>=', ax.hi2, ax.hi1))
    c = V.int('c', 0)
    V.assume(cmp('<', c, ax.n1))
    a, b, d = ax.e1(c), ax.e1(add(c, 1)), ax.d2
    V.lemma('edges', cmp('==', b, add(a, ax.d1)))
    p = V.lemma('size 1', cmp('==', mul(ax.d1, R(ax.n1)), sub(ax.hi1, ax.lo1)))
    V.lemma('size 2', cmp('==', mul(ax.d2, R(ax.n2)), sub(ax.hi2, ax.lo2)))
    V.lemma('first edge', cmp('>=', a, ax.lo1))
    V.lemma('last edge', cmp('<=', b, ax.hi1))
    T = lambda i: K.minv(K.maxv(ax.e2(i), a), b)
    s = telescope(V, 'telescope', ax.n2, lambda i: ax.cover(c, i), T)
    V.ensure('the parts add up to the cell', cmp('==', s, ax.d1))


@task(*ALL, name='the parts of a new cell add up')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    i = V.int('i', 0)
    V.assume(cmp('<', i, ax.n2))
    a, b = ax.e2(i), ax.e2(add(i, 1))
    V.assume(cmp('>=', a, ax.lo1))
    V.assume(cmp('<=', b, ax.hi1))
    V.lemma('edges', cmp('==', b, add(a, ax.d2)))
    V.lemma('size 1', cmp('==', mul(ax.d1, R(ax.n1)), sub(ax.hi1, ax.lo1)))
    T = lambda c: K.minv(K.maxv(ax.e1(c), a), b)
    s = telescope(V, 'telescope', ax.n1, lambda c: ax.cover(c, i), T)
    V.ensure('the parts add up to the cell', cmp('==', s, ax.d2))


@task(*ALL, name='covered fractions')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    i, c = V.int('i'), V.int('c')
    V.ensure('not negative', cmp('>=', ax.w(c, i), 0))
    V.ensure('times the size of the cell', cmp('==', mul(ax.d2, ax.w(c, i)), ax.cover(c, i)))
    # sums of fractions and sums of lengths
    S = npf.sum_between(0, ax.n1, lambda k: ax.cover(k, i))
    Q = raw_sum(V, 0, ax.n1, lambda k: ax.w(k, i))
    q = raw_sum(V, 0, ax.n1, lambda k: mul(ax.d2, ax.w(k, i)))
    s = raw_sum(V, 0, ax.n1, lambda k: ax.cover(k, i))
    sums_equal(V, 'sum over the old cells', q, s)
    V.ensure('the fractions of a new cell inside the old grid add up to one', implies(cmp('==', Sym(s), ax.d2), cmp('==', Sym(Q), 1)))
    q = raw_sum(V, 0, ax.n2, lambda k: mul(ax.d2, ax.w(c, k)))
    s = raw_sum(V, 0, ax.n2, lambda k: ax.cover(c, k))
    sums_equal(V, 'sum over the new cells', q, s)
    V.ensure('size of an old cell', implies(cmp('==', Sym(s), ax.d1), cmp('==', Sym(q), ax.d1)))


R = K.toreal_s


class Fractions(object):
    """an axis, known by the facts above"""
    def __init__(self, V, p):
        self.n1, self.n2 = V.int(p + 'grid1', 1), V.int(p + 'grid2', 1)
        self.d1, self.d2 = V.real(p + 'size1'), V.real(p + 'size2')
        V.assume(cmp('>', self.d1, 0))
        V.assume(cmp('>', self.d2, 0))
        self.W = z3.Function(K.CTX.name('W' + p), K.I, K.I, K.R)
        self.V = V

    def w(self, c, i):
        return Sym(self.W(K.lift(c), K.lift(i)))

    def nonneg(self, c, i):
        self.V.fact(cmp('>=', self.w(c, i), 0))

    def fill(self, i):
        """new cell i is inside the old grid"""
        self.V.fact(cmp('==', strip(npf.sum_between(0, self.n1, lambda c: self.w(c, i))), 1))

    def split(self, c):
        """the new grid covers the old one"""
        self.V.fact(cmp('==', Sym(raw_sum(self.V, 0, self.n2, lambda i: mul(self.d2, self.w(c, i)))), self.d1))


def new(axs, f, idx, chosen=()):
    """contract of the remap: the value of a new cell"""
    d = len(chosen)
    if d == len(axs):
        return f(*chosen)
    return strip(npf.sum_between(0, axs[d].n1, lambda c: mul(axs[d].w(c, idx[d]), new(axs, f, idx, chosen + (c,)))))


def pull(V, name, dims, m, g):
    """sums over dims of the sum over c < m of g(c, index) = the sum over c of the sums"""
    if not dims:
        return
    # the inner ones first
    H = lambda i: total(dims[1:], lambda *r: strip(npf.sum_between(0, m, lambda c: g(c, i, *r))))
    G = lambda i, c: total(dims[1:], lambda *r: g(c, i, *r))
    if len(dims) > 1:
        a = raw_sum(V, 0, dims[0], H)
        b = raw_sum(V, 0, dims[0], lambda i: strip(npf.sum_between(0, m, lambda c: G(i, c))))

        def step(k, same):
            with V.when(land(cmp('<=', 0, k), cmp('<', k, dims[0]))):
                pull(V, name, dims[1:], m, lambda c, *r: g(c, k, *r))
        sums_equal(V, name, a, b, prove=step)
    fubini(V, dims[0], m, G)
    V.lemma(name, cmp('==', total(dims, lambda *r: strip(npf.sum_between(0, m, lambda c: g(c, *r)))),
                      strip(npf.sum_between(0, m, lambda c: total(dims, lambda *r: g(c, *r))))))


def conserve(V, axs, f):
    """the sums (over the first axis innermost) of the new field times the sizes = the sums of the old field times the sizes"""
    ax, rest = axs[0], axs[1:]
    D = [a.n2 for a in reversed(rest)]
    nm = 'axis %d of %d: ' % (3 - len(rest), 3) if len(rest) else 'last axis: '
    h = lambda c, *r: new(rest, lambda *q: f(c, *q), list(reversed(r)))      # r: the last axis first
    size = lambda q: mul(volume(rest), q) if rest else q
    whole = lambda *r: strip(npf.sum_between(0, ax.n2, lambda i: mul(ax.d2, strip(npf.sum_between(0, ax.n1, lambda c: mul(ax.w(c, i), h(c, *r)))))))
    first = lambda *r: strip(npf.sum_between(0, ax.n1, lambda c: mul(ax.d1, h(c, *r))))

    def line(*r):
        """one axis"""
        a, b = fubini(V, ax.n2, ax.n1, lambda i, c: mul(mul(ax.d2, ax.w(c, i)), h(c, *r)))
        p = raw_sum(V, 0, ax.n1, lambda c: strip(npf.sum_between(0, ax.n2, lambda i: mul(mul(ax.d2, ax.w(c, i)), h(c, *r)))))
        q = raw_sum(V, 0, ax.n1, lambda c: mul(ax.d1, h(c, *r)))

        def step(k, same):
            with V.when(land(cmp('<=', 0, k), cmp('<', k, ax.n1))):
                ax.split(k)
                S = strip(npf.sum_between(0, ax.n2, lambda i: ax.w(k, i)))
                e = V.lemma(nm + 'parts', cmp('==', mul(ax.d2, S), ax.d1))
                H = h(k, *r)
                V.algebra(nm + 'part of a cell', cmp('==', mul(mul(ax.d2, S), H), mul(ax.d1, H)), e, opaque=[S, H])
        sums_equal(V, nm + 'cells', p, q, prove=step)
        V.lemma(nm + 'line', cmp('==', whole(*r), first(*r)))
    totals_equal(V, nm + 'lines', D, whole, first, line)
    if rest:
        pull(V, nm + 'exchange', D, ax.n1, lambda c, *r: mul(ax.d1, h(c, *r)))
        lhs = lambda c: total(D, lambda *r: h(c, *r))
        rhs = lambda c: total([a.n1 for a in rest], lambda *q: f(c, *q))
        a = raw_sum(V, 0, ax.n1, lambda c: mul(volume2(rest), lhs(c)))
        b = raw_sum(V, 0, ax.n1, lambda c: mul(volume(rest), rhs(c)))

        def step(k, same):
            with V.when(land(cmp('<=', 0, k), cmp('<', k, ax.n1))):
                conserve(V, rest, lambda *q: f(k, *q))
        sums_equal(V, nm + 'rest', a, b, prove=step)
    A_ = mul(volume2(axs), total(D + [ax.n2], lambda *r: new(axs, f, list(reversed(r)))))
    B_ = mul(volume(axs), total([a.n1 for a in axs], f))
    return V.lemma(nm + 'conserved', cmp('==', A_, B_))


def volume(axs):
    v = axs[0].d1
    for a in axs[1:]:
        v = mul(v, a.d1)
    return v


def volume2(axs):
    v = axs[0].d2
    for a in axs[1:]:
        v = mul(v, a.d2)
    return v


def laws(dim):
    @task(*ALL, name='mass in %dD' % dim)
    def t(V):
        V.ctx.plain_sums = True
        axs = [Fractions(V, p) for p in 'xyz'[:dim]]
        f = V.array('f', *[a.n1 for a in axs])
        conserve(V, axs, lambda *c: f.at(*c))
        D = [a.n2 for a in reversed(axs)]
        V.ensure('the sum of value times cell volume is kept',
                 cmp('==', mul(volume2(axs), total(D, lambda *r: new(axs, lambda *c: f.at(*c), list(reversed(r))))),
                     mul(volume(axs), total([a.n1 for a in axs], lambda *c: f.at(*c)))))

    @task(*ALL, name='constants in %dD' % dim)
    def t(V):
        V.ctx.plain_sums = True
        axs = [Fractions(V, p) for p in 'xyz'[:dim]]
        C = V.real('C')
        idx = [V.int('i' + p) for p in 'xyz'[:dim]]
        for a, i in zip(axs, idx):
            a.fill(i)
        v = C
        for n in range(dim - 1, -1, -1):
            w = strip(npf.sum_between(0, axs[n].n1, lambda c: axs[n].w(c, idx[n])))
            v = V.rewrite(mul(w, v), w, Fraction(1), 'axis %d' % n)
        V.ensure('a constant is kept', cmp('==', new(axs, lambda *c: C, idx), C))

    @task(*ALL, name='bounds in %dD' % dim)
    def t(V):
        V.ctx.plain_sums = True
        axs = [Fractions(V, p) for p in 'xyz'[:dim]]
        f = V.array('f', *[a.n1 for a in axs])
        lo, hi = V.real('lo'), V.real('hi')
        idx = [V.int('i' + p) for p in 'xyz'[:dim]]
        for a, i in zip(axs, idx):
            a.fill(i)
        V.forall_fact(dim, lambda ix: implies(land(*[land(cmp('<=', 0, c), cmp('<', c, a.n1)) for c, a in zip(ix, axs)]),
                                              land(cmp('<=', lo, f.at(*ix)), cmp('<=', f.at(*ix), hi))), trig=[f.buf.name])

        def bound(chosen):
            d = len(chosen)
            if d == dim:
                return
            g = lambda c: new(axs, lambda *q: f.at(*q), idx, chosen + (c,))
            for sgn, b in ((1, hi), (-1, lo)):
                body = lambda c: (sub(mul(b, axs[d].w(c, idx[d])), mul(axs[d].w(c, idx[d]), g(c))) if sgn > 0 else
                                  sub(mul(axs[d].w(c, idx[d]), g(c)), mul(b, axs[d].w(c, idx[d]))))
                w = K.CTX.fresh('kap', K.I)
                s = Sym(raw_sum(V, 0, axs[d].n1, body))
                ok = lnot(land(cmp('<=', 0, w), cmp('<', w, axs[d].n1), cmp('<', body(w), 0)))
                V.ctx.fact(implies(ok, cmp('>=', s, 0)), guarded=False)
                with V.when(land(cmp('<=', 0, w), cmp('<', w, axs[d].n1))):
                    axs[d].nonneg(w, idx[d])
                    bound(chosen + (w,))
                    q = V.lemma('bound %d' % d, land(cmp('<=', lo, g(w)), cmp('<=', g(w), hi)))
                    W = V.lemma('weight %d' % d, cmp('>=', axs[d].w(w, idx[d]), 0))
                    V.algebra('term %d' % d, cmp('>=', body(w), 0), q, W, opaque=[g(w), axs[d].w(w, idx[d])])
                V.lemma('terms %d' % d, ok)
                S = strip(npf.sum_between(0, axs[d].n1, lambda c: axs[d].w(c, idx[d])))
                one = V.lemma('fractions %d' % d, cmp('==', S, 1))
                T = new(axs, lambda *q: f.at(*q), idx, chosen)
                pos = V.lemma('slack %d' % d, cmp('>=', sub(mul(b, S), T) if sgn > 0 else sub(T, mul(b, S)), 0))
                V.algebra('side %d' % d, cmp('<=', T, b) if sgn > 0 else cmp('>=', T, b), pos, one, opaque=[S, T])
        bound(())
        T = new(axs, lambda *q: f.at(*q), idx)
        V.ensure('between the bounds of the field', land(cmp('<=', lo, T), cmp('<=', T, hi)))

    @task(*ALL, name='linear in %dD' % dim)
    def t(V):
        V.ctx.plain_sums = True
        axs = [Fractions(V, p) for p in 'xyz'[:dim]]
        f, g = [V.array(n, *[a.n1 for a in axs]) for n in 'fg']
        al, be = V.real('alpha'), V.real('beta')
        idx = [V.int('i' + p) for p in 'xyz'[:dim]]
        F, G, B = (lambda *c: f.at(*c)), (lambda *c: g.at(*c)), (lambda *c: add(mul(al, f.at(*c)), mul(be, g.at(*c))))

        def lin(chosen):
            d = len(chosen)
            if d == dim:
                return
            a, w = axs[d], lambda c: axs[d].w(c, idx[d])
            N = lambda h, c: new(axs, h, idx, chosen + (c,))
            p = raw_sum(V, 0, a.n1, lambda c: mul(w(c), N(B, c)))
            q = raw_sum(V, 0, a.n1, lambda c: add(mul(al, mul(w(c), N(F, c))), mul(be, mul(w(c), N(G, c)))))

            def step(k, same):
                with V.when(land(cmp('<=', 0, k), cmp('<', k, a.n1))):
                    lin(chosen + (k,))
                    b_, f_, g_ = N(B, k), N(F, k), N(G, k)
                    e = V.lemma('axis %d: inner' % d, cmp('==', b_, add(mul(al, f_), mul(be, g_))))
                    V.algebra('axis %d: term' % d, cmp('==', mul(w(k), b_), add(mul(al, mul(w(k), f_)), mul(be, mul(w(k), g_)))), e,
                              opaque=[w(k)] + ([b_, f_, g_] if d < dim - 1 else []))
            sums_equal(V, 'axis %d' % d, p, q, prove=step)
        lin(())
        both = new(axs, B, idx)
        V.ensure('linear in the field', cmp('==', both, add(mul(al, new(axs, lambda *c: f.at(*c), idx)), mul(be, new(axs, lambda *c: g.at(*c), idx)))))


for d in (1, 2, 3):
    laws(d)
