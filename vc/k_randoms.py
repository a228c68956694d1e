"""C22-C24: random points, random values of a distribution, subsampling.

A draw of numpy is an arbitrary value of [0, 1); the contracts say which function of independent draws each
result is, so that they determine its distribution: a coordinate is uniform when its image under the measure
is a draw (or 1 - the draw) that no other result uses.
"""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve

RND = 'magpie.randoms.'
TWOPI = lambda: mul(2, K.PI())


def draws_in(t):
    return [x for x in solve.apps(K.lift(t)) if x.decl().name().startswith('rnd')] + \
           [c for c in consts(K.lift(t)) if c.decl().name().startswith('rnd')]


def consts(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
    return out


def uniforms(V, cols, n):
    """cols: (name, array, image, lower, upper): image(value) = a + b u with u uniform, given as (lhs, lo, hi)
    such that lhs(value) = lo + (hi - lo) u"""
    used = []
    for name, r, lhs, lo, hi in cols:
        if not V.shape(name, r, [n], 'f'):
            continue
        with V.forall(n) as (i,):
            v = r.at(i)
            V.defined(name + ' is a number', v)
            v = strip(v)
            us = draws_in(v)
            if len(us) != 1:
                raise Unsupported('%s depends on %d draws' % (name, len(us)))
            u = us[0]
            used.append((name, u, i))
            a, b = K.CTX.fresh('u', K.R), K.CTX.fresh('u', K.R)
            for x in (a, b):
                V.fact(land(x >= 0, x < 1))
            at = lambda x: K.mk(z3.substitute(v.t, (u, x.t)))
            d = sub(hi, lo)
            one = lambda x: cmp('==', lhs(at(x)), add(lo, mul(d, x)))
            two = lambda x: cmp('==', lhs(at(x)), sub(hi, mul(d, x)))
            V.ensure('%s is uniform' % name, lor(land(one(a), one(b)), land(two(a), two(b))))
    # independence: the draws are distinct, over the points and over the coordinates
    for k, (name, u, i) in enumerate(used):
        j = K.CTX.fresh('j', K.I)
        with V.when(land(cmp('<=', 0, i), cmp('<', i, n), cmp('<=', 0, j), cmp('<', j, n))):
            for name2, w, i2 in used[:k + 1]:
                w2 = z3.substitute(w, (i2.t, j.t))
                same = u.decl().eq(w.decl())
                if not same:
                    continue
                if u.num_args() == 0:
                    V.ensure('%s and %s use different draws' % (name, name2), name == name2 and cmp('==', n, 1))
                    continue
                eq = land(*[K.mk(p == q) for p, q in zip(u.children(), w2.children())])
                V.ensure('%s and %s use different draws' % (name, name2), implies(cmp('!=', i, j) if name == name2 else True, lnot(eq)))


def within(V, name, r, n, lo, hi):
    if isinstance(r, Arr) and r.ndim == 1:
        with V.forall(n) as (i,):
            V.ensure('%s within the limits' % name, land(cmp('>=', strip(r.at(i)), lo), cmp('<=', strip(r.at(i)), hi)))


# ------------------------------------------------------------------ C22
def column(arrs, k):
    return arrs[k]


for nd in (1, 2, 3):
    for how in ('default', 'given'):
        @task('C22', name='randoms_%dd[%s]' % (nd, how))
        def t(V, nd=nd, how=how):
            n = V.int('size', 0)
            if how == 'default':
                lo, hi, kw = [Fraction(0)] * nd, [Fraction(1)] * nd, {}
            else:
                lo = [V.real('min%d' % k) for k in range(nd)]
                hi = [V.real('max%d' % k) for k in range(nd)]
                for l, h in zip(lo, hi):
                    V.assume(cmp('<', l, h))
                kw = dict(xmin=lo[0], xmax=hi[0]) if nd == 1 else dict(mins=list(lo), maxs=list(hi))

            def post(r):
                rs = [r] if nd == 1 else list(r)
                V.ensure('%d coordinates' % nd, len(rs) == nd)
                cols = [('coordinate %d' % k, rs[k], lambda v: v, lo[k], hi[k]) for k in range(nd)]
                uniforms(V, cols, n)
                for k in range(nd):
                    within(V, 'coordinate %d' % k, rs[k], n, lo[k], hi[k])
            V.run(RND + 'cart.randoms_%dd' % nd, [n], kw, post=post)


def limits(V, names, how):
    g = dict(r_min=Fraction(0), r_max=Fraction(1), phi_min=Fraction(0), phi_max=TWOPI(), theta_min=Fraction(0), theta_max=K.PI())
    kw = {}
    if how == 'given':
        for q in names:
            for e in ('_min', '_max'):
                kw[q + e] = g[q + e] = V.real(q + e)
            V.assume(cmp('<', kw[q + '_min'], kw[q + '_max']))
        if 'r' in names:
            V.assume(cmp('>=', g['r_min'], 0))
        if 'theta' in names:
            V.assume(land(cmp('>=', g['theta_min'], 0), cmp('<=', g['theta_max'], K.PI())))
    return g, kw


def check_curved(V, names, r, n, g, e):
    cols = []
    for q, v in zip(names, r):
        if q == 'phi':
            cols.append((q, v, lambda x: x, g['phi_min'], g['phi_max']))
        elif q == 'theta':
            cols.append((q, v, K.cos, K.cos(g['theta_min']), K.cos(g['theta_max'])))
        else:
            p = (lambda x: mul(x, x)) if e == 2 else (lambda x: mul(x, mul(x, x)))
            cols.append((q, v, p, p(g['r_min']), p(g['r_max'])))
    uniforms(V, cols, n)
    for q, v in zip(names, r):
        within(V, q, v, n, g[q + '_min'], g[q + '_max'])


for kind, qual, names, e in (('polar', 'polar.randoms_polar', ('r', 'phi'), 2), ('usphere', 'usphere.randoms_usphere', ('phi', 'theta'), 3),
                             ('sphere', 'sphere.randoms_sphere', ('r', 'phi', 'theta'), 3), ('r', 'sphere.randoms_sphere_r', ('r',), 3)):
    for how in ('default', 'given'):
        @task('C22', name='%s[%s]' % (qual.split('.')[1], how))
        def t(V, qual=qual, names=names, e=e, how=how, kind=kind):
            n = V.int('size', 0)
            g, kw = limits(V, names, how)

            def post(r):
                rs = [r] if kind == 'r' else list(r)
                V.ensure('%d coordinates' % len(names), len(rs) == len(names))
                check_curved(V, names, rs, n, g, e)
            V.run(RND + qual, [n], kw, post=post)


# ------------------------------------------------------------------ C23
def cdf_of(V, x0, dx, n, p):
    """edges, cdf and normalised pdf"""
    f = p.fn()
    S = lambda k: npf.sum_between(0, k, lambda j: f((j,)))
    tot = S(n)
    x = Arr(Buf([add(n, 1)], lambda idx: add(sub(x0, mul(Fraction(1, 2), dx)), mul(K.toreal_s(idx[0]), dx)), 'f'))
    c = Arr(Buf([add(n, 1)], lambda idx: K.div(S(idx[0]), tot), 'f'))
    q = Arr(Buf([n], lambda idx: K.div(f((idx[0],)), mul(tot, dx)), 'f'))
    return x, c, q, tot


def pdf_args(V):
    n = V.int('n', 2)
    x0, dx = V.real('x0'), V.real('dx')
    V.assume(cmp('>', dx, 0))
    xm = Arr(Buf([n], lambda idx: add(x0, mul(K.toreal_s(idx[0]), dx)), 'f'))
    V.ctx.readonly[id(xm.buf)] = 'argument xmid'
    p = V.array('pdf', n)
    V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)), cmp('>=', p.at(ix[0]), 0)))
    x, c, q, tot = cdf_of(V, x0, dx, n, p)
    V.assume(cmp('>', tot, 0))
    return n, x0, dx, xm, p, x, c, q, tot


for norm in (True, False, 'default'):
    @task('C23', name='pdf2cdf[return_normpdf=%s]' % norm)
    def t(V, norm=norm):
        n, x0, dx, xm, p, x, c, q, tot = pdf_args(V)
        kw = {} if norm == 'default' else dict(return_normpdf=norm)

        def post(r):
            V.ensure('outputs', len(r) == (2 if norm is False else 3))
            V.equal('edges', r[0], x)
            V.equal('cdf', r[1], c)
            if norm is not False:
                V.equal('normalised pdf', r[2], q)
            if isinstance(r[1], Arr) and r[1].ndim == 1:
                V.same('the cdf begins at 0', r[1].at(0), Fraction(0))
                V.same('the cdf ends at 1', r[1].at(n), Fraction(1))
                with V.forall(n) as (i,):
                    V.ensure('the cdf does not decrease', cmp('<=', strip(r[1].at(i)), strip(r[1].at(add(i, 1)))))
        V.run(RND + 'pdf.pdf2cdf', [xm, p], kw, post=post)


def inverse_ok(V, name, r, n, m, x, c):
    """r is where the piecewise linear function through (x, c) takes the value of a draw"""
    if not V.shape(name, r, [n], 'f'):
        return
    with V.forall(n) as (i,):
        v = r.at(i)
        V.defined(name + ' is a number', v)
        v = strip(v)
        us = draws_in(v)
        seg = sorted(set(a for a in solve.apps(K.lift(v)) if a.decl().name().startswith('seg')), key=str)
        if len(seg) != 1 or not us:
            raise Unsupported('a value of the distribution from %d draws' % len(us))
        u = [d for d in us if d.num_args()]
        u = K.mk(u[0])
        s = K.mk(seg[0])
        V.ensure('a segment of the cdf', land(cmp('>=', s, 0), cmp('<', s, sub(m, 1))))
        xs, xe, cs, ce = [strip(a.at(b)) for a in (x, c) for b in (s, add(s, 1))]
        V.ensure('the value is in the segment', land(cmp('<=', xs, v), cmp('<=', v, xe)))
        V.ensure('the cdf there is the draw', cmp('==', mul(sub(v, xs), sub(ce, cs)), mul(sub(u, cs), sub(xe, xs))))
        V.ensure('within the range', land(cmp('>=', v, strip(x.at(0))), cmp('<=', v, strip(x.at(sub(m, 1))))))
    j = K.CTX.fresh('j', K.I)
    with V.forall(n) as (i,):
        us = [a for a in draws_in(strip(r.at(i))) if a.num_args()]
        vs = [a for a in draws_in(strip(r.at(j))) if a.num_args()]
        with V.when(land(cmp('<=', 0, j), cmp('<', j, n), cmp('!=', i, j))):
            V.ensure('every value has its own draw', lnot(land(*[K.mk(p == q) for p, q in zip(us[0].children(), vs[0].children())])))


def monotone(V, a, n, strict=True):
    op = '<' if strict else '<='
    V.forall_fact(2, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], ix[1]), cmp('<', ix[1], n)), cmp(op, a.at(ix[0]), a.at(ix[1]))),
                  trig=[a.buf.name], pair=True)


@task('C23', name='randoms_cdf')
def t(V):
    m, n = V.int('m', 2), V.int('size', 0)
    x, c = V.array('x', m), V.array('cdf', m)
    monotone(V, x, m)
    monotone(V, c, m)
    ok = land(cmp('==', c.at(0), 0), cmp('==', c.at(sub(m, 1)), 1))
    V.run(RND + 'pdf.randoms_cdf', [x, c, n], dict(kind='linear'), raises=lambda e: land(lnot(ok), e.kind in ('AssertionError', 'ValueError')),
          post=lambda r: (V.ensure('the cdf runs from 0 to 1', ok), inverse_ok(V, 'value', r, n, m, x, c)))


@stub(RND + 'pdf.pdf2cdf')
def s_pdf2cdf(V, env):
    xm, p = env['xmid'], env['pdf']
    n = xm.dims[0]
    x0, dx = xm.at(0), sub(xm.at(1), xm.at(0))
    x, c, q, tot = cdf_of(V, x0, dx, n, p)
    V.require('a positive sum', cmp('>', tot, 0))
    # monotone, as the pdf is positive (established for pdf2cdf)
    r = [x, c, q] if env['return_normpdf'] is True else [x, c]
    return tuple(r)


@task('C23', name='randoms_pdf')
def t(V):
    n, x0, dx, xm, p, x, c, q, tot = pdf_args(V)
    V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)), cmp('>', p.at(ix[0]), 0)))
    V.use(RND + 'pdf.pdf2cdf')
    size = V.int('size', 0)

    def s_cdf(V, env):
        V.equal('x passed to randoms_cdf', env['x'], x)
        V.equal('cdf passed to randoms_cdf', env['cdf'], c)
        V.require('the size', cmp('==', env['size'], size))
        V.require('the interpolation', env['kind'] == 'linear')
        V.result = Arr(Buf([size], lambda idx: K.mk(z3.Function('values', K.I, K.R)(K.lift(idx[0]))), 'f'))
        return V.result
    V.stub_with(RND + 'pdf.randoms_cdf', s_cdf)
    V.run(RND + 'pdf.randoms_pdf', [xm, p, size], dict(kind='linear'), post=lambda r: V.equal('the values', r, V.result))


# ------------------------------------------------------------------ C24
def index_of(t, name):
    """the application of the array called name in t"""
    a = [x for x in solve.apps(K.lift(t)) if x.decl().name() == name]
    if len(a) != 1:
        raise Unsupported('a member that is not one of the sample')
    if not K.lift(t).eq(a[0]):
        raise Unsupported('a changed member')
    return K.mk(a[0].arg(0))


def members(V, name, r, k, n, key, sample='sample', smallest=True):
    """r has k items, distinct members of the sample, those with the smallest keys; key: index -> value"""
    if not V.shape(name, r, [k]):
        return
    j = K.CTX.fresh('j', K.I)
    with V.forall(k) as (i,):
        gi, gj = index_of(r.at(i), sample), index_of(r.at(j), sample)
        V.ensure('a member of the sample', land(cmp('>=', gi, 0), cmp('<', gi, n)))
        with V.when(land(cmp('<=', 0, j), cmp('<', j, k), cmp('!=', i, j))):
            V.ensure('no member twice', cmp('!=', gi, gj))
            if key is not None:
                V.ensure('in the order of their keys', implies(cmp('<', i, j), cmp('<=', key(gi), key(gj))))


def own_draws(V, n):
    """the draws, one for each member"""
    rs = [r for r in K.CTX.randoms if isinstance(r, Arr) and r.ndim == 1 and len(r.dims) == 1]
    if len(rs) != 1:
        raise Unsupported('%d arrays of draws' % len(rs))
    V.ensure('one draw for each member', cmp('==', rs[0].dims[0], n))
    return rs[0]


for dt in 'fi':
    @task('C24', name='shuffle[%s]' % dt)
    def t(V, dt=dt):
        n = V.int('n', 0)
        s = V.array('sample', n, dtype=dt)

        def post(r):
            u = own_draws(V, n)
            members(V, 'shuffled', r, n, n, lambda g: u.at(g))
        V.run(RND + 'subsample.shuffle', [s], post=post)

    @task('C24', name='random_draw[%s]' % dt)
    def t(V, dt=dt):
        n, k = V.int('n', 0), V.int('size', 0)
        s = V.array('sample', n, dtype=dt)
        ok = cmp('<', k, n)

        def post(r):
            V.ensure('fewer than the sample', ok)
            u = own_draws(V, n)
            members(V, 'drawn', r, k, n, lambda g: u.at(g))
        V.run(RND + 'subsample.random_draw', [s, k], raises=lambda e: land(lnot(ok), e.kind in ('AssertionError', 'ValueError')), post=post)


@stub(RND + 'subsample.shuffle')
def s_shuffle(V, env):
    """a permutation of the sample"""
    s = env['sample']
    if isinstance(s, Sel):
        V.shuffled = s
        return ('shuffled', s)
    if not isinstance(s, Arr) or s.ndim != 1:
        raise Unsupported('shuffle of %r' % (type(s),))
    V.shuffled = s
    n = s.dims[0]
    c = K.CTX
    P, Q = c.fresh_fun('perm', K.I, K.I), c.fresh_fun('iperm', K.I, K.I)
    f = s.fn()
    p = lambda i: Sym(P(K.lift(i)))
    q = lambda i: Sym(Q(K.lift(i)))
    c.universal(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)),
                                      land(p(ix[0]) >= 0, cmp('<', p(ix[0]), n), cmp('==', q(p(ix[0])), ix[0]))), 'shuffled')
    return Arr(Buf([n], lambda idx: f((p(idx[0]),)), s.dtype))


@task('C24', name='random_prob_draw[no size]')
def t(V):
    n = V.int('n', 0)
    s, p = V.array('sample', n), V.array('prob', n)
    V.use(RND + 'subsample.shuffle')

    def post(r):
        u = own_draws(V, n)
        V.ensure('the order is shuffled', isinstance(r, tuple) and len(r) == 2 and r[0] == 'shuffled')
        if not (isinstance(r, tuple) and len(r) == 2):
            return
        sel = r[1]
        V.ensure('a selection of the sample', len(sel.where.dims()) == 1)
        V.ensure('of all the sample', cmp('==', sel.where.dims()[0], n))
        with V.forall(n) as (i,):
            a, b = cmp('<=', u.at(i), p.at(i)), cmp('>=', u.at(i), sub(1, p.at(i)))
            V.ensure('a member is kept with its probability', cmp('==', sel.where.mask((i,)), a))
            with V.when(sel.where.mask((i,))):
                V.same('the kept member', sel.f((i,)), s.at(i))
    V.run(RND + 'subsample.random_prob_draw', [s, p], post=post)


@task('C24', name='random_prob_draw[size]')
def t(V):
    n, k = V.int('n', 0), V.int('size', 0)
    s, p = V.array('sample', n), V.array('prob', n)
    V.use(RND + 'subsample.shuffle')
    pos = K.CTX.fresh('pos', K.B)
    ok = cmp('<', k, n)
    w = K.CTX.fresh('w', K.I)
    # pos: all probabilities are positive (w is where not)
    V.assume(lor(pos, land(cmp('<=', 0, w), cmp('<', w, n), cmp('<=', p.at(w), 0))))
    V.forall_fact(1, lambda ix: implies(land(pos, cmp('<=', 0, ix[0]), cmp('<', ix[0], n)), cmp('>', p.at(ix[0]), 0)))

    def post(r):
        V.ensure('size below that of the sample', ok)
        V.ensure('probabilities are positive', pos)
        u = own_draws(V, n)
        members(V, 'drawn', r, k, n, None)
        members(V, 'drawn, before the shuffle', V.shuffled, k, n, lambda g: K.div(u.at(g), p.at(g)))
    V.run(RND + 'subsample.random_prob_draw', [s, p], dict(size=k), raises=lambda e: land(lnot(land(ok, pos)), e.kind in ('AssertionError', 'ValueError')), post=post)


def rounded(V, name, g, w, u, cap):
    lo, hi = K.floor(w), K.neg(K.floor(K.neg(w)))
    f = sub(w, lo)
    top = (lambda v: K.minv(v, 1)) if cap else (lambda v: v)
    V.defined(name, g)
    g = strip(g)
    V.ensure(name + ' is floor or ceiling', lor(cmp('==', g, top(lo)), cmp('==', g, top(hi))))
    rule = ite(cmp('<', u, sub(hi, w)), lo, hi)
    V.ensure(name + ' rounds up with the fractional part as probability', cmp('==', g, top(rule)))


for kind in ('scalar', '1d'):
    for fn in ('integer', 'binary'):
        @task('C24', name='stochastic_%s_weights[%s]' % (fn, kind))
        def t(V, kind=kind, fn=fn):
            n = V.int('n', 0)
            w = V.real('w') if kind == 'scalar' else V.array('w', n)
            cap = fn == 'binary'

            def post(r):
                us = K.CTX.randoms
                if len(us) != 1:
                    raise Unsupported('%d arrays of draws' % len(us))
                u = us[0]
                if kind == 'scalar':
                    r = r.at() if isinstance(r, Arr) and r.ndim == 0 else r
                    rounded(V, 'weight', r, w, u.at(0) if isinstance(u, Arr) else u, cap)
                elif V.shape('weights', r, [n]):
                    if not V.shape('draws', u, [n]):
                        return
                    with V.forall(n) as (i,):
                        rounded(V, 'weight', r.at(i), w.at(i), u.at(i), cap)
            V.run(RND + 'subsample.stochastic_%s_weights' % fn, [w], post=post)
