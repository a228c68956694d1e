"""C30, C31: radial profiles, areas of polar pixels, rotation of a polar grid."""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve

POL = 'magpie.polar.'
TWOPI = lambda: mul(2, K.PI())
HALF = Fraction(1, 2)


def positive(V, a, *dims):
    V.forall_fact(len(dims), lambda ix: implies(land(*[land(cmp('<=', 0, i), cmp('<', i, d)) for i, d in zip(ix, dims)]), cmp('>', a.at(*ix), 0)),
                  trig=[a.buf.name] if hasattr(a.buf, 'name') else None)


def nonneg(V, a, *dims):
    V.forall_fact(len(dims), lambda ix: implies(land(*[land(cmp('<=', 0, i), cmp('<', i, d)) for i, d in zip(ix, dims)]), cmp('>=', a.at(*ix), 0)),
                  trig=[a.buf.name])


def increasing(V, a, n, strict=True):
    op = '<' if strict else '<='
    V.forall_fact(2, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], ix[1]), cmp('<', ix[1], n)), cmp(op, a.at(ix[0]), a.at(ix[1]))),
                  trig=[a.buf.name], pair=True)


# ------------------------------------------------------------------ profiles
def profile(f, area, pix, s, w, np_, j):
    """(mean, square of the error) of column j"""
    S = lambda g: npf.sum_range(np_, g)
    if w is None:
        mean = K.div(S(lambda i: f.at(i, j)), K.toreal_s(np_))
        n2 = mul(K.toreal_s(np_), K.toreal_s(np_))
        one = lambda i: Fraction(1)
    else:
        tot = S(lambda i: w.at(i, j))
        mean = K.div(S(lambda i: mul(f.at(i, j), w.at(i, j))), tot)
        n2 = mul(tot, tot)
        one = lambda i: w.at(i, j)
    if s is None:
        return mean, None
    v = S(lambda i: mul(K.div(pix, area.at(i, j)), mul(mul(one(i), s.at(i, j)), mul(one(i), s.at(i, j)))))
    return mean, K.div(v, n2)


def check_profile(V, r, f, area, pix, s, w, np_, nr, hint=None, facts=None):
    rs = [r] if s is None else list(r)
    V.ensure('outputs', len(rs) == (1 if s is None else 2))
    ok = V.shape('mean', rs[0], [nr])
    if s is not None:
        ok = V.shape('error', rs[1], [nr]) and ok
    if not ok:
        return
    with V.forall(nr) as (j,):
        if hint is not None:
            hint(j)
        mean, var = profile(f, area, pix, s, w, np_, j)
        V.same('mean over phi', rs[0].at(j), mean)
        if s is not None:
            e = rs[1].at(j)
            es = K.lift(strip(e))
            if facts and es.decl().name() == 'sqrt':
                # the factors of what is under the root
                fs, terms = facts(j)
                fs, terms = list(fs) + [V.derive('a bin', cmp('>=', K.toreal_s(np_), 1), cmp('>=', np_, 1))], list(terms) + [K.toreal_s(np_)]
                for x in solve.apps(es):
                    if x.decl().name() == 'SUM' and solve.is_square(x.arg(2).body()):
                        fs.append(V.derive('a sum of squares', cmp('>=', Sym(x), 0)))
                        terms.append(Sym(x))
                if w is not None:
                    tot = npf.sum_range(np_, lambda i: w.at(i, j))
                    fs.append(V.lemma('some weight', cmp('!=', tot, 0)))
                    terms.append(tot)
                X = Sym(es.arg(0))
                nn = V.algebra('variance is not negative', cmp('>=', X, 0), *fs, opaque=terms)
                N = K.toreal_s(np_)
                V.derive('bins', cmp('>', mul(N, N), 0), cmp('>=', N, 1))
                V.derive('root', land(cmp('>=', Sym(es), 0), cmp('==', mul(Sym(es), Sym(es)), X)), nn, opaque=[X])
                V.algebra('variance', cmp('==', X, strip(var)), *fs, opaque=terms)
            V.defined('error', e)
            V.ensure('error is not negative', cmp('>=', strip(e), 0))
            V.same('square of the error', mul(e, e), var)


for ws in (False, True):
    for sg in (False, True):
        @task('C30', name='polar2radial[%s%s]' % ('w' if ws else '', 'sigma' if sg else ''))
        def t(V, ws=ws, sg=sg):
            np_, nr = V.int('nphi', 1), V.int('nr', 1)
            f = V.array('f', np_, nr)
            area = V.array('area', np_, nr)
            pix = V.real('pixarea')
            V.assume(cmp('>', pix, 0))
            positive(V, area, np_, nr)
            kw = {}
            s = w = None
            if sg:
                s = kw['sigma'] = V.array('sigma', np_, nr)
            if ws:
                w = kw['w'] = V.array('w', np_, nr)
                # a column whose weights sum to zero has no mean
                V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], nr)),
                                                    cmp('!=', npf.sum_range(np_, lambda i: w.at(i, ix[0])), 0)))
            V.run(POL + 'polar2radial.polar2radial', [f, area, pix], kw, post=lambda r: check_profile(V, r, f, area, pix, s, w, np_, nr))


@task('C30', name='get_polar_area2d')
def t(V):
    np_, nr = V.int('nphi', 1), V.int('nr', 1)
    re, p0, dp = V.array('redges', add(nr, 1)), V.real('p0'), V.real('dp')
    pe = Arr(Buf([add(np_, 1)], lambda idx: add(p0, mul(K.toreal_s(idx[0]), dp)), 'f'))
    V.ctx.readonly[id(pe.buf)] = 'argument pedges'

    def post(r):
        if not V.shape('area', r, [np_, nr]):
            return
        with V.forall(np_, nr) as (i, j):
            a, b = re.at(j), re.at(add(j, 1))
            V.same('area of a pixel', r.at(i, j), mul(HALF, mul(dp, sub(mul(b, b), mul(a, a)))))
        # the areas add up to that of the ring: induction over the radius
        ring = lambda k: npf.sum_between(0, k, lambda j: npf.sum_between(0, np_, lambda i: strip(r.at(i, j))))
        want = lambda k: mul(HALF, mul(mul(K.toreal_s(np_), dp), sub(mul(re.at(k), re.at(k)), mul(re.at(0), re.at(0)))))
        V.same('no ring, no area', ring(0), Fraction(0))
        with V.forall(nr) as (k,):
            with V.when(cmp('==', ring(k), want(k))):
                V.ensure('areas add up to that of the ring (step)', cmp('==', ring(add(k, 1)), want(add(k, 1))))
    V.run(POL + 'polar2radial.get_polar_area2d', [re, pe], post=post)


@task('C30', name='get_pixarea')
def t(V):
    nx, ny = V.int('nx', 1), V.int('ny', 1)
    xe, ye = V.array('xedges', add(nx, 1)), V.array('yedges', add(ny, 1))
    V.run(POL + 'polar2radial.get_pixarea', [xe, ye],
          post=lambda r: V.same('area', r, mul(sub(xe.at(1), xe.at(0)), sub(ye.at(1), ye.at(0)))))


for sg in (False, True):
    @task('C30', name='cumulative_radial[%s]' % ('sigma' if sg else ''))
    def t(V, sg=sg):
        n = V.int('n', 1)
        re, f = V.array('redges', add(n, 1)), V.array('f', n)
        s = V.array('sigma', n) if sg else None
        A_ = lambda i: mul(K.PI(), sub(mul(re.at(add(i, 1)), re.at(add(i, 1))), mul(re.at(i), re.at(i))))

        def post(r):
            rs = list(r) if sg else [r]
            V.ensure('outputs', len(rs) == (2 if sg else 1))
            ok = V.shape('profile', rs[0], [add(n, 1)])
            if sg:
                ok = V.shape('error', rs[1], [add(n, 1)]) and ok
            if not ok:
                return
            V.same('begins at 0', rs[0].at(0), Fraction(0))
            with V.forall(n) as (i,):
                V.same('adds the area times the profile', rs[0].at(add(i, 1)), add(rs[0].at(i), mul(A_(i), f.at(i))))
                if sg:
                    e0, e1, d = rs[1].at(i), rs[1].at(add(i, 1)), mul(A_(i), s.at(i))
                    vs = lambda k: npf.sum_between(0, k, lambda q: mul(mul(A_(q), s.at(q)), mul(A_(q), s.at(q))))
                    V.defined('errors', e0)
                    V.defined('errors', e1)
                    e0, e1 = strip(e0), strip(e1)
                    a = V.lemma('square of the error', cmp('==', mul(e0, e0), vs(i)))
                    b = V.lemma('square of the next error', cmp('==', mul(e1, e1), vs(add(i, 1))))
                    c = V.lemma('one more term', cmp('==', vs(add(i, 1)), add(vs(i), mul(d, d))))
                    V.algebra('adds the errors in quadrature', cmp('==', mul(e1, e1), add(mul(e0, e0), mul(d, d))), a, b, c)
                    V.ensure('adds the errors in quadrature', cmp('==', mul(e1, e1), add(mul(e0, e0), mul(d, d))))
                    V.ensure('errors are not negative', cmp('>=', strip(e1), 0))
            if sg:
                V.same('the error begins at 0', rs[1].at(0), Fraction(0))
        V.run(POL + 'radial.cumulative_radial', [re, f], dict(sigma=s) if sg else {}, post=post)


# ------------------------------------------------------------------ C31
def rotation(V, r, f, n, m, delta, full):
    """r is f rotated by delta rows"""
    if not V.shape('rotated map', r, [n, m]):
        return
    with V.forall(n, m) as (i, j):
        s = K.floor_int(delta)
        w = sub(delta, K.toreal_s(s))
        wrap = lambda k: ite(cmp('>=', k, n), sub(k, n), k)
        a, b = add(i, s), add(add(i, s), 1)
        # 0 <= s < n for a full circle: two turns cover i + s + 1 <= 2 n - 1
        fa, fb = f.at(wrap(a), j), f.at(wrap(b), j)
        V.same('interpolation between the rows', r.at(i, j), add(mul(sub(1, w), fa), mul(w, fb)))


@task('C31', name='rotate_polar_grid[full circle]')
def t(V):
    n, m = V.int('nphi', 1), V.int('nr', 0)
    f = V.array('f', n, m)
    h = K.div(TWOPI(), K.toreal_s(n))
    pe = Arr(Buf([add(n, 1)], lambda idx: K.div(mul(K.toreal_s(idx[0]), TWOPI()), K.toreal_s(n)), 'f'))
    V.ctx.readonly[id(pe.buf)] = 'argument pedges'
    d = V.real('delta')                 # the shift in rows
    sh = mul(d, h)
    ok = land(cmp('>', sh, 0), cmp('<', sh, TWOPI()))
    V.lemma('the rows', implies(ok, land(cmp('>', d, 0), cmp('<', d, n))))
    V.lemma('the shift in rows', cmp('==', K.div(sh, h), d))
    V.run('magpie.coords.polar.rotate_polar_grid', [pe, f, sh], raises=lambda e: land(lnot(ok), e.kind == 'AssertionError'),
          post=lambda r: (V.ensure('a shift between 0 and 2 pi', ok), rotation(V, r, f, n, m, d, True)))


def method(V, o, name, args=(), kw=None):
    return V.prog.call(V.prog.getattr(o, name), list(args), kw or {})


RINGS = (('densegrid.box2ring.Box2Ring', 'setup_polar'), ('montecarlo.box2ring.Box2Ring', 'setup_polar_lin'),
         ('densegrid.heal2ring.Heal2Ring', 'setup_polar_cap'), ('montecarlo.heal2ring.Heal2Ring', 'setup_polar_cap'))


def ring(V, cls, setup, nr, n, full=True):
    """a ring class set up with nr radial and n angular bins"""
    r0, r1 = V.real('r0'), V.real('r1')
    V.assume(land(cmp('>=', r0, 0), cmp('<', r0, r1)))
    kw = {}
    p0, p1 = Fraction(0), TWOPI()
    if not full:
        p0, p1 = V.real('p0'), V.real('p1')
        V.assume(land(cmp('>=', p0, 0), cmp('<', p0, p1), cmp('<=', p1, TWOPI())))
    pn = ('beta_min', 'beta_max') if 'heal' in cls else ('pmin', 'pmax')

    def make():
        o = V.call('magpie.' + cls, [])
        method(V, o, setup, [r0, r1, nr, n], kw if full else {pn[0]: p0, pn[1]: p1})
        return o
    return make, (r0, r1, p0, p1)


for cls, setup in RINGS:
    @task('C31', name='%s.rotate_polar' % cls)
    def t(V, cls=cls, setup=setup):
        n, m = V.int('nphi', 1), V.int('nr', 1)
        f = V.array('f', n, m)
        d = V.real('delta')
        h = K.div(TWOPI(), K.toreal_s(n))
        sh = mul(d, h)
        ok = land(cmp('>', sh, 0), cmp('<', sh, TWOPI()))
        V.lemma('the rows', implies(ok, land(cmp('>', d, 0), cmp('<', d, n))))
        V.lemma('the shift in rows', cmp('==', K.div(sh, h), d))
        make, _ = ring(V, cls, setup, m, n)
        if 'densegrid.heal' in cls:
            V.stub_with('magpie.' + cls + '._setup_pix', lambda V, env: None)
        V.run(lambda: method(V, make(), 'rotate_polar', [f, sh]), [], name=cls + '.rotate_polar',
              raises=lambda e: land(lnot(ok), e.kind == 'AssertionError'),
              post=lambda r: (V.ensure('a shift between 0 and 2 pi', ok), rotation(V, r, f, n, m, d, True)))


def cap_areas(V, edge, dp, nr, area):
    """the areas by the contract of usphere_area (C14): here of a width dp in phi"""
    F = z3.Function('USAREA', K.R, K.R, K.R)
    q = K.CTX.fresh('j', K.I)
    with V.when(land(cmp('<=', 0, q), cmp('<', q, nr))):
        V.lemma('a width of beta', cmp('>', dp, 0))

    def ax(p, x):
        # area = width (cos a - cos b), positive for 0 <= a < b <= pi as cos decreases there
        a, b = x.children()
        p.add(x == K.lift(dp) * (K.COS(a) - K.COS(b)))
        p.add(z3.Implies(z3.And(a >= 0, a < b, b <= K.PI_T), x > 0))
    solve.AX['USAREA'] = ax

    def s_area(V, env):
        V.require('a width of beta', cmp('==', sub(env['phi_max'], env['phi_min']), dp))
        k = Sym(K.CTX.bound[-1])
        V.require('the inner edge', cmp('==', env['theta_min'], edge(k)))
        V.require('the outer edge', cmp('==', env['theta_max'], edge(add(k, 1))))
        r = Sym(F(K.lift(env['theta_min']), K.lift(env['theta_max'])))
        V.area = lambda j: K.subst_s(r, [(k.t, K.lift(j))])
        return r
    V.stub_with('magpie.coords.usphere_util.usphere_area', s_area)


# the radial profile of the ring classes
def areas(V, edge, p0, dp, nr, np_, area, x0, y0, dx, dy, nx, ny, pix):
    """the areas by the contracts of get_polar_area2d and get_pixarea"""
    c = K.CTX
    F = z3.Function('AREA', K.I, K.R)
    g = lambda j: Sym(F(K.lift(j)))
    inr = lambda ix: land(cmp('<=', 0, ix[0]), cmp('<', ix[0], nr))
    V.forall_fact(1, lambda ix: implies(inr(ix), cmp('==', g(ix[0]), area(ix[0]))), trig=['AREA'])
    V.forall_fact(1, lambda ix: implies(inr(ix), cmp('>', g(ix[0]), 0)), trig=['AREA'])
    P = c.fresh('PIX', K.R)
    V.assume(land(cmp('==', P, pix), cmp('>', P, 0)))
    j = c.fresh('j', K.I)
    with V.when(land(cmp('<=', 0, j), cmp('<', j, nr))):
        # what the two facts above rest on
        a = V.lemma('a width of phi', cmp('>', dp, 0))
        b = V.lemma('a width of r', cmp('>', edge(add(j, 1)), edge(j)))
        d = V.lemma('radii are not negative', cmp('>=', edge(j), 0))
        V.algebra('areas are positive', cmp('>', area(j), 0), a, b, d)
    V.lemma('pixels have an area', cmp('>', pix, 0))

    def s_area(V, env):
        V.equal('radii passed to get_polar_area2d', env['redges'], Arr(Buf([add(nr, 1)], lambda ix: edge(ix[0]), 'f')))
        V.equal('angles passed to get_polar_area2d', env['pedges'], Arr(Buf([add(np_, 1)], lambda ix: add(p0, mul(K.toreal_s(ix[0]), dp)), 'f')))
        V.area = g
        return Arr(Buf([np_, nr], lambda ix: g(ix[1]), 'f'))

    def s_pix(V, env):
        V.equal('x edges passed to get_pixarea', env['xedges'], Arr(Buf([add(nx, 1)], lambda ix: add(x0, mul(K.toreal_s(ix[0]), dx)), 'f')))
        V.equal('y edges passed to get_pixarea', env['yedges'], Arr(Buf([add(ny, 1)], lambda ix: add(y0, mul(K.toreal_s(ix[0]), dy)), 'f')))
        V.pix = P
        return P
    V.stub_with(POL + 'polar2radial.get_polar_area2d', s_area)
    V.stub_with(POL + 'polar2radial.get_pixarea', s_pix)


for cls, setup in RINGS:
    for ws in (False, True):
        for sg in (False, True):
            @task('C30', name='%s.polar2radial[%s%s]' % (cls, 'w' if ws else '', 'sigma' if sg else ''))
            def t(V, cls=cls, setup=setup, ws=ws, sg=sg):
                np_, nr = V.int('nphi', 1), V.int('nr', 1)
                f = V.array('f', np_, nr)
                kw = {}
                s = w = None
                V.area = V.pix = None
                if sg:
                    s = kw['sigma'] = V.array('sigma', np_, nr)
                if ws:
                    w = kw['w'] = V.array('w', np_, nr)
                make, (r0, r1, p0, p1) = ring(V, cls, setup, nr, np_, full=False)
                box = 'box' in cls
                dr, dp = K.div(sub(r1, r0), K.toreal_s(nr)), K.div(sub(p1, p0), K.toreal_s(np_))
                edge = lambda j: add(r0, mul(K.toreal_s(j), dr))
                if box:
                    nx, ny = V.int('nx', 1), V.int('ny', 1)
                    x0, x1, y0, y1 = [V.real(q) for q in ('x0', 'x1', 'y0', 'y1')]
                    V.assume(land(cmp('<', x0, x1), cmp('<', y0, y1)))
                    M = V.array('mask', np_, nr)
                    keep = lambda i, j: ite(cmp('==', M.at(i, j), 1), Fraction(1), Fraction(0))
                    pix = mul(K.div(sub(x1, x0), K.toreal_s(nx)), K.div(sub(y1, y0), K.toreal_s(ny)))
                    area = lambda j: mul(HALF, mul(dp, sub(mul(edge(add(j, 1)), edge(add(j, 1))), mul(edge(j), edge(j)))))

                    def s_mask(V, env):
                        env['self'].attrs.put('mask_in_bound', M)
                    V.stub_with('magpie.' + cls + '.get_mask_in_bound', s_mask)
                else:
                    ns = V.int('nside', 1, 2**29)
                    keep = lambda i, j: Fraction(1)
                    pix = K.div(mul(4, K.PI()), K.toreal_s(mul(12, mul(ns, ns))))
                    area = lambda j: mul(dp, sub(K.cos(edge(j)), K.cos(edge(add(j, 1)))))
                    V.assume(cmp('<=', r1, K.PI()))
                    cap_areas(V, edge, dp, nr, area)
                    if 'dense' in cls:
                        V.stub_with('magpie.' + cls + '._setup_pix', lambda V, env: None)
                if box:
                    areas(V, edge, p0, dp, nr, np_, area, x0, y0, K.div(sub(x1, x0), K.toreal_s(nx)), K.div(sub(y1, y0), K.toreal_s(ny)), nx, ny, pix)
                W = lambda i, j: keep(i, j) if w is None else mul(keep(i, j), w.at(i, j))
                V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], nr)),
                                                    cmp('!=', npf.sum_range(np_, lambda i: W(i, ix[0])), 0)))
                WA = Arr(Buf([np_, nr], lambda ix: W(*ix), 'f'))

                def go():
                    o = make()
                    if box:
                        method(V, o, 'setup_box', [x0, x1, nx, y0, y1, ny])
                    else:
                        method(V, o, 'setup_map', [ns])
                    return method(V, o, 'polar2radial', [f], kw)

                def post(r):
                    AR = Arr(Buf([np_, nr], lambda ix: V.area(ix[1]) if V.area else area(ix[1]), 'f'))
                    pix_ = pix if V.pix is None else V.pix
                    hint = (lambda j: sum_of_ones(V, np_, lambda i: keep(i, j))) if w is None and box else None
                    check_profile(V, r, f, AR, pix_, s, None if w is None and not box else WA, np_, nr, hint, None if box or not sg else facts)

                def facts(j):
                    x = K.lift(V.area(j))
                    t0, t1, D, N, J = Sym(x.arg(0)), Sym(x.arg(1)), strip(dr), K.toreal_s(nr), K.toreal_s(j)
                    g = [V.derive('width', land(cmp('>', D, 0), cmp('==', mul(N, D), sub(r1, r0))), cmp('<', r0, r1), cmp('>=', nr, 1)),
                         V.derive('edge', cmp('==', t0, add(r0, mul(J, D))), cmp('>=', nr, 1)), V.derive('edge', cmp('==', t1, add(r0, mul(add(J, 1), D))), cmp('>=', nr, 1)),
                         V.derive('bin', land(cmp('>=', J, 0), cmp('<=', add(J, 1), N)), cmp('>=', j, 0), cmp('<', j, nr)), cmp('>=', r0, 0), cmp('<=', r1, K.PI())]
                    a = V.algebra('alpha between 0 and pi', land(cmp('<=', 0, t0), cmp('<', t0, t1), cmp('<=', t1, K.PI())), *g, opaque=[t0, t1, D])
                    p_ = pix if V.pix is None else V.pix
                    return [V.derive('area is positive', cmp('>', V.area(j), 0), a), V.derive('pixels have an area', cmp('>', p_, 0), cmp('>=', ns, 1))], [V.area(j), p_]
                V.run(go, [], name=cls + '.polar2radial', post=post)
