"""C07, C08, C09, C12, C14: coordinate conversions, projection, shifts, areas."""
from fractions import Fraction
from .verify import *
from . import core as K

HALF = Fraction(1, 2)


def TWOPI():
    return mul(2, K.PI())


def sq(a):
    return mul(a, a)


def kinds(V, kind, *names):
    """arguments: scalars, 1-D arrays of any length, 2-D arrays of any shape"""
    if kind == 'scalar':
        return [V.real(n) for n in names], None
    dims = [V.int('n%d' % k, 0) for k in range(1 if kind == '1d' else 2)]
    return [V.array(n, *dims) for n in names], dims


def pointwise(V, results, args, dims, names, check):
    """results and args scalars, or arrays of the shape dims: check(results, args) at every point"""
    n = len(names)
    if n == 1:
        results = (results,)
    V.ensure('%d results' % n, isinstance(results, (tuple, list)) and len(results) == n)
    if not (isinstance(results, (tuple, list)) and len(results) == n):
        return
    if dims is None:
        results = [r.at() if isinstance(r, Arr) and r.ndim == 0 else r for r in results]
        ok = all(K.is_scalar(r) for r in results)
        V.ensure('scalar results', ok)
        if ok:
            check(results, args)
        return
    if not all([V.shape(nm, r, dims, 'f') for nm, r in zip(names, results)]):
        return
    with V.forall(*dims) as ix:
        check([r.at(*ix) for r in results], [a.at(*ix) for a in args])


# ------------------------------------------------------------------ specifications
def spec_c2p(x, y, c0, c1):
    dx, dy = sub(x, c0), sub(y, c1)
    return K.sqrt(add(sq(dx), sq(dy))), K.ang(dy, dx)


def spec_p2c(r, phi, c0, c1):
    return add(mul(r, K.cos(phi)), c0), add(mul(r, K.sin(phi)), c1)


def spec_c2s(x, y, z, c0, c1, c2):
    dx, dy, dz = sub(x, c0), sub(y, c1), sub(z, c2)
    r = K.sqrt(add(add(sq(dx), sq(dy)), sq(dz)))
    th = ite(cmp('==', r, 0), Fraction(0), strip(K.acos(Sym(K.toreal(K.lift(dz)) / K.lift(r)))))
    return r, K.ang(dy, dx), th


def spec_s2c(r, phi, th, c0, c1, c2):
    s = K.sin(th)
    return (add(mul(mul(r, K.cos(phi)), s), c0), add(mul(mul(r, K.sin(phi)), s), c1), add(mul(r, K.cos(th)), c2))


def several(spec, n, args, c):
    """n results of a pointwise specification on scalars or arrays"""
    if any(isinstance(a, (Arr, Sel)) for a in args):
        return tuple(ew(lambda *v, k=k: spec(*(list(v) + c))[k], *args) for k in range(n))
    return tuple(spec(*(list(args) + c)))


def center_of(env, n):
    c = env['center']
    if isinstance(c, Arr):
        return [c.at(k) for k in range(n)]
    return [c[k] for k in range(n)]


def one_dim(V, *xs):
    for x in xs:
        if isinstance(x, Arr) and x.ndim == 0:
            raise Unsupported('zero-dimensional argument')


@stub('magpie.coords.conversions.cart2polar')
def s_c2p(V, env):
    one_dim(V, env['x'], env['y'])
    return several(spec_c2p, 2, [env['x'], env['y']], center_of(env, 2))


@stub('magpie.coords.conversions.polar2cart')
def s_p2c(V, env):
    return several(spec_p2c, 2, [env['r'], env['phi']], center_of(env, 2))


@stub('magpie.coords.conversions.cart2sphere')
def s_c2s(V, env):
    xs = [env['x'], env['y'], env['z']]
    one_dim(V, *xs)
    for x in xs:
        if isinstance(x, Arr) and x.ndim != 1:
            V.require('cart2sphere of scalars or 1-D arrays', False)
    return several(spec_c2s, 3, xs, center_of(env, 3))


@stub('magpie.coords.conversions.sphere2cart')
def s_s2c(V, env):
    return several(spec_s2c, 3, [env['r'], env['phi'], env['theta']], center_of(env, 3))


def centers(V, cen, n):
    if cen == 'default':
        return [Fraction(0)] * n, []
    c = [V.real('c%d' % k) for k in range(n)]
    if cen == 'array':
        return c, [npf.array(c)]
    return c, [list(c)]


# ------------------------------------------------------------------ C07
for kind in ('scalar', '1d', '2d'):
    for cen in ('default', 'given', 'array'):
        if cen == 'array' and kind != '1d':
            continue

        def t(V, kind=kind, cen=cen):
            (x, y), dims = kinds(V, kind, 'x', 'y')
            c, extra = centers(V, cen, 2)

            def check(res, arg):
                (r, phi), (x, y) = res, arg
                dx, dy = sub(x, c[0]), sub(y, c[1])
                V.defined('r is a number', r)
                V.defined('phi is a number', phi)
                r, phi = strip(r), strip(phi)
                V.ensure('r >= 0', cmp('>=', r, 0))
                V.ensure('r^2 = x^2 + y^2', cmp('==', sq(r), add(sq(dx), sq(dy))))
                V.lemma('0 <= phi', cmp('>=', phi, 0))
                V.lemma('phi < 2 pi', cmp('<', phi, TWOPI()))
                V.lemma('r cos(phi) = x', cmp('==', mul(r, K.cos(phi)), dx))
                V.lemma('r sin(phi) = y', cmp('==', mul(r, K.sin(phi)), dy))
                sr, sp = spec_c2p(x, y, c[0], c[1])
                V.same('r is the distance', r, sr)
                V.same('phi is the angle', phi, sp)
            V.run('magpie.coords.conversions.cart2polar', [x, y] + extra, post=lambda r: pointwise(V, r, [x, y], dims, ['r', 'phi'], check))
        task('C07', name='cart2polar[%s,%s center]' % (kind, cen))(t)

        def t(V, kind=kind, cen=cen):
            (r, phi), dims = kinds(V, kind, 'r', 'phi')
            c, extra = centers(V, cen, 2)

            def check(res, arg):
                sx, sy = spec_p2c(arg[0], arg[1], c[0], c[1])
                V.same('x = x0 + r cos(phi)', res[0], sx)
                V.same('y = y0 + r sin(phi)', res[1], sy)
            V.run('magpie.coords.conversions.polar2cart', [r, phi] + extra, post=lambda q: pointwise(V, q, [r, phi], dims, ['x', 'y'], check))
        task('C07', name='polar2cart[%s,%s center]' % (kind, cen))(t)

    def t(V, kind=kind):
        (x, y), dims = kinds(V, kind, 'x', 'y')
        c, extra = centers(V, 'given', 2)
        V.use('magpie.coords.conversions.cart2polar', 'magpie.coords.conversions.polar2cart')

        def both():
            r, phi = V.call('magpie.coords.conversions.cart2polar', [x, y] + extra)
            return V.call('magpie.coords.conversions.polar2cart', [r, phi] + extra)

        def check(res, arg):
            V.same('x restored', res[0], arg[0])
            V.same('y restored', res[1], arg[1])
        V.run(both, [], name='polar2cart after cart2polar', post=lambda q: pointwise(V, q, [x, y], dims, ['x', 'y'], check))
    task('C07', name='cartesian round trip[%s]' % kind)(t)

    def t(V, kind=kind):
        (r, phi), dims = kinds(V, kind, 'r', 'phi')
        c, extra = centers(V, 'given', 2)
        V.use('magpie.coords.conversions.cart2polar', 'magpie.coords.conversions.polar2cart')

        def both():
            x, y = V.call('magpie.coords.conversions.polar2cart', [r, phi] + extra)
            return V.call('magpie.coords.conversions.cart2polar', [x, y] + extra)

        def check(res, arg):
            (r, phi) = arg
            with V.when(land(cmp('>', r, 0), cmp('>=', phi, 0), cmp('<', phi, TWOPI()))):
                dx, dy = mul(r, K.cos(phi)), mul(r, K.sin(phi))
                V.lemma('squared distance', cmp('==', add(sq(dx), sq(dy)), sq(r)))
                g = strip(res[0])
                V.same('r restored', res[0], r)
                V.lemma('same direction', land(cmp('==', K.cos(strip(res[1])), K.cos(phi)), cmp('==', K.sin(strip(res[1])), K.sin(phi))))
                V.same('phi restored', res[1], phi)
        V.run(both, [], name='cart2polar after polar2cart', post=lambda q: pointwise(V, q, [r, phi], dims, ['r', 'phi'], check))
    task('C07', name='polar round trip[%s]' % kind)(t)


# ------------------------------------------------------------------ C08
for kind in ('scalar', '1d'):
    for cen in ('default', 'given', 'array'):
        if cen == 'array' and kind != '1d':
            continue

        def t(V, kind=kind, cen=cen):
            (x, y, z), dims = kinds(V, kind, 'x', 'y', 'z')
            c, extra = centers(V, cen, 3)

            def check(res, arg):
                (r, phi, th), (x, y, z) = res, arg
                dx, dy, dz = sub(x, c[0]), sub(y, c[1]), sub(z, c[2])
                V.defined('r is a number', r)
                r, phi0, th0 = strip(r), phi, th
                V.ensure('r >= 0', cmp('>=', r, 0))
                V.lemma('r^2 = x^2 + y^2 + z^2', cmp('==', sq(r), add(add(sq(dx), sq(dy)), sq(dz))))
                V.defined('phi is a number', phi)
                q = Sym(K.toreal(K.lift(dz)) / K.lift(r))
                with V.when(cmp('!=', r, 0)):
                    V.lemma('-1 <= z/r <= 1', land(cmp('==', mul(q, r), dz), cmp('<=', q, 1), cmp('>=', q, -1)))
                V.defined('theta is a number', th)
                phi, th = strip(phi), strip(th)
                V.ensure('0 <= phi', cmp('>=', phi, 0))
                V.ensure('phi < 2 pi', cmp('<', phi, TWOPI()))
                V.lemma('0 <= theta <= pi', land(cmp('>=', th, 0), cmp('<=', th, K.PI())))
                V.ensure('theta = 0 at the center', implies(cmp('==', r, 0), cmp('==', th, 0)))
                V.lemma('r cos(theta) = z', cmp('==', mul(r, K.cos(th)), dz))
                h = K.sqrt(add(sq(dx), sq(dy)))
                l1 = V.lemma('r sin(theta) = distance from the axis', cmp('==', mul(r, K.sin(th)), h))
                l2 = V.lemma('h cos(phi) = x', cmp('==', mul(h, K.cos(phi)), dx))
                l3 = V.lemma('h sin(phi) = y', cmp('==', mul(h, K.sin(phi)), dy))
                V.algebra('r cos(phi) sin(theta) = x', cmp('==', mul(mul(r, K.cos(phi)), K.sin(th)), dx), l1, l2)
                V.algebra('r sin(phi) sin(theta) = y', cmp('==', mul(mul(r, K.sin(phi)), K.sin(th)), dy), l1, l3)
                for nm, g, w in zip(('r', 'phi', 'theta'), (r, phi, th), spec_c2s(x, y, z, *c)):
                    V.same('%s as specified' % nm, g, w)
            V.run('magpie.coords.conversions.cart2sphere', [x, y, z] + extra, post=lambda q: pointwise(V, q, [x, y, z], dims, ['r', 'phi', 'theta'], check))
        task('C08', name='cart2sphere[%s,%s center]' % (kind, cen))(t)

for kind in ('scalar', '1d', '2d'):
    for cen in ('default', 'given', 'array'):
        if cen == 'array' and kind != '1d':
            continue

        def t(V, kind=kind, cen=cen):
            a, dims = kinds(V, kind, 'r', 'phi', 'theta')
            c, extra = centers(V, cen, 3)

            def check(res, arg):
                for nm, g, w in zip('xyz', res, spec_s2c(*(list(arg) + c))):
                    V.same('%s as specified' % nm, g, w)
            V.run('magpie.coords.conversions.sphere2cart', a + extra, post=lambda q: pointwise(V, q, a, dims, ['x', 'y', 'z'], check))
        task('C08', name='sphere2cart[%s,%s center]' % (kind, cen))(t)

for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        xyz, dims = kinds(V, kind, 'x', 'y', 'z')
        c, extra = centers(V, 'given', 3)
        V.use('magpie.coords.conversions.cart2sphere', 'magpie.coords.conversions.sphere2cart')

        def both():
            return V.call('magpie.coords.conversions.sphere2cart', list(V.call('magpie.coords.conversions.cart2sphere', xyz + extra)) + extra)

        def check(res, arg):
            dx, dy, dz = [sub(a, b) for a, b in zip(arg, c)]
            r, phi, th = spec_c2s(*(list(arg) + c))
            h = K.sqrt(add(sq(dx), sq(dy)))
            q = Sym(K.toreal(K.lift(dz)) / K.lift(r))
            with V.when(cmp('!=', r, 0)):
                V.lemma('-1 <= z/r <= 1', land(cmp('==', mul(q, r), dz), cmp('<=', q, 1), cmp('>=', q, -1)))
            V.lemma('r cos(theta) = z', cmp('==', mul(r, K.cos(th)), dz))
            V.lemma('0 <= theta <= pi', land(cmp('>=', th, 0), cmp('<=', th, K.PI())))
            l1 = V.lemma('r sin(theta) = distance from the axis', cmp('==', mul(r, K.sin(th)), h))
            l2 = V.lemma('h cos(phi) = x', cmp('==', mul(h, K.cos(phi)), dx))
            l3 = V.lemma('h sin(phi) = y', cmp('==', mul(h, K.sin(phi)), dy))
            V.algebra('r cos(phi) sin(theta) = x', cmp('==', mul(mul(r, K.cos(phi)), K.sin(th)), dx), l1, l2)
            V.algebra('r sin(phi) sin(theta) = y', cmp('==', mul(mul(r, K.sin(phi)), K.sin(th)), dy), l1, l3)
            for nm, g, w in zip('xyz', res, arg):
                V.same('%s restored' % nm, g, w)
        V.run(both, [], name='sphere2cart after cart2sphere', post=lambda q: pointwise(V, q, xyz, dims, ['x', 'y', 'z'], check))
    task('C08', name='cartesian round trip[%s]' % kind)(t)

    def t(V, kind=kind):
        a, dims = kinds(V, kind, 'r', 'phi', 'theta')
        c, extra = centers(V, 'given', 3)
        V.use('magpie.coords.conversions.cart2sphere', 'magpie.coords.conversions.sphere2cart')

        def both():
            return V.call('magpie.coords.conversions.cart2sphere', list(V.call('magpie.coords.conversions.sphere2cart', a + extra)) + extra)

        def check(res, arg):
            r, phi, th = arg
            g = [strip(v) for v in res]
            with V.when(land(cmp('>', r, 0), cmp('>=', phi, 0), cmp('<', phi, TWOPI()), cmp('>', th, 0), cmp('<', th, K.PI()))):
                s = mul(r, K.sin(th))
                dx, dy, dz = mul(mul(r, K.cos(phi)), K.sin(th)), mul(mul(r, K.sin(phi)), K.sin(th)), mul(r, K.cos(th))
                V.lemma('s > 0', cmp('>', s, 0))
                V.lemma('squared distance from the axis', cmp('==', add(sq(dx), sq(dy)), sq(s)))
                V.lemma('squared distance', cmp('==', add(add(sq(dx), sq(dy)), sq(dz)), sq(r)))
                V.same('r restored', res[0], r)
                V.lemma('same phi direction', land(cmp('==', K.cos(g[1]), K.cos(phi)), cmp('==', K.sin(g[1]), K.sin(phi))))
                V.same('phi restored', res[1], phi)
                V.lemma('same theta', cmp('==', K.cos(g[2]), K.cos(th)))
                V.same('theta restored', res[2], th)
        V.run(both, [], name='cart2sphere after sphere2cart', post=lambda q: pointwise(V, q, a, dims, ['r', 'phi', 'theta'], check))
    task('C08', name='spherical round trip[%s]' % kind)(t)


# ------------------------------------------------------------------ C09
def spec_ortho(x, y, r, fill):
    xy = add(sq(x), sq(y))
    return ite(cmp('<', xy, sq(r)), K.sqrt(sub(sq(r), xy)), fill)


@stub('magpie.coords.conversions.ortho2cart')
def s_ortho(V, env):
    f = lambda x, y: spec_ortho(x, y, env['r'], env['fill_value'])
    return ew(f, env['x'], env['y'])


for kind in ('scalar', '1d', '2d'):
    for how in ('defaults', 'given'):
        def t(V, kind=kind, how=how):
            (x, y), dims = kinds(V, kind, 'x', 'y')
            r, fill = (Fraction(1), K.NAN) if how == 'defaults' else (V.real('r'), V.real('fill'))
            if how == 'given':
                V.assume(cmp('>', r, 0))

            def check(res, arg):
                z, (x, y) = res[0], arg
                xy = add(sq(x), sq(y))
                ins = cmp('<', xy, sq(r))
                with V.when(ins):
                    V.defined('defined inside the disc', z)
                    V.ensure('z >= 0', cmp('>=', strip(z), 0))
                    V.ensure('x^2 + y^2 + z^2 = r^2', cmp('==', add(xy, sq(strip(z))), sq(r)))
                with V.when(lnot(ins)):
                    V.same('fill value', z, fill)
            V.run('magpie.coords.conversions.ortho2cart', [x, y] + ([] if how == 'defaults' else [r, fill]),
                  post=lambda q: pointwise(V, q, [x, y], dims, ['z'], check))
        task('C09', name='ortho2cart[%s,%s]' % (kind, how))(t)


# ------------------------------------------------------------------ C12
def spec_shift(phi, d):
    p = add(phi, d)
    return ite(cmp('>', p, TWOPI()), sub(p, TWOPI()), ite(cmp('<', p, 0), add(p, TWOPI()), p))


def shift_ok(phi, d, g):
    """g is phi + d modulo a full turn, in [0, 2 pi]"""
    p = add(phi, d)
    return land(cmp('>=', g, 0), cmp('<=', g, TWOPI()),
                lor(cmp('==', g, p), cmp('==', g, add(p, TWOPI())), cmp('==', g, sub(p, TWOPI()))))


for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        (phi,), dims = kinds(V, kind, 'phi')
        d = V.real('dphi')
        V.assume(land(cmp('>=', d, K.neg(TWOPI())), cmp('<=', d, TWOPI())))

        def check(res, arg):
            g, phi = res[0], arg[0]
            V.defined('a number', g)
            with V.when(land(cmp('>=', phi, 0), cmp('<=', phi, TWOPI()))):
                V.ensure('the shift modulo a full turn', shift_ok(phi, d, strip(g)))
        V.run('magpie.coords.usphere.usphere_phi_shift', [phi, d], post=lambda q: pointwise(V, q, [phi], dims, ['phi'], check))
    task('C12', name='usphere_phi_shift[%s]' % kind)(t)

    def t(V, kind=kind):
        (phi,), dims = kinds(V, kind, 'phi')
        d = V.real('dphi')
        V.assume(lnot(land(cmp('>=', d, K.neg(TWOPI())), cmp('<=', d, TWOPI()))))
        V.run('magpie.coords.usphere.usphere_phi_shift', [phi, d], raises=lambda e: e.kind in ('AssertionError', 'ValueError'),
              post=lambda q: V.ensure('rejected', False))
    task('C12', name='usphere_phi_shift[%s,out of range]' % kind)(t)


def t(V):
    n = V.int('n', 0)
    phi, d = V.array('phi', n), V.real('rotate')
    V.assume(land(cmp('>', d, 0), cmp('<', d, TWOPI())))

    def check(res, arg):
        g, phi = res[0], arg[0]
        V.defined('a number', g)
        with V.when(land(cmp('>=', phi, 0), cmp('<', phi, TWOPI()))):
            V.ensure('the rotation modulo a full turn', shift_ok(phi, d, strip(g)))
            V.ensure('below a full turn', cmp('<', strip(g), TWOPI()))
    V.run('magpie.coords.polar.rotate_polar', [phi, d], post=lambda q: pointwise(V, q, [phi], [n], ['phi'], check))


task('C12', name='rotate_polar')(t)


def t(V):
    n = V.int('n', 0)
    phi, d = V.array('phi', n), V.real('rotate')
    V.assume(lnot(land(cmp('>', d, 0), cmp('<', d, TWOPI()))))
    V.run('magpie.coords.polar.rotate_polar', [phi, d], raises=lambda e: e.kind in ('AssertionError', 'ValueError'),
          post=lambda q: V.ensure('rejected', False))


task('C12', name='rotate_polar[out of range]')(t)


# ------------------------------------------------------------------ C14
def area_limits(a, b, c, d):
    P = K.PI()
    return land(cmp('>=', a, 0), cmp('<', a, TWOPI()), cmp('>', b, 0), cmp('<=', b, TWOPI()), cmp('!=', a, b),
                cmp('>=', c, 0), cmp('<', c, P), cmp('>', d, 0), cmp('<=', d, P), cmp('!=', c, d))


def spec_area(a, b, c, d):
    return mul(sub(b, a), sub(K.cos(c), K.cos(d)))


@stub('magpie.coords.usphere_util.usphere_area')
def s_area(V, env):
    a = [env[k] for k in ('phi_min', 'phi_max', 'theta_min', 'theta_max')]
    V.require('usphere_area limits', area_limits(*a))
    return spec_area(*a)


@task('C14', name='usphere_area')
def t(V):
    a = [V.real(k) for k in ('phi_min', 'phi_max', 'theta_min', 'theta_max')]
    ok = area_limits(*a)
    V.run('magpie.coords.usphere_util.usphere_area', a, raises=lambda e: land(lnot(ok), e.kind in ('AssertionError', 'ValueError')),
          post=lambda r: (V.ensure('limits were admissible', ok), V.same('the area', r, spec_area(*a))))


@task('C14', name='usphere_area adds up')
def t(V):
    V.use('magpie.coords.usphere_util.usphere_area')
    p = [V.real('p%d' % k) for k in range(3)]
    q = [V.real('q%d' % k) for k in range(3)]
    V.assume(land(cmp('>=', p[0], 0), cmp('<', p[0], p[1]), cmp('<', p[1], p[2]), cmp('<=', p[2], TWOPI())))
    V.assume(land(cmp('>=', q[0], 0), cmp('<', q[0], q[1]), cmp('<', q[1], q[2]), cmp('<=', q[2], K.PI())))
    f = lambda *a: V.call('magpie.coords.usphere_util.usphere_area', a)

    def go():
        return f(p[0], p[1], q[0], q[1]), f(p[1], p[2], q[0], q[1]), f(p[0], p[1], q[1], q[2]), f(p[1], p[2], q[1], q[2]), f(p[0], p[2], q[0], q[2]), \
            f(Fraction(0), TWOPI(), Fraction(0), K.PI())

    def post(r):
        V.same('four parts make the whole', add(add(r[0], r[1]), add(r[2], r[3])), r[4])
        V.ensure('the area is positive', cmp('>', r[0], 0))
        V.same('the sphere', r[5], mul(4, K.PI()))
    V.run(go, [], name='areas of parts', post=post)


for kind in ('scalar', '1d', '2d'):
    for fn in ('sphere2lonlat', 'lonlat2sphere'):
        def t(V, kind=kind, fn=fn):
            (th,), dims = kinds(V, kind, 'theta')
            V.run('magpie.coords.usphere_util.' + fn, [th],
                  post=lambda q: pointwise(V, q, [th], dims, ['angle'], lambda res, arg: V.same('pi/2 - angle', res[0], sub(mul(K.PI(), HALF), arg[0]))))
        task('C14', name='%s[%s]' % (fn, kind))(t)

    def t(V, kind=kind):
        (th,), dims = kinds(V, kind, 'theta')
        f = lambda *q: V.call('magpie.coords.usphere_util.' + q[0], [q[1]])
        V.run(lambda: (f('lonlat2sphere', f('sphere2lonlat', th)), f('sphere2lonlat', f('lonlat2sphere', th))), [], name='both ways',
              post=lambda q: pointwise(V, q, [th, th], dims, ['a', 'b'], lambda res, arg: (V.same('restored', res[0], arg[0]), V.same('restored', res[1], arg[0]))))
    task('C14', name='latitudes both ways[%s]' % kind)(t)
