"""C07-C12, C14: coordinates, projections, rotations."""
import math
import numpy as np
from base import *
import magpie
from magpie import coords

TWOPI = 2. * np.pi
TOL = 1e-9


def vec(phi, theta):
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    return np.stack([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)], axis=-1)


def angle_close(a, b, msg, tol=1e-9):
    """equal modulo 2 pi"""
    d = np.abs(np.mod(np.asarray(a, float) - np.asarray(b, float) + np.pi, TWOPI) - np.pi)
    need(np.all(d <= tol), msg, a, b)


def pieces(a, *names):
    return [np.array(a[n], dtype=float) for n in names]


@contract('cart2polar')
def c_c2p(a):
    x, y = pieces(a, 'x', 'y')
    kw = {'center': a['center']} if a.get('center') is not None else {}
    c = a.get('center') or [0., 0.]
    r, phi = coords.cart2polar(x.copy(), y.copy(), **kw)
    need(np.shape(r) == x.shape and np.shape(phi) == x.shape, 'shape', np.shape(r))
    need(np.all(r >= 0), 'r negative', r)
    need(np.all(phi >= 0) and np.all(phi < TWOPI + 1e-12), 'phi out of range', phi)
    sc = 1e-9 * (1 + np.abs(x) + np.abs(y) + abs(c[0]) + abs(c[1]))
    x2, y2 = coords.polar2cart(np.array(r), np.array(phi), **kw)
    need(np.all(np.abs(x2 - x) <= sc) and np.all(np.abs(y2 - y) <= sc), 'round trip', x, y, x2, y2)
    need(np.all(np.abs(c[0] + r * np.cos(phi) - x) <= sc) and np.all(np.abs(c[1] + r * np.sin(phi) - y) <= sc), 'polar coordinates', r, phi)
    for i in np.ndindex(x.shape):
        r1, p1 = coords.cart2polar(float(x[i]), float(y[i]), **kw)
        need(abs(r1 - r[i]) <= 1e-12 * (1 + abs(r1)) and abs(p1 - phi[i]) <= 1e-12, 'scalar and array differ', float(x[i]), float(y[i]), r1, p1, r[i], phi[i])
        x3, y3 = coords.polar2cart(float(r1), float(p1), **kw)
        need(abs(x3 - x2[i]) <= 1e-12 * (1 + abs(x3)) and abs(y3 - y2[i]) <= 1e-12 * (1 + abs(y3)), 'scalar and array differ', x3, y3)


@contract('polar2cart')
def c_p2c(a):
    r, phi = pieces(a, 'r', 'phi')
    kw = {'center': a['center']} if a.get('center') is not None else {}
    c = a.get('center') or [0., 0.]
    x, y = coords.polar2cart(r.copy(), phi.copy(), **kw)
    close(x, r * np.cos(phi) + c[0], 'x', 1e-12, 1e-12)
    close(y, r * np.sin(phi) + c[1], 'y', 1e-12, 1e-12)
    r2, p2 = coords.cart2polar(x, y, **kw)
    s = 1e-8 * (1 + abs(c[0]) + abs(c[1]))
    close(r2, r, 'r round trip', 1e-9, s)
    ok = r > 1e-3
    d = np.abs(np.mod(p2 - phi + np.pi, TWOPI) - np.pi)
    need(np.all(d[ok] <= s / np.minimum(r[ok], 1.) + 1e-9), 'phi round trip', phi, p2)


@contract('cart2sphere')
def c_c2s(a):
    x, y, z = pieces(a, 'x', 'y', 'z')
    kw = {'center': a['center']} if a.get('center') is not None else {}
    c = a.get('center') or [0., 0., 0.]
    r, phi, theta = coords.cart2sphere(x.copy(), y.copy(), z.copy(), **kw)
    need(np.shape(r) == x.shape and np.shape(phi) == x.shape and np.shape(theta) == x.shape, 'shape')
    need(np.all(r >= 0), 'r negative', r)
    need(np.all(phi >= 0) and np.all(phi < TWOPI + 1e-12), 'phi out of range', phi)
    need(np.all(theta >= 0) and np.all(theta <= np.pi), 'theta out of range', theta)
    sc = 1e-7 * (1 + np.abs(x) + np.abs(y) + np.abs(z) + sum(map(abs, c)))
    ex = [c[0] + r * np.cos(phi) * np.sin(theta), c[1] + r * np.sin(phi) * np.sin(theta), c[2] + r * np.cos(theta)]
    back = coords.sphere2cart(np.array(r), np.array(phi), np.array(theta), **kw)
    for p, q, s in zip(ex, back, (x, y, z)):
        need(np.all(np.abs(p - s) <= sc), 'spherical coordinates', p, s)
        need(np.all(np.abs(q - s) <= sc), 'round trip', q, s)
    at = (x == c[0]) & (y == c[1]) & (z == c[2])
    need(np.all(theta[at] == 0.), 'theta at the center', theta[at])
    for i in range(len(x)):
        s1 = coords.cart2sphere(float(x[i]), float(y[i]), float(z[i]), **kw)
        for g, h in zip(s1, (r[i], phi[i], theta[i])):
            need(abs(g - h) <= 1e-12 * (1 + abs(h)), 'scalar and array differ', s1, (r[i], phi[i], theta[i]))
        b1 = coords.sphere2cart(float(s1[0]), float(s1[1]), float(s1[2]), **kw)
        for g, h in zip(b1, back):
            need(abs(g - h[i]) <= 1e-12 * (1 + abs(g)), 'scalar and array differ', b1)


@contract('sphere2cart')
def c_s2c(a):
    r, phi, theta = pieces(a, 'r', 'phi', 'theta')
    kw = {'center': a['center']} if a.get('center') is not None else {}
    c = a.get('center') or [0., 0., 0.]
    x, y, z = coords.sphere2cart(r.copy(), phi.copy(), theta.copy(), **kw)
    close(x, c[0] + r * np.cos(phi) * np.sin(theta), 'x', 1e-12, 1e-12)
    close(y, c[1] + r * np.sin(phi) * np.sin(theta), 'y', 1e-12, 1e-12)
    close(z, c[2] + r * np.cos(theta), 'z', 1e-12, 1e-12)
    r2, p2, t2 = coords.cart2sphere(x, y, z, **kw)
    s = 1e-7 * (1 + sum(map(abs, c)))
    close(r2, r, 'r round trip', 1e-9, s)
    ok = (r > 1e-2) & (np.sin(theta) > 1e-2)
    close(t2[ok], theta[ok], 'theta round trip', 1e-6, 1e3 * s * 1e-1)
    d = np.abs(np.mod(p2 - phi + np.pi, TWOPI) - np.pi)
    need(np.all(d[ok] <= 1e3 * s), 'phi round trip', phi, p2)


@contract('ortho2cart')
def c_ortho(a):
    x, y = pieces(a, 'x', 'y')
    r, fill = a.get('r', 1.), a.get('fill', np.nan)
    kw = {}
    if 'r' in a:
        kw['r'] = r
    if 'fill' in a:
        kw['fill_value'] = fill
    z = coords.ortho2cart(x.copy(), y.copy(), **kw)
    need(np.shape(z) == x.shape, 'shape', np.shape(z))
    ins = x**2 + y**2 < r**2
    need(np.all(z[ins] >= 0) and np.all(np.abs(x**2 + y**2 + z**2 - r**2)[ins] <= 1e-9 * r**2), 'on the sphere', x, y, z)
    o = z[~ins]
    need(np.all(np.isnan(o)) if np.isnan(fill) else np.all(o == fill), 'fill value outside', o)
    for i in np.ndindex(x.shape):
        z1 = coords.ortho2cart(float(x[i]), float(y[i]), **kw)
        need(z1 == z[i] or abs(z1 - z[i]) < 1e-12 or (np.isnan(z1) and np.isnan(z[i])), 'scalar and array differ', z1, z[i])


# ------------------------------------------------------------------ healpix plane
def plane(phi, theta):
    z = np.cos(theta)
    out = np.empty((2,) + np.shape(phi))
    eq = np.abs(z) <= 2. / 3.
    s = np.sign(z) * (2 - np.sqrt(np.maximum(3 * (1 - np.abs(z)), 0)))
    phit = np.mod(phi, np.pi / 2)
    out[0] = np.where(eq, phi, phi - (np.abs(s) - 1) * (phit - np.pi / 4))
    out[1] = np.where(eq, 3 * np.pi / 8 * z, np.pi / 4 * s)
    return out


@contract('healpix_ang')
def c_ang(a):
    phi, theta = pieces(a, 'phi', 'theta')
    x, y = coords.healpix_ang2xy(phi.copy(), theta.copy())
    need(np.shape(x) == phi.shape and np.shape(y) == phi.shape, 'shape')
    e = plane(phi, theta)
    close(x, e[0], 'x of the projection', 1e-9, 1e-9)
    close(y, e[1], 'y of the projection', 1e-9, 1e-9)
    p2, t2 = coords.healpix_xy2ang(np.array(x), np.array(y))
    need(np.all(t2 >= 0) and np.all(t2 <= np.pi), 'theta out of range', t2)
    ok = (theta > 1e-4) & (theta < np.pi - 1e-4)
    close(t2[ok], theta[ok], 'theta round trip', 1e-7, 1e-7)
    st = np.abs(np.sin(theta[ok]))
    # next to a facet edge in the caps the plane coordinate does not determine phi beyond rounding
    frac = np.mod(phi[ok], np.pi / 2)
    edge = (frac < 1e-6) | (frac > np.pi / 2 - 1e-6)
    d = np.abs(np.mod(p2[ok] - phi[ok] + np.pi, TWOPI) - np.pi)
    need(np.all((d <= 1e-6 / st) | edge & (d <= 1e-6 / st + 1.6)), 'phi round trip', phi[ok], p2[ok])
    for i in range(len(phi)):
        x1, y1 = coords.healpix_ang2xy(float(phi[i]), float(theta[i]))
        need(abs(x1 - x[i]) < 1e-12 and abs(y1 - y[i]) < 1e-12, 'scalar and array differ', float(phi[i]), float(theta[i]), x1, x[i], y1, y[i])
        p1, t1 = coords.healpix_xy2ang(float(x[i]), float(y[i]))
        need(abs(p1 - p2[i]) < 1e-9 and abs(t1 - t2[i]) < 1e-9, 'scalar and array differ', float(x[i]), float(y[i]), p1, p2[i], t1, t2[i])


@contract('healpix_xy')
def c_xy(a):
    x, y = pieces(a, 'x', 'y')
    phi, theta = coords.healpix_xy2ang(x.copy(), y.copy())
    need(np.all(theta >= 0) and np.all(theta <= np.pi), 'theta out of range', theta)
    z = np.cos(theta)
    eq = np.abs(y) <= np.pi / 4
    close(z[eq], 8 * y[eq] / (3 * np.pi), 'equatorial latitude', 1e-9, 1e-9)
    close(1 - np.abs(z[~eq]), (2 - 4 * np.abs(y[~eq]) / np.pi)**2 / 3, 'polar latitude', 1e-9, 1e-9)
    need(np.all(np.sign(z[~eq]) == np.sign(y[~eq])), 'hemisphere', y[~eq], z[~eq])
    close(phi[eq], x[eq], 'equatorial longitude', 1e-12, 1e-12)
    top = np.abs(np.abs(y) - np.pi / 2) < 1e-12
    k = np.floor(2 * x / np.pi)
    s = 4 * np.abs(y) / np.pi - 1
    m = ~eq & ~top
    need(np.all(np.abs(((phi - (2 * k + 1) * np.pi / 4) * (1 - s) - (x - (2 * k + 1) * np.pi / 4))[m]) < 1e-9), 'polar longitude', x[m], y[m], phi[m])
    need(np.all(np.isfinite(phi)) and np.all(np.isfinite(theta)), 'finite')
    x2, y2 = coords.healpix_ang2xy(np.array(phi), np.array(theta))
    close(y2, y, 'y round trip', 1e-7, 1e-7)
    inner = ~top & (np.abs((phi - (2 * k + 1) * np.pi / 4)) < np.pi / 4 - 1e-6)
    close(x2[inner], x[inner], 'x round trip', 1e-7, 1e-7)
    for i in range(len(x)):
        p1, t1 = coords.healpix_xy2ang(float(x[i]), float(y[i]))
        need(abs(p1 - phi[i]) < 1e-9 and abs(t1 - theta[i]) < 1e-9, 'scalar and array differ', float(x[i]), float(y[i]), p1, phi[i], t1, theta[i])


# ------------------------------------------------------------------ rotations
def rot_short(u, v):
    """rotation matrix along the shortest line, None when it is not unique"""
    n = np.cross(u, v)
    c = float(u.dot(v))
    s = np.linalg.norm(n)
    if s < (1e-9 if c > 0 else 1e-6):
        return np.eye(3) if c > 0 else None
    k = n / s
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + s * K + (1 - c) * K.dot(K)


def rot_axis(k, alpha):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(alpha) * K + (1 - math.cos(alpha)) * K.dot(K)


def isometry(P, Q, msg):
    G1, G2 = P.dot(P.T), Q.dot(Q.T)
    need(np.all(np.abs(G1 - G2) < 1e-6), msg + ': separations change', float(np.abs(G1 - G2).max()))
    if len(P) >= 3:
        d1, d2 = np.linalg.det(P[:3]), np.linalg.det(Q[:3])
        need(abs(d1 - d2) < 1e-6, msg + ': handedness', d1, d2)


def ranges(phi, theta, msg):
    need(np.all(np.asarray(phi) >= 0) and np.all(np.asarray(phi) <= TWOPI), msg + ': phi out of range', phi)
    need(np.all(np.asarray(theta) >= 0) and np.all(np.asarray(theta) <= np.pi), msg + ': theta out of range', theta)


def scalars(fn, phi, theta, p2, t2, msg):
    for i in range(min(len(phi), 4)):
        p1, t1 = fn(float(phi[i]), float(theta[i]))
        need(np.all(np.abs(vec(p1, t1) - vec(p2[i], t2[i])) < 1e-7), msg + ': scalar and array differ', p1, t1, p2[i], t2[i])


@contract('usphere_rotate')
def c_rot(a):
    phi, theta = pieces(a, 'phi', 'theta')
    ps, ts, pe, te = a['start'][0], a['start'][1], a['end'][0], a['end'][1]
    f = lambda p, t: coords.usphere_rotate(p, t, pe, te, phi_start=ps, theta_start=ts)
    p2, t2 = f(phi.copy(), theta.copy())
    ranges(p2, t2, 'rotate')
    P, Q = vec(phi, theta), vec(p2, t2)
    isometry(P, Q, 'rotate')
    u, v = vec(ps, ts), vec(pe, te)
    s = f(np.array([ps]), np.array([ts]))
    need(np.all(np.abs(vec(*s)[0] - v) < 2e-7), 'start point does not reach the end point', s, (pe, te))
    Rm = rot_short(u, v)
    if Rm is not None:
        need(np.all(np.abs(P.dot(Rm.T) - Q) < 2e-7), 'not the rotation along the shortest line', Q, P.dot(Rm.T))
    scalars(f, phi, theta, p2, t2, 'rotate')


@contract('usphere_shift')
def c_shift(a):
    phi, theta = pieces(a, 'phi', 'theta')
    ps, ts, pe, te = a['start'][0], a['start'][1], a['end'][0], a['end'][1]
    f = lambda p, t: coords.usphere_shift(p, t, ps, ts, pe, te)
    p2, t2 = f(phi.copy(), theta.copy())
    ranges(p2, t2, 'shift')
    P, Q = vec(phi, theta), vec(p2, t2)
    isometry(P, Q, 'shift')
    Rz = rot_axis(np.array([0., 0., 1.]), pe - ps)
    Rm = rot_short(vec(pe, ts), vec(pe, te))
    if Rm is not None:
        need(np.all(np.abs(P.dot(Rz.T).dot(Rm.T) - Q) < 2e-7), 'shift is along longitude, then along the meridian', Q)
    s = f(np.array([ps]), np.array([ts]))
    need(np.all(np.abs(vec(*s)[0] - vec(pe, te)) < 2e-7), 'start point does not reach the end point', s, (pe, te))
    scalars(f, phi, theta, p2, t2, 'shift')


@contract('usphere_spin')
def c_spin(a):
    phi, theta = pieces(a, 'phi', 'theta')
    pc, tc, al = a['center'][0], a['center'][1], a['alpha']
    f = lambda p, t: coords.usphere_spin(p, t, pc, tc, al)
    p2, t2 = f(phi.copy(), theta.copy())
    ranges(p2, t2, 'spin')
    P, Q = vec(phi, theta), vec(p2, t2)
    isometry(P, Q, 'spin')
    Rm = rot_axis(vec(pc, tc), al)
    need(np.all(np.abs(P.dot(Rm.T) - Q) < 2e-6), 'turn about the center by alpha', Q, P.dot(Rm.T))
    scalars(f, phi, theta, p2, t2, 'spin')


@contract('rotation_rejects')
def c_rotrej(a):
    fn = getattr(coords, a['fn'])
    p = np.array([.3, 1.])
    raises(lambda: fn(*([p, p] + a['args']), **a.get('kw', {})), a['fn'])


@contract('phi_shift')
def c_phishift(a):
    phi, d = arr(a['phi']), a['dphi']
    got = coords.usphere_phi_shift(phi.copy(), d)
    need(np.shape(got) == phi.shape, 'shape')
    need(np.all(got >= 0) and np.all(got <= TWOPI), 'out of range', got)
    angle_close(got, phi + d, 'shift modulo 2 pi')
    for i in range(len(phi)):
        s = coords.usphere_phi_shift(float(phi[i]), d)
        need(abs(s - got[i]) < 1e-12, 'scalar and array differ', float(phi[i]), s, got[i])


@contract('phi_shift_rejects')
def c_psr(a):
    raises(lambda: coords.usphere_phi_shift(np.array([1., 2.]), a['dphi']), 'dphi out of range')
    raises(lambda: coords.usphere_phi_shift(1., a['dphi']), 'dphi out of range')


@contract('rotate_polar')
def c_rp(a):
    phi, d = arr(a['phi']), a['rotate']
    got = coords.rotate_polar(phi.copy(), d)
    need(np.all(got >= 0) and np.all(got <= TWOPI), 'out of range', got)
    angle_close(got, phi + d, 'rotation modulo 2 pi')


@contract('rotate_polar_rejects')
def c_rpr(a):
    raises(lambda: coords.rotate_polar(np.array([1., 2.]), a['rotate']), 'rotation out of range')


@contract('usphere_area')
def c_area(a):
    p1, p2, t1, t2 = a['lim']
    got = coords.usphere_area(p1, p2, t1, t2)
    close(got, (p2 - p1) * (math.cos(t1) - math.cos(t2)), 'area', 1e-12, 1e-12)
    if p1 < p2 and t1 < t2:
        pm, tm = p1 + (p2 - p1) * a['cut'][0], t1 + (t2 - t1) * a['cut'][1]
        if p1 < pm < p2 and t1 < tm < t2:
            s = sum(coords.usphere_area(q1, q2, s1, s2) for q1, q2 in ((p1, pm), (pm, p2)) for s1, s2 in ((t1, tm), (tm, t2)))
            close(s, got, 'areas of the parts', 1e-12, 1e-12)
        need(got > 0, 'positive', got)


@contract('usphere_area_rejects')
def c_arear(a):
    raises(lambda: coords.usphere_area(*a['lim']), 'limits %r' % (a['lim'],))


@contract('lonlat')
def c_lonlat(a):
    t = arr(a['theta'])
    l = coords.sphere2lonlat(t.copy())
    close(l, np.pi / 2 - t, 'latitude', 1e-14, 1e-14)
    close(coords.lonlat2sphere(l.copy()), t, 'round trip', 1e-13, 1e-13)
    close(coords.sphere2lonlat(coords.lonlat2sphere(t.copy() - np.pi / 2)), t - np.pi / 2, 'round trip', 1e-13, 1e-13)
    for v in t:
        close(coords.sphere2lonlat(float(v)), np.pi / 2 - v, 'scalar', 1e-14, 1e-14)
        close(coords.lonlat2sphere(float(v)), np.pi / 2 - v, 'scalar', 1e-14, 1e-14)


# ------------------------------------------------------------------ generators
AX = np.array([0., 1., -1., 2.5, -2.5, 1e-3, -1e-3, 100., -100.])


def N(tier, q):
    return q if tier == 'quick' else q * 15


@gen('C07')
def g07(rng, tier):
    X, Y = np.meshgrid(AX, AX)
    for c in (None, [0., 0.], [1., -2.], [-30., 2.5]):
        cc = c or [0., 0.]
        yield 'cart2polar', dict(x=X + cc[0], y=Y + cc[1], center=c)
        yield 'cart2polar', dict(x=X.ravel() + cc[0], y=Y.ravel() + cc[1], center=c)
        r, p = np.meshgrid([0., .01, 1., 3., 50.], np.concatenate([np.arange(16) * np.pi / 8, [TWOPI - 1e-9, 1e-9]]))
        yield 'polar2cart', dict(r=r, phi=p, center=c)
    for _ in range(N(tier, 60)):
        c = [float(v) for v in rng.uniform(-5, 5, 2)]
        sh = [(7,), (3, 4), (2, 3, 2), (1,), (1, 5)][rng.integers(0, 5)]
        s = 10**rng.uniform(-2, 2)
        yield 'cart2polar', dict(x=c[0] + s * rng.normal(size=sh), y=c[1] + s * rng.normal(size=sh), center=c)
        yield 'polar2cart', dict(r=rng.uniform(0, 10, sh), phi=rng.uniform(0, TWOPI, sh), center=c)


@gen('C08')
def g08(rng, tier):
    A = np.array([0., 1., -1., 3.5, -.25])
    X, Y, Z = [v.ravel() for v in np.meshgrid(A, A, A)]
    for c in (None, [0., 0., 0.], [1., -2., .5], [-30., 2.5, 7.]):
        cc = c or [0., 0., 0.]
        yield 'cart2sphere', dict(x=X + cc[0], y=Y + cc[1], z=Z + cc[2], center=c)
        r, p, t = [v.ravel() for v in np.meshgrid([0., .05, 1., 3.], np.arange(8) * np.pi / 4, [0., .1, 1., np.pi / 2, 2., np.pi - .1, np.pi])]
        yield 'sphere2cart', dict(r=r, phi=p, theta=t, center=c)
    for _ in range(N(tier, 60)):
        c = [float(v) for v in rng.uniform(-5, 5, 3)]
        n = int(rng.integers(1, 12))
        s = 10**rng.uniform(-2, 2)
        yield 'cart2sphere', dict(x=c[0] + s * rng.normal(size=n), y=c[1] + s * rng.normal(size=n), z=c[2] + s * rng.normal(size=n), center=c)
        yield 'sphere2cart', dict(r=rng.uniform(0, 10, n), phi=rng.uniform(0, TWOPI, n), theta=rng.uniform(0, np.pi, n), center=c)


@gen('C09')
def g09(rng, tier):
    X, Y = np.meshgrid([-1., -.6, 0., .6, .8, 1., 2.], [-1., -.8, 0., .3, .8, 1., 3.])
    yield 'ortho2cart', dict(x=X, y=Y)
    yield 'ortho2cart', dict(x=X, y=Y, r=1., fill=0.)
    yield 'ortho2cart', dict(x=X.ravel(), y=Y.ravel(), r=2.5, fill=-1.)
    yield 'ortho2cart', dict(x=X.ravel(), y=Y.ravel(), r=.5)
    for _ in range(N(tier, 80)):
        r = float(10**rng.uniform(-2, 2))
        sh = [(6,), (3, 4), (2, 2, 3)][rng.integers(0, 3)]
        d = dict(x=r * rng.uniform(-1.3, 1.3, sh), y=r * rng.uniform(-1.3, 1.3, sh), r=r)
        if rng.random() < .5:
            d['fill'] = float(rng.choice([0., -5., 7.]))
        yield 'ortho2cart', d


@gen('C10')
def g10(rng, tier):
    tz = np.arccos(2. / 3.)
    th = np.array([0., 1e-3, .1, .5, tz - 1e-9, tz, tz + 1e-9, 1., np.pi / 2, 2., np.pi - tz - 1e-9, np.pi - tz + 1e-9, 2.7, np.pi - 1e-3, np.pi])
    ph = np.concatenate([np.arange(16) * np.pi / 8, [.3, 1.2, 2.2, 3.3, 5.1, 6.2]])
    P, T = [v.ravel() for v in np.meshgrid(ph, th)]
    yield 'healpix_ang', dict(phi=P, theta=T)
    for t in th:
        yield 'healpix_ang', dict(phi=ph[:6], theta=np.full(6, t))
    pts = []
    for k in range(4):
        for s in (0., .2, .5, .9, .999, 1.):
            for q in (-1., -.5, 0., .5, .99):
                x, y = (2 * k + 1) * np.pi / 4 + q * (1 - s) * np.pi / 4, np.pi / 4 * (1 + s)
                pts += [(x, y), (x, -y)]
    pts = np.array(pts)
    yield 'healpix_xy', dict(x=pts[:, 0], y=pts[:, 1])
    yield 'healpix_xy', dict(x=np.array([.3, 1.]), y=np.array([.1, -.2]))
    yield 'healpix_xy', dict(x=np.array([np.pi / 4, np.pi / 4]), y=np.array([np.pi / 2, -np.pi / 2]))
    yield 'healpix_xy', dict(x=np.array([np.pi / 4, 3.9, 2.]), y=np.array([np.pi / 2, -1.2, .1]))
    for _ in range(N(tier, 80)):
        n = int(rng.integers(1, 15))
        yield 'healpix_ang', dict(phi=rng.uniform(0, TWOPI, n), theta=np.arccos(rng.uniform(-1, 1, n)) if rng.random() < .7 else rng.uniform(0, np.pi, n))
        s = rng.uniform(-1, 1, n)
        q = rng.uniform(-1, 1, n)
        k = rng.integers(0, 4, n)
        y = np.where(rng.random(n) < .5, np.pi / 4 * rng.uniform(-1, 1, n), np.sign(s) * np.pi / 4 * (1 + np.abs(s)))
        sa = np.maximum(4 * np.abs(y) / np.pi - 1, 0)
        x = (2 * k + 1) * np.pi / 4 + q * (1 - sa) * np.pi / 4
        yield 'healpix_xy', dict(x=x, y=y)


SPECIAL = [(0., 0.), (0., np.pi), (1., np.pi / 2), (0., np.pi / 2), (np.pi, np.pi / 2), (1.3, .4), (1.3 + np.pi, np.pi - .4), (TWOPI, 1.),
           (0., 1.), (4., 2.5), (2., 0.), (2., np.pi), (5.5, 1e-7), (np.pi / 2, np.pi / 2), (3 * np.pi / 2, np.pi / 2), (3 * np.pi / 2, 0.)]


def points(rng, n=6):
    return rng.uniform(0, TWOPI, n), np.arccos(rng.uniform(-1, 1, n))


@gen('C11')
def g11(rng, tier):
    for s in SPECIAL:
        for e in SPECIAL:
            p, t = points(rng, 5)
            p = np.concatenate([p, [0., s[0], e[0]]])
            t = np.concatenate([t, [0., s[1], e[1]]])
            if s != e:
                yield 'usphere_rotate', dict(phi=p, theta=t, start=list(s), end=list(e))
            yield 'usphere_shift', dict(phi=p, theta=t, start=list(s), end=list(e))
        for al in (0., 1e-3, 1., np.pi / 2, np.pi, 4., TWOPI):
            p, t = points(rng, 5)
            yield 'usphere_spin', dict(phi=np.append(p, s[0]), theta=np.append(t, s[1]), center=list(s), alpha=al)
    for _ in range(N(tier, 120)):
        p, t = points(rng, int(rng.integers(3, 9)))
        s, e = [[float(rng.uniform(0, TWOPI)), float(np.arccos(rng.uniform(-1, 1)))] for _ in range(2)]
        k = rng.integers(0, 8)
        if k == 0:
            e = [(s[0] + np.pi) % TWOPI, np.pi - s[1]]
        elif k == 1:
            e = [s[0], float(rng.uniform(0, np.pi))]
        elif k == 2:
            e = [float(rng.uniform(0, TWOPI)), s[1]]
        elif k in (3, 4):
            # a small step, in one coordinate or both
            d = 10.**rng.uniform(-6, -1.5, 2) * rng.choice([-1, 1], 2) * [[1, 0], [0, 1], [1, 1]][rng.integers(3)]
            s[1] = float(rng.uniform(.2, np.pi - .2))
            e = [float(np.clip(s[0] + d[0], 0, TWOPI)), float(np.clip(s[1] + d[1], 0, np.pi))]
        yield 'usphere_rotate', dict(phi=p, theta=t, start=s, end=e)
        yield 'usphere_shift', dict(phi=p, theta=t, start=s, end=e)
        yield 'usphere_spin', dict(phi=p, theta=t, center=s, alpha=float(rng.uniform(0, TWOPI)))
    bad = [(-.1, 1.), (6.4, 1.), (1., -.1), (1., 3.2)]
    for b in bad:
        yield 'rotation_rejects', dict(fn='usphere_rotate', args=[b[0], b[1]])
        yield 'rotation_rejects', dict(fn='usphere_rotate', args=[1., 1.], kw=dict(phi_start=b[0], theta_start=b[1]))
        yield 'rotation_rejects', dict(fn='usphere_shift', args=[1., 1., b[0], b[1]])
        yield 'rotation_rejects', dict(fn='usphere_shift', args=[b[0], b[1], 1., 1.])
        yield 'rotation_rejects', dict(fn='usphere_spin', args=[b[0], b[1], 1.])
    yield 'rotation_rejects', dict(fn='usphere_spin', args=[1., 1., -.1])
    yield 'rotation_rejects', dict(fn='usphere_spin', args=[1., 1., 6.3])


@gen('C12')
def g12(rng, tier):
    base = np.concatenate([np.arange(16) * np.pi / 8, [1e-9, TWOPI - 1e-9, .3, 6.2]])
    for d in (0., 1e-9, np.pi / 8, 1., np.pi, 4., TWOPI - 1e-9, TWOPI, -TWOPI, -1e-9, -np.pi / 8, -1., -np.pi, -5., -TWOPI + 1e-9):
        yield 'phi_shift', dict(phi=base, dphi=d)
        if 0 < d < TWOPI:
            yield 'rotate_polar', dict(phi=base, rotate=d)
    for d in (6.3, -6.3, 7., -7., 100.):
        yield 'phi_shift_rejects', dict(dphi=d)
    for d in (0., -1e-3, -1., TWOPI, 7.):
        yield 'rotate_polar_rejects', dict(rotate=d)
    for _ in range(N(tier, 150)):
        p = rng.uniform(0, TWOPI, int(rng.integers(1, 20)))
        yield 'phi_shift', dict(phi=p, dphi=float(rng.uniform(-TWOPI, TWOPI)))
        yield 'rotate_polar', dict(phi=p, rotate=float(rng.uniform(1e-6, TWOPI - 1e-6)))


@gen('C14')
def g14(rng, tier):
    yield 'usphere_area', dict(lim=[0., TWOPI, 0., np.pi], cut=[.5, .5])
    yield 'usphere_area', dict(lim=[0., np.pi, 0., np.pi / 2], cut=[.25, .75])
    yield 'usphere_area', dict(lim=[1., .5, 2., 1.], cut=[.5, .5])
    for l in ([-.1, 1., .5, 1.], [TWOPI, 1., .5, 1.], [0., 0., .5, 1.], [0., 6.3, .5, 1.], [0., 1., -.1, 1.], [0., 1., np.pi, 1.], [0., 1., .5, 0.],
              [0., 1., .5, 3.2], [1., 1., .5, 1.], [0., 1., .5, .5], [0., -1., .5, 1.], [0., 1., 1., -1.]):
        yield 'usphere_area_rejects', dict(lim=l)
    yield 'lonlat', dict(theta=np.array([0., np.pi / 4, np.pi / 2, 2., np.pi]))
    for _ in range(N(tier, 150)):
        p = np.sort(rng.uniform(0, TWOPI, 2))
        t = np.sort(rng.uniform(0, np.pi, 2))
        yield 'usphere_area', dict(lim=[float(p[0]), float(p[1]), float(t[0]), float(t[1])], cut=[float(v) for v in rng.uniform(.05, .95, 2)])
        yield 'lonlat', dict(theta=rng.uniform(0, np.pi, 4))
