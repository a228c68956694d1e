"""C26-C28, C32: dense remaps and the point-of-view projection."""
import math
import numpy as np
import healpy as hp
from base import *
from magpie import densegrid

TWOPI = 2. * np.pi
EPS = 1e-7


def lin(lo, hi, n):
    return lo + (hi - lo) * np.arange(n + 1) / float(n)


def mid(e):
    return (e[1:] + e[:-1]) / 2.


def cell(v, lo, hi, n):
    """index of the cell that contains v (n or -1 outside) and whether v is too close to an edge to tell"""
    t = (v - lo) * n / (hi - lo)
    i = np.floor(t).astype(int)
    near = (np.abs(t - np.rint(t)) < EPS) & (t > -.5) & (t < n + .5)
    return np.where((i >= 0) & (i < n), i, -1), near


def rot(axis, a):
    """rotation matrix about a unit vector"""
    k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + math.sin(a) * k + (1 - math.cos(a)) * k.dot(k)


def vec(phi, theta):
    return np.stack([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)], axis=-1)


def shift_matrix(p0, t0, p1, t1):
    return rot([-math.sin(p1), math.cos(p1), 0.], t1 - t0).dot(rot([0., 0., 1.], p1 - p0))


def sky(v, ns):
    """HEALPix pixel of directions and whether it is too close to call"""
    th = np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2])
    ph = np.mod(np.arctan2(v[..., 1], v[..., 0]), TWOPI)
    p = hp.ang2pix(ns, th, ph)
    near = np.zeros(np.shape(p), dtype=bool)
    for a in (-1, 1):
        for b in (-1, 1):
            w = v + 3e-7 * (a * np.array([1., .7, .3]) + b * np.array([.4, -.8, .9]))
            t2 = np.arctan2(np.hypot(w[..., 0], w[..., 1]), w[..., 2])
            p2 = np.mod(np.arctan2(w[..., 1], w[..., 0]), TWOPI)
            near |= hp.ang2pix(ns, t2, p2) != p
    return p, near


def average(vals, near, w, ny, ry, nx, rx):
    """weighted average over blocks of sub-pixels, NaN weights excluded; blocks with an unclear sub-pixel flagged"""
    v = (vals * w).reshape(ny, ry, nx, rx).sum(axis=(1, 3))
    s = w.reshape(ny, ry, nx, rx).sum(axis=(1, 3))
    with np.errstate(all='ignore'):
        return v / s, near.reshape(ny, ry, nx, rx).any(axis=(1, 3)), s


def compare(got, exp, unclear, msg):
    need(np.shape(got) == np.shape(exp), msg + ': shape', np.shape(got), np.shape(exp))
    g = np.where(unclear, 0., got)
    e = np.where(unclear, 0., exp)
    close(g, e, msg, 1e-9, 1e-9)


def field(seed, shape, positive=False, zeros=False):
    """values, or weights of several kinds"""
    r = np.random.Generator(np.random.PCG64(seed))
    f = r.normal(size=shape)
    if not positive:
        return f
    w = np.abs(f) + .1
    kind = seed % 8
    if kind == 1:
        w = w / np.max(w)
    elif kind == 2:
        w = w * 1e-7
    elif kind == 3:
        w = w * 1e7
    elif kind == 4:
        w = np.ceil(w)
    elif kind == 5:
        w = w**4 / np.max(w)**4 + 1e-6
    elif kind == 6 and zeros:
        w = (r.random(shape) < .6) * 1.
    elif kind == 7 and zeros:
        w = w * (r.random(shape) < .8)
    return w


def attrs(o, msg, **kw):
    for k, v in kw.items():
        close(getattr(o, k), v, '%s.%s' % (msg, k), 1e-10, 1e-10)


# ------------------------------------------------------------------ Box2Ring
def box2ring_grids(b, p):
    e = dict(xedges=lin(b[0], b[1], b[2]), yedges=lin(b[3], b[4], b[5]))
    e['redges'] = lin(p['rmin'], p['rmax'], p['numr'])
    e['pedges'] = lin(p.get('pmin', 0.), p.get('pmax', TWOPI), p['nump'])
    for k in ('x', 'y', 'r', 'p'):
        e[k + 'mid'] = mid(e[k + 'edges'])
    e['x2d'], e['y2d'] = np.meshgrid(e['xmid'], e['ymid'])
    e['r2d'], e['p2d'] = np.meshgrid(e['rmid'], e['pmid'])
    return e


def box2ring_spec(b, p, f):
    e = box2ring_grids(b, p)
    rr, rp = p.get('rebin_r', 2), p.get('rebin_p', 2)
    c, s = p.get('center', [0., 0.]), p.get('phi_shift', 0.)
    nr, npp = p['numr'], p['nump']
    re = lin(p['rmin'], p['rmax'], nr * rr)
    pe = lin(p.get('pmin', 0.), p.get('pmax', TWOPI), npp * rp)
    R, P = np.meshgrid(mid(re), mid(pe) + s)
    i, ni = cell(c[0] + R * np.cos(P), b[0], b[1], b[2])
    j, nj = cell(c[1] + R * np.sin(P), b[3], b[4], b[5])
    inside = (i >= 0) & (j >= 0)
    v = np.where(inside, f[np.maximum(j, 0), np.maximum(i, 0)], 0.)
    near = (ni | nj)
    w = np.tile(np.diff(re**2), (npp * rp, 1))
    out, unclear, _ = average(v, near, w, npp, rp, nr, rr)
    allin = inside.reshape(npp, rp, nr, rr).all(axis=(1, 3))
    return e, out, unclear, allin


@contract('dense.Box2Ring')
def c_b2r(a):
    b, p = a['box'], a['polar']
    o = densegrid.Box2Ring()
    o.setup_box(*b)
    o.setup_polar(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    f = field(a['seed'], (b[5], b[2]))
    w = field(a['seed'] + 1, (b[5], b[2]), True, True)
    e, exp, unclear, allin = box2ring_spec(b, p, f)
    attrs(o, 'Box2Ring', **e)
    compare(o.remap(f.copy()), exp, unclear, 'remap')
    compare(o.remap(f.copy(), verbose=False), exp, unclear, 'remap')
    _, en, _, _ = box2ring_spec(b, p, f * w)
    _, ed, _, _ = box2ring_spec(b, p, w)
    with np.errstate(all='ignore'):
        compare(o.remap(f.copy(), w=w.copy()), en / ed, unclear | (ed == 0), 'weighted remap')
    o.get_mask_in_bound(verbose=False)
    m = o.mask_in_bound
    need(np.array_equal((m == 1.)[~unclear], allin[~unclear]), 'in-bound mask', m, allin)


def rejects(make, good, bad, msg):
    for k, v in bad:
        a = dict(good)
        a[k] = v
        raises(lambda: make(a), '%s with %s=%r' % (msg, k, v))


@contract('dense.rejects')
def c_rej(a):
    cls = a['cls']
    o = getattr(densegrid, cls)()
    if cls == 'Box2Ring':
        gb = dict(xmin=-1., xmax=1., numx=4, ymin=-1., ymax=1., numy=4)
        o.setup_box(**gb)
        rejects(lambda k: o.setup_box(**k), gb, [('numx', 0), ('numx', -1), ('numy', 0), ('numy', -3)], 'setup_box')
        gp = dict(rmin=0., rmax=1., numr=3, nump=4, pmin=0., pmax=TWOPI)
        o.setup_polar(**gp)
        rejects(lambda k: o.setup_polar(**k), gp, [('rmin', -.1), ('rmin', 1.), ('rmin', 2.), ('numr', 0), ('nump', 0), ('pmin', -.1), ('pmin', 6.4), ('pmax', 0.), ('pmax', 6.4), ('center', [0.]), ('center', [0., 0., 0.])], 'setup_polar')
    elif cls == 'Cube2Shell':
        gb = dict(xmin=-1., xmax=1., numx=4, ymin=-1., ymax=1., numy=4, zmin=-1., zmax=1., numz=4)
        o.setup_cube(**gb)
        rejects(lambda k: o.setup_cube(**k), gb, [('numx', 0), ('numy', 0), ('numx', -2)], 'setup_cube')
        gp = dict(rmin=0., rmax=1., numr=3, nside=2)
        o.setup_polar(**gp)
        rejects(lambda k: o.setup_polar(**k), gp, [('rmin', -.1), ('rmin', 1.), ('numr', 0), ('nside', 0), ('nside', -1), ('center', [0., 0.]), ('rebin_shell', 0), ('rebin_r', 0)], 'setup_polar')
    elif cls == 'Heal2Ring':
        raises(lambda: o.setup_map(0), 'nside 0')
        raises(lambda: o.setup_map(-2), 'nside -2')
        o.setup_map(2)
        gp = dict(alpha_min=0., alpha_max=1., num_alpha=3, num_beta=4, beta_min=0., beta_max=TWOPI)
        o.setup_polar_cap(**gp)
        rejects(lambda k: o.setup_polar_cap(**k), gp, [('alpha_min', -.1), ('alpha_min', 1.), ('num_alpha', 0), ('num_beta', 0), ('beta_min', -.1), ('beta_min', 6.4), ('beta_max', 0.), ('beta_max', 6.4), ('center', [0.])], 'setup_polar_cap')
    elif cls == 'Heal2Polar':
        raises(lambda: o.setup_map(0), 'nside 0')
        o.setup_map(2)
        gp = dict(x_length=1., x_grid=3)
        o.setup_box(**gp)
        rejects(lambda k: o.setup_box(**k), gp, [('x_length', -1.), ('x_length', 6.4), ('x_grid', 0), ('y_length', -1.), ('y_length', 3.2), ('y_grid', 0), ('center', [0.])], 'setup_box')
    elif cls == 'Heal2Ortho':
        raises(lambda: o.setup_map(0), 'nside 0')
        o.setup_map(2)
        gp = dict(x_length=1., x_grid=3)
        o.setup_box(**gp)
        rejects(lambda k: o.setup_box(**k), gp, [('x_grid', 0), ('center', [0.])], 'setup_box')


# ------------------------------------------------------------------ Cube2Shell
@contract('dense.Cube2Shell')
def c_c2s(a):
    b, p = a['cube'], a['polar']
    o = densegrid.Cube2Shell()
    o.setup_cube(*b)
    o.setup_polar(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    f = field(a['seed'], (b[5], b[2], b[8]))
    ax = [mid(lin(b[3 * k], b[3 * k + 1], b[3 * k + 2])) for k in range(3)]
    X, Y, Z = np.meshgrid(*ax)
    re0 = lin(p['rmin'], p['rmax'], p['numr'])
    attrs(o, 'Cube2Shell', x3d=X, y3d=Y, z3d=Z, redges=re0, rmid=mid(re0))
    c = p.get('center', [0., 0., 0.])
    ns, rs, rr = p['nside'], p.get('rebin_shell', 2), p.get('rebin_r', 2)
    re = lin(p['rmin'], p['rmax'], p['numr'] * rr)
    th, ph = hp.pix2ang(ns * rs, np.arange(12 * (ns * rs)**2))
    parent = hp.ang2pix(ns, th, ph)
    d = vec(ph, th)
    per = [p.get('periodic' + s, [0, 0]) for s in 'xyz']
    acc = np.zeros((p['numr'], 12 * ns * ns))
    unclear = np.zeros(acc.shape, dtype=bool)
    wr = np.diff(re**3)
    for k, r in enumerate(mid(re)):
        v = np.zeros(len(th))
        near = np.zeros(len(th), dtype=bool)
        hits = np.zeros(len(th), dtype=int)
        for i in range(per[0][0], per[0][1] + 1):
            for j in range(per[1][0], per[1][1] + 1):
                for l in range(per[2][0], per[2][1] + 1):
                    cc = np.array(c) + np.array([i, j, l]) * np.array([b[1] - b[0], b[4] - b[3], b[7] - b[6]])
                    x = cc + r * d
                    ii = [cell(x[:, q], b[3 * q], b[3 * q + 1], b[3 * q + 2]) for q in range(3)]
                    ok = (ii[0][0] >= 0) & (ii[1][0] >= 0) & (ii[2][0] >= 0)
                    for q in range(3):
                        near |= ii[q][1]
                    v = np.where(ok, f[np.maximum(ii[1][0], 0), np.maximum(ii[0][0], 0), np.maximum(ii[2][0], 0)], v)
        s = np.bincount(parent, weights=v, minlength=12 * ns * ns) / float(rs * rs)
        acc[k // rr] += s * wr[k]
        unclear[k // rr] |= np.bincount(parent, weights=near * 1., minlength=12 * ns * ns) > 0
    acc /= wr.reshape(p['numr'], rr).sum(axis=1)[:, None]
    compare(o.remap(f.copy(), verbose=False), acc, unclear, 'remap')
    if a.get('verbose'):
        compare(o.remap(f.copy()), acc, unclear, 'remap')


# ------------------------------------------------------------------ HEALPix
@contract('dense.Heal2Ring')
def c_h2r(a):
    p, ns = a['polar'], a['nside']
    o = densegrid.Heal2Ring()
    o.setup_map(ns)
    o.setup_polar_cap(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    na, nb = p['num_alpha'], p['num_beta']
    ra, rb = p.get('rebin_alpha', 2), p.get('rebin_beta', 2)
    b0, b1 = p.get('beta_min', 0.), p.get('beta_max', TWOPI)
    c = p.get('center', [0., 0.])
    ae, be = lin(p['alpha_min'], p['alpha_max'], na), lin(b0, b1, nb)
    A, B = np.meshgrid(mid(ae), mid(be))
    attrs(o, 'Heal2Ring', alpha_edges=ae, beta_edges=be, alpha_mid=mid(ae), beta_mid=mid(be), alpha2d=A, beta2d=B)
    rae = lin(p['alpha_min'], p['alpha_max'], na * ra)
    RA, RB = np.meshgrid(mid(rae), mid(lin(b0, b1, nb * rb)) + p.get('beta_shift', 0.))
    v = vec(RB, RA).dot(shift_matrix(0., 0., c[0], c[1]).T)
    pix, near = sky(v, ns)
    w = np.tile(np.cos(rae[:-1]) - np.cos(rae[1:]), (nb * rb, 1))
    check_heal(o, a, ns, pix, near, w, nb, rb, na, ra)


def check_heal(o, a, ns, pix, near, w, ny, ry, nx, rx, nanmask=None):
    f, g = field(a['seed'], 12 * ns * ns), field(a['seed'] + 1, 12 * ns * ns, True, True)
    avg = lambda m: average(m[pix], near, w, ny, ry, nx, rx)
    exp, unclear, s = avg(f)
    num, den, one = avg(f * g)[0], avg(g)[0], avg(np.ones(12 * ns * ns))[0]
    if nanmask is not None:
        off, edge = nanmask
        unclear = unclear | edge
        exp, one = [np.where(off, np.nan, q) for q in (exp, one)]
        den = np.where(off, np.nan, den)
    compare(o.remap(f.copy()), exp, unclear, 'remap')
    compare(o.remap(f.copy(), verbose=False), exp, unclear, 'remap')
    with np.errstate(all='ignore'):
        compare(o.remap(f.copy(), w=g.copy()), num / den, unclear | (den == 0), 'weighted remap')
    compare(o.remap(np.ones(12 * ns * ns)), one, unclear if nanmask is None else nanmask[1], 'constant map')


@contract('dense.Heal2Polar')
def c_h2p(a):
    p, ns = a['box'], a['nside']
    o = densegrid.Heal2Polar()
    o.setup_map(ns)
    o.setup_box(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    xl, nx = p['x_length'], p['x_grid']
    yl = p.get('y_length')
    yl = min(xl, np.pi) if yl is None else yl
    ny = p.get('y_grid') or nx
    rx, ry = p.get('rebin_x', 2), p.get('rebin_y', 2)
    c = p.get('center', [0., 0.])
    xe, ye = lin(-xl / 2, xl / 2, nx), lin(-yl / 2, yl / 2, ny)
    X, Y = np.meshgrid(mid(xe), mid(ye))
    attrs(o, 'Heal2Polar', xedges=xe, yedges=ye, xmid=mid(xe), ymid=mid(ye), x2d=X, y2d=Y)
    rye = lin(-yl / 2, yl / 2, ny * ry)
    RX, RY = np.meshgrid(mid(lin(-xl / 2, xl / 2, nx * rx)), mid(rye))
    v = vec(RX, np.pi / 2 - RY).dot(rot([1., 0., 0.], p.get('alpha', 0.)).T).dot(shift_matrix(0., np.pi / 2, c[0], c[1]).T)
    pix, near = sky(v, ns)
    w = np.repeat((np.sin(rye[1:]) - np.sin(rye[:-1]))[:, None], nx * rx, axis=1)
    check_heal(o, a, ns, pix, near, w, ny, ry, nx, rx)


@contract('dense.Heal2Ortho')
def c_h2o(a):
    p, ns = a['box'], a['nside']
    o = densegrid.Heal2Ortho()
    o.setup_map(ns)
    o.setup_box(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    xl, nx = p['x_length'], p['x_grid']
    yl = p.get('y_length')
    yl = xl if yl is None else yl
    ny = p.get('y_grid') or nx
    rx, ry = p.get('rebin_x', 2), p.get('rebin_y', 2)
    c = p.get('center', [0., 0.])
    r = p.get('radius', 1.)
    xe, ye = lin(-xl / 2, xl / 2, nx), lin(-yl / 2, yl / 2, ny)
    X, Y = np.meshgrid(mid(xe), mid(ye))
    attrs(o, 'Heal2Ortho', xedges=xe, yedges=ye, x2d=X, y2d=Y)
    RX, RY = np.meshgrid(mid(lin(-xl / 2, xl / 2, nx * rx)), mid(lin(-yl / 2, yl / 2, ny * ry)))
    q = r * r - RX**2 - RY**2
    on = q >= 0
    RZ = np.sqrt(np.maximum(q, 0))
    M = shift_matrix(1.5 * np.pi, 0., c[0], c[1])
    n = np.sqrt(RX**2 + RY**2 + RZ**2)
    v = np.stack([RX, RY, RZ], axis=-1) / np.where(n == 0, 1., n)[..., None]
    pix, near = sky(v.dot(M.T), ns)
    near = (near & on) | (np.abs(q) < 1e-9 * r * r) | (np.hypot(RX, RY) < 1e-9)
    Q = r * r - X**2 - Y**2
    off = Q < 0
    edge = np.abs(Q) < 1e-9 * r * r
    # a pixel whose center is on the sphere may have no sub-pixel on it: not specified
    edge = edge | (~off & (on.reshape(ny, ry, nx, rx).sum(axis=(1, 3)) == 0))
    check_heal(o, a, ns, pix, near, on * 1., ny, ry, nx, rx, (off, edge))
    g = np.random.Generator(np.random.PCG64(a['seed']))
    ph, th = g.uniform(0, TWOPI, 30), np.arccos(g.uniform(-1, 1, 30))
    u = vec(ph, th).dot(M)
    x, y = o.transform(ph.copy(), th.copy())
    ok = np.abs(u[:, 2]) > 1e-9
    back = u[:, 2] < 0
    for got, k in ((x, 0), (y, 1)):
        close(np.asarray(got)[ok], np.where(back, np.nan, u[:, k])[ok], 'transform', 1e-7, 1e-7)
    for k in range(6):
        if ok[k]:
            s = o.transform(float(ph[k]), float(th[k]))
            close(s, [x[k], y[k]], 'transform of a scalar', 1e-9, 1e-9)


# ------------------------------------------------------------------ PointOfView
@contract('PointOfView')
def c_pov(a):
    cam, pt, D, spin = np.array(a['camera'], float), np.array(a['point'], float), a['display'], a.get('spin', 0.)
    o = densegrid.PointOfView()
    o.setup(list(a['camera']), list(a['point']), D, **({'spin': spin} if 'spin' in a else {}))
    u = pt - cam
    dist = np.linalg.norm(u)
    th, ph = math.acos(max(-1, min(1, u[2] / dist))), math.atan2(u[1], u[0]) % TWOPI
    if math.hypot(u[0], u[1]) == 0:
        ph = 0.
    M = rot([1., 0., 0.], spin).dot(rot([0., 0., 1.], -ph)).dot(rot([-math.sin(ph), math.cos(ph), 0.], np.pi / 2 - th))
    # points in front of the camera
    q = np.array(a['front'], float)
    x = cam + q.dot(M)
    bx, by, d = o.transform(x[:, 0].copy(), x[:, 1].copy(), x[:, 2].copy())
    sc = np.linalg.norm(q, axis=1)
    t = 1e-6 * D * (1 + (sc / q[:, 0])**2)
    close(d, sc, 'distance', 1e-9, 1e-9 * (1 + np.max(np.abs(cam))))
    need(np.all(np.abs(bx - D * q[:, 1] / q[:, 0]) <= t), 'picture x', bx, D * q[:, 1] / q[:, 0])
    need(np.all(np.abs(by - D * q[:, 2] / q[:, 0]) <= t), 'picture y', by, D * q[:, 2] / q[:, 0])
    r = o.reverse(np.array(bx), np.array(by), np.array(d))
    t = 1e-6 * (sc + 1e-3 * (1 + np.max(np.abs(cam)))) * (1 + sc / q[:, 0])
    for k in range(3):
        need(np.all(np.abs(r[k] - x[:, k]) <= t), 'transform then reverse, axis %d' % k, r[k], x[:, k])
    bx, by, d = o.transform(np.array([pt[0]]), np.array([pt[1]]), np.array([pt[2]]))
    need(abs(bx[0]) <= 1e-6 * D and abs(by[0]) <= 1e-6 * D, 'target is not in the middle', bx, by)
    close(d, [dist], 'distance of the target', 1e-9, 1e-9 * (1 + np.max(np.abs(cam))))


# ------------------------------------------------------------------ generators
def box_case(rng):
    lo = rng.uniform(-10, 5, 2)
    L = rng.uniform(1, 12, 2)
    return [float(lo[0]), float(lo[0] + L[0]), int(rng.integers(1, 12)), float(lo[1]), float(lo[1] + L[1]), int(rng.integers(1, 12))]


def polar_case(rng, b, dense=True):
    p = dict(rmin=float(rng.choice([0., rng.uniform(0, 2)])), numr=int(rng.integers(1, 6)), nump=int(rng.integers(1, 9)))
    p['rmax'] = p['rmin'] + float(rng.uniform(.2, 8))
    if rng.random() < .5:
        q = np.sort(rng.uniform(0, TWOPI, 2))
        p.update(pmin=float(q[0]), pmax=float(q[1]) + 1e-3 if q[1] < 6.2 else TWOPI)
    if rng.random() < .8:
        p['center'] = [float(rng.uniform(b[0] - 1, b[1] + 1)), float(rng.uniform(b[3] - 1, b[4] + 1))]
    if rng.random() < .5:
        p['phi_shift'] = float(rng.uniform(0, TWOPI))
    if dense and rng.random() < .8:
        p.update(rebin_r=int(rng.integers(1, 5)), rebin_p=int(rng.integers(1, 5)))
    return p


@gen('C26')
def g26(rng, tier):
    yield 'dense.rejects', dict(cls='Box2Ring')
    yield 'dense.Box2Ring', dict(box=[-5., 5., 8, -5., 5., 8], polar=dict(rmin=0., rmax=4.3, numr=3, nump=7), seed=1)
    yield 'dense.Box2Ring', dict(box=[-5., 5., 8, -3., 7., 5], polar=dict(rmin=0., rmax=9.3, numr=3, nump=7, rebin_r=1, rebin_p=1, center=[.1, .2]), seed=1)
    for _ in range(300 if tier == 'quick' else 6000):
        b = box_case(rng)
        yield 'dense.Box2Ring', dict(box=b, polar=polar_case(rng, b), seed=int(rng.integers(10**6)))


@gen('C27')
def g27(rng, tier):
    yield 'dense.rejects', dict(cls='Cube2Shell')
    yield 'dense.Cube2Shell', dict(cube=[-5., 5., 3, -4., 5., 4, -3., 3.5, 5], polar=dict(rmin=0., rmax=4.3, numr=2, nside=1), seed=1, verbose=True)
    for _ in range(120 if tier == 'quick' else 2500):
        lo = rng.uniform(-6, 1, 3)
        L = rng.uniform(2, 9, 3)
        b = []
        for k in range(3):
            b += [float(lo[k]), float(lo[k] + L[k]), int(rng.integers(1, 6))]
        p = dict(rmin=float(rng.choice([0., rng.uniform(0, 2)])), numr=int(rng.integers(1, 4)), nside=int(rng.choice([1, 2, 4])))
        p['rmax'] = p['rmin'] + float(rng.uniform(.2, 7))
        if rng.random() < .8:
            p['center'] = [float(rng.uniform(lo[k] - .5, lo[k] + L[k] + .5)) for k in range(3)]
        if rng.random() < .8:
            p.update(rebin_r=int(rng.integers(1, 4)), rebin_shell=int(rng.choice([1, 2, 4])))
        if rng.random() < .6:
            for s in 'xyz':
                if rng.random() < .6:
                    p['periodic' + s] = [int(rng.integers(-2, 1)), int(rng.integers(0, 3))]
        yield 'dense.Cube2Shell', dict(cube=b, polar=p, seed=int(rng.integers(10**6)))


def sky_center(rng):
    if rng.random() < .15:
        return [0., 0.]
    return [float(rng.uniform(0, TWOPI)), float(np.arccos(rng.uniform(-.999, .999)))]


@gen('C28')
def g28(rng, tier):
    for c in ('Heal2Ring', 'Heal2Polar', 'Heal2Ortho'):
        yield 'dense.rejects', dict(cls=c)
    for k in range(250 if tier == 'quick' else 4000):
        ns = int(rng.choice([1, 2, 4, 8, 16]))
        seed = int(rng.integers(10**6))
        p = dict(alpha_min=float(rng.choice([0., rng.uniform(0, 1)])), num_alpha=int(rng.integers(1, 6)), num_beta=int(rng.integers(1, 8)))
        p['alpha_max'] = float(min(np.pi, p['alpha_min'] + rng.uniform(.1, 3)))
        if rng.random() < .5:
            q = np.sort(rng.uniform(0, TWOPI, 2))
            p.update(beta_min=float(q[0]), beta_max=float(min(TWOPI, q[1] + 1e-2)))
        if rng.random() < .8:
            p['center'] = sky_center(rng)
        if rng.random() < .5:
            p['beta_shift'] = float(rng.uniform(0, TWOPI))
        if rng.random() < .8:
            p.update(rebin_alpha=int(rng.integers(1, 5)), rebin_beta=int(rng.integers(1, 5)))
        yield 'dense.Heal2Ring', dict(nside=ns, polar=p, seed=seed)
        p = dict(x_length=float(rng.uniform(.1, TWOPI)), x_grid=int(rng.integers(1, 7)))
        if rng.random() < .6:
            p['y_length'] = float(rng.uniform(.1, np.pi))
        if rng.random() < .6:
            p['y_grid'] = int(rng.integers(1, 7))
        if rng.random() < .8:
            p['center'] = sky_center(rng)
        if rng.random() < .5:
            p['alpha'] = float(rng.uniform(0, TWOPI))
        if rng.random() < .8:
            p.update(rebin_x=int(rng.integers(1, 5)), rebin_y=int(rng.integers(1, 5)))
        yield 'dense.Heal2Polar', dict(nside=ns, box=p, seed=seed)
        p = {k: v for k, v in p.items() if k != 'alpha'}
        p['x_length'] = float(rng.uniform(.3, 5))
        if 'y_length' in p:
            p['y_length'] = float(rng.uniform(.3, 5))
        if rng.random() < .5:
            p['radius'] = float(rng.uniform(.5, 3))
        yield 'dense.Heal2Ortho', dict(nside=ns, box=p, seed=seed)


@gen('C32')
def g32(rng, tier):
    for k in range(400 if tier == 'quick' else 8000):
        cam = rng.uniform(-5, 5, 3)
        u = rng.normal(size=3)
        if k % 7 == 0:
            u[int(rng.integers(3))] = 0.
        if k % 11 == 0:
            u = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
        q = np.stack([rng.uniform(.3, 9, 9), rng.uniform(-6, 6, 9), rng.uniform(-6, 6, 9)], axis=1)
        q[0, 1:] = 0.
        q[1, 1] = 0.
        a = dict(camera=cam.tolist(), point=(cam + u * rng.uniform(.5, 9)).tolist(), display=float(rng.uniform(.1, 5)), front=q.tolist())
        if rng.random() < .7:
            a['spin'] = float(rng.choice([rng.uniform(0, TWOPI), TWOPI, np.pi / 2]))
        yield 'PointOfView', a
