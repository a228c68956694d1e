"""C29: Monte Carlo remaps.

The points of every output pixel are drawn again with the same seed through the samplers (whose own
contracts are C22 and C25) and binned by the contract; when an implementation draws in another way the
result is compared statistically with a dense reference instead.
"""
import math
import numpy as np
import healpy as hp
from base import *
from magpie import montecarlo, randoms
from c_dense import lin, mid, cell, vec, shift_matrix, rot, sky, field, attrs, box2ring_grids, box_case, polar_case, sky_center, rejects
import c_pixel

TWOPI = 2. * np.pi


def radial_edges(p):
    n = p['numr']
    if not p.get('log'):
        return lin(p['rmin'], p['rmax'], n)
    if p.get('addzero', True):
        if n == 1:
            return np.array([0., p['rmin']])
        return np.concatenate([[0.], np.exp(lin(math.log(p['rmin']), math.log(p['rmax']), n - 1))])
    return np.exp(lin(math.log(p['rmin']), math.log(p['rmax']), n))


def tally(values, ok, w=None):
    """mean over the points in the grid"""
    if not np.any(ok):
        return np.nan
    v = values[ok]
    if w is None:
        return v.mean()
    if np.sum(w[ok]) == 0:
        return np.inf
    return np.sum(v * w[ok]) / np.sum(w[ok])


def run(a, obj, shape, draw, locate, fshape, missing, msg, mask=False):
    """draw(i, j, n): points of output pixel (i, j) in the order of the implementation;
    locate(points): flat input cells (-1 outside) and unclear flags"""
    n, seed = a['mc_size'], a['seed']
    f = field(seed, fshape)
    g = field(seed + 1, fshape, True, True)
    np.random.seed(seed)
    obj.get_weights(mc_size=n, verbose=False)
    got = obj.remap(f.copy(), verbose=False)
    gw = obj.remap(f.copy(), w=g.copy(), verbose=False)
    need(np.shape(got) == shape and np.shape(gw) == shape, msg + ': shape', np.shape(got), shape)
    np.random.seed(seed)
    exp, ew, unclear, hit = np.zeros(shape), np.zeros(shape), np.zeros(shape, dtype=bool), np.zeros(shape)
    for ij in np.ndindex(shape):
        c, near = locate(draw(ij, n))
        ok = c >= 0
        hit[ij] = np.any(ok)
        unclear[ij] = np.any(near) or np.sum(g.ravel()[np.maximum(c, 0)][ok]) == 0 < np.sum(ok)
        exp[ij] = tally(f.ravel()[np.maximum(c, 0)], ok)
        ew[ij] = tally(f.ravel()[np.maximum(c, 0)], ok, g.ravel()[np.maximum(c, 0)])
    isn = lambda v: np.isnan(v) if np.isnan(missing) else v == missing
    same = lambda q, e: np.all(unclear | (isn(q) & np.isnan(e)) | (np.abs(q - e) <= 1e-9 * (1 + np.abs(e))))
    if same(got, exp) and same(gw, ew):
        if mask:
            obj.get_mask_in_bound(verbose=False)
            need(np.array_equal(obj.mask_in_bound[~unclear], hit[~unclear]), msg + ': mask', obj.mask_in_bound, hit)
        return
    # another order or way of drawing: statistics against many more points
    big = 20000
    np.random.seed(seed + 5)
    obj.get_weights(mc_size=big, verbose=False)
    got = obj.remap(f.copy(), verbose=False)
    gw = obj.remap(f.copy(), w=g.copy(), verbose=False)
    for k, ij in enumerate(np.ndindex(shape)):
        if k >= 24:
            break
        c, near = locate(draw(ij, 10 * big))
        ok = c >= 0
        m = ok.sum()
        if m > 200:
            v, u = f.ravel()[c[ok]], g.ravel()[c[ok]]
            need(not isn(got[ij]), msg + ': missing value', ij)
            sd = v.std() * math.sqrt(12. / m) + 1e-9
            need(abs(got[ij] - v.mean()) < 9 * sd, msg + ': mean', ij, got[ij], v.mean(), sd)
            if np.sum(u) == 0:
                continue
            e = np.sum(v * u) / np.sum(u)
            sd = math.sqrt(np.mean(u * u * (v - e)**2)) / u.mean() * math.sqrt(12. / m) + 1e-9
            need(abs(gw[ij] - e) < 9 * sd, msg + ': weighted mean', ij, gw[ij], e, sd)
        elif m == 0 and not np.any(near):
            need(isn(got[ij]) and isn(gw[ij]), msg + ': value for a pixel outside the grid', ij, got[ij])


def setup_polar(o, p):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items() if k not in ('log',)}
    (o.setup_polar_log if p.get('log') else o.setup_polar_lin)(**kw)


@contract('mc.Box2Ring')
def c_b2r(a):
    b, p = a['box'], a['polar']
    o = montecarlo.Box2Ring()
    o.setup_box(*b)
    setup_polar(o, p)
    q = {k: v for k, v in p.items() if k not in ('log', 'addzero')}
    e = box2ring_grids(b, q)
    e['redges'] = radial_edges(p)
    e['rmid'] = mid(e['redges'])
    e['r2d'], e['p2d'] = np.meshgrid(e['rmid'], e['pmid'])
    attrs(o, 'Box2Ring', **e)
    c, s = p.get('center', [0., 0.]), p.get('phi_shift', 0.)
    re, pe = np.array(o.redges), np.array(o.pedges)

    def draw(ij, n):
        return randoms.randoms_polar(n, re[ij[1]], re[ij[1] + 1], pe[ij[0]], pe[ij[0] + 1])

    def locate(pt):
        i, ni = cell(c[0] + pt[0] * np.cos(pt[1] + s), b[0], b[1], b[2])
        j, nj = cell(c[1] + pt[0] * np.sin(pt[1] + s), b[3], b[4], b[5])
        return np.where((i >= 0) & (j >= 0), j * b[2] + i, -1), ni | nj
    run(a, o, (p['nump'], p['numr']), draw, locate, (b[5], b[2]), np.nan, 'Box2Ring', True)


@contract('mc.Cube2Shell')
def c_c2s(a):
    b, p = a['cube'], a['polar']
    o = montecarlo.Cube2Shell()
    o.setup_cube(*b)
    setup_polar(o, p)
    ns = p['nside']
    re = radial_edges(p)
    X, Y, Z = np.meshgrid(*[mid(lin(b[3 * k], b[3 * k + 1], b[3 * k + 2])) for k in range(3)])
    attrs(o, 'Cube2Shell', redges=re, rmid=mid(re), x3d=X, y3d=Y, z3d=Z)
    re = np.array(o.redges)
    c = np.array(p.get('center', [0., 0., 0.]))

    def draw(ij, n):
        ph, th = randoms.randoms_healpix_pixel(n, ij[1], ns)
        return randoms.randoms_sphere_r(n, r_min=re[ij[0]], r_max=re[ij[0] + 1]), ph, th

    def locate(pt):
        x = c + pt[0][:, None] * vec(pt[1], pt[2])
        ii = [cell(x[:, q], b[3 * q], b[3 * q + 1], b[3 * q + 2]) for q in range(3)]
        ok = (ii[0][0] >= 0) & (ii[1][0] >= 0) & (ii[2][0] >= 0)
        return np.where(ok, (ii[1][0] * b[2] + ii[0][0]) * b[8] + ii[2][0], -1), ii[0][1] | ii[1][1] | ii[2][1]
    run(a, o, (p['numr'], 12 * ns * ns), draw, locate, (b[5], b[2], b[8]), hp.UNSEEN, 'Cube2Shell')


@contract('mc.Heal2Ring')
def c_h2r(a):
    p, ns = a['polar'], a['nside']
    o = montecarlo.Heal2Ring()
    o.setup_map(ns)
    o.setup_polar_cap(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    ae = lin(p['alpha_min'], p['alpha_max'], p['num_alpha'])
    be = lin(p.get('beta_min', 0.), p.get('beta_max', TWOPI), p['num_beta'])
    A, B = np.meshgrid(mid(ae), mid(be))
    attrs(o, 'Heal2Ring', alpha_edges=ae, beta_edges=be, alpha_mid=mid(ae), beta_mid=mid(be), alpha2d=A, beta2d=B)
    ae, be = np.array(o.alpha_edges), np.array(o.beta_edges)
    c = p.get('center', [0., 0.])
    M = shift_matrix(0., 0., c[0], c[1]).dot(rot([0., 0., 1.], p.get('beta_shift', 0.)))

    def draw(ij, n):
        return randoms.randoms_usphere(n, phi_min=be[ij[0]], phi_max=be[ij[0] + 1], theta_min=ae[ij[1]], theta_max=ae[ij[1] + 1])

    def locate(pt):
        return sky(vec(pt[0], pt[1]).dot(M.T), ns)
    run(a, o, (p['num_beta'], p['num_alpha']), draw, locate, (12 * ns * ns,), np.nan, 'Heal2Ring')


@contract('mc.Heal2Polar')
def c_h2p(a):
    p, ns = a['box'], a['nside']
    o = montecarlo.Heal2Polar()
    o.setup_map(ns)
    o.setup_box(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    xl, nx = p['x_length'], p['x_grid']
    yl = p.get('y_length')
    yl = min(xl, np.pi) if yl is None else yl
    ny = p.get('y_grid') or nx
    xe, ye = lin(-xl / 2, xl / 2, nx), lin(-yl / 2, yl / 2, ny)
    X, Y = np.meshgrid(mid(xe), mid(ye))
    attrs(o, 'Heal2Polar', xedges=xe, yedges=ye, xmid=mid(xe), ymid=mid(ye), x2d=X, y2d=Y)
    xe, ye = np.array(o.xedges), np.array(o.yedges)
    c = p.get('center', [0., 0.])
    M = shift_matrix(0., np.pi / 2, c[0], c[1]).dot(rot([1., 0., 0.], p.get('alpha', 0.)))

    def draw(ij, n):
        return randoms.randoms_usphere(n, phi_min=xe[ij[1]], phi_max=xe[ij[1] + 1], theta_min=np.pi / 2. - ye[ij[0] + 1], theta_max=np.pi / 2. - ye[ij[0]])

    def locate(pt):
        return sky(vec(pt[0], pt[1]).dot(M.T), ns)
    run(a, o, (ny, nx), draw, locate, (12 * ns * ns,), np.nan, 'Heal2Polar')


@contract('mc.rejects')
def c_rej(a):
    b = dict(xmin=-1., xmax=1., numx=4, ymin=-1., ymax=1., numy=4)
    o = montecarlo.Box2Ring()
    o.setup_box(**b)
    rejects(lambda k: o.setup_box(**k), b, [('numx', 0), ('numy', 0)], 'setup_box')
    g = dict(rmin=.5, rmax=1., numr=3, nump=4, pmin=0., pmax=TWOPI)
    bad = [('rmin', -.1), ('rmin', 1.), ('numr', 0), ('nump', 0), ('pmin', -.1), ('pmin', 6.4), ('pmax', 0.), ('pmax', 6.4), ('center', [0.])]
    o.setup_polar_lin(**g)
    rejects(lambda k: o.setup_polar_lin(**k), g, bad, 'setup_polar_lin')
    rejects(lambda k: o.setup_polar_log(**k), g, bad + [('rmin', 0.)], 'setup_polar_log')
    o.setup_polar_lin(**g)
    raises(lambda: o.get_weights(mc_size=1, verbose=False), 'mc_size 1')
    o.get_weights(mc_size=2, verbose=False)
    raises(lambda: o.remap(np.ones((3, 4)), verbose=False), 'shape of f')
    raises(lambda: o.remap(np.ones((4, 4)), w=np.ones((4, 5)), verbose=False), 'shape of w')
    for cls, go, (meth, good) in (('Heal2Ring', 'polar', ('setup_polar_cap', dict(alpha_min=0., alpha_max=1., num_alpha=2, num_beta=2))),
                                  ('Heal2Polar', 'box', ('setup_box', dict(x_length=1., x_grid=2)))):
        o = getattr(montecarlo, cls)()
        raises(lambda: o.setup_map(0), 'nside 0')
        o.setup_map(1)
        getattr(o, meth)(**good)
        raises(lambda: o.get_weights(mc_size=1, verbose=False), 'mc_size 1')
        o.get_weights(mc_size=2, verbose=False)
        raises(lambda: o.remap(np.ones(13), verbose=False), 'length of f')
        raises(lambda: o.remap(np.ones(12), w=np.ones(48), verbose=False), 'length of w')


@gen('C29')
def g29(rng, tier):
    yield 'mc.rejects', {}
    yield 'mc.Box2Ring', dict(box=[-5., 5., 8, -5., 5., 8], polar=dict(rmin=0., rmax=4.3, numr=3, nump=7), seed=1, mc_size=50)
    for k in range(60 if tier == 'quick' else 1500):
        seed = int(rng.integers(10**6))
        n = int(rng.choice([2, 5, 40, 200]))
        b = box_case(rng)
        p = polar_case(rng, b, False)
        if rng.random() < .5:
            p['log'] = True
            p['rmin'] = float(rng.uniform(.05, 1))
            p['rmax'] = p['rmin'] + float(rng.uniform(.2, 8))
            if rng.random() < .7:
                p['addzero'] = bool(rng.random() < .5)
        yield 'mc.Box2Ring', dict(box=b, polar=p, seed=seed, mc_size=n)
        if k % 3 == 0:
            lo = rng.uniform(-6, 1, 3)
            L = rng.uniform(2, 9, 3)
            b = []
            for q in range(3):
                b += [float(lo[q]), float(lo[q] + L[q]), int(rng.integers(1, 6))]
            p = dict(rmin=float(rng.uniform(.05, 1.)), numr=int(rng.integers(1, 4)), nside=int(rng.choice([1, 2])))
            p['rmax'] = p['rmin'] + float(rng.uniform(.2, 7))
            if rng.random() < .8:
                p['center'] = [float(rng.uniform(lo[q] - .5, lo[q] + L[q] + .5)) for q in range(3)]
            if rng.random() < .5:
                p['log'] = True
                if rng.random() < .7:
                    p['addzero'] = bool(rng.random() < .5)
            yield 'mc.Cube2Shell', dict(cube=b, polar=p, seed=seed, mc_size=n)
        ns = int(rng.choice([1, 2, 4, 8]))
        p = dict(alpha_min=float(rng.choice([0., rng.uniform(0, 1)])), num_alpha=int(rng.integers(1, 4)), num_beta=int(rng.integers(1, 5)))
        p['alpha_max'] = float(min(np.pi, p['alpha_min'] + rng.uniform(.1, 3)))
        if rng.random() < .5:
            q = np.sort(rng.uniform(0, TWOPI, 2))
            p.update(beta_min=float(q[0]), beta_max=float(min(TWOPI, q[1] + 1e-2)))
        if rng.random() < .8:
            p['center'] = sky_center(rng)
        if rng.random() < .6:
            p['beta_shift'] = float(rng.uniform(0, TWOPI))
        yield 'mc.Heal2Ring', dict(nside=ns, polar=p, seed=seed, mc_size=n)
        p = dict(x_length=float(rng.uniform(.1, TWOPI)), x_grid=int(rng.integers(1, 5)))
        if rng.random() < .6:
            p['y_length'] = float(rng.uniform(.1, np.pi))
        if rng.random() < .6:
            p['y_grid'] = int(rng.integers(1, 5))
        if rng.random() < .8:
            p['center'] = sky_center(rng)
        if rng.random() < .6:
            p['alpha'] = float(rng.uniform(0, TWOPI))
        yield 'mc.Heal2Polar', dict(nside=ns, box=p, seed=seed, mc_size=n)
