"""C30, C31: radial profiles and rotations of polar grids."""
import math
import numpy as np
import healpy as hp
from base import *
from magpie import polar, coords, densegrid, montecarlo
from c_dense import lin, field, box_case, polar_case, box2ring_spec

TWOPI = 2. * np.pi


def profile(f, area, pix, s, w):
    with np.errstate(all='ignore'):
        if w is None:
            w = np.ones(f.shape)
        n = np.sum(w, axis=0)
        r = np.sum(f * w, axis=0) / n
        return r if s is None else (r, np.sqrt(np.sum(pix / area * (w * s)**2, axis=0)) / np.abs(n))


def same(got, exp, s, msg):
    if s is None:
        close(got, exp, msg, 1e-9, 1e-9)
    else:
        need(isinstance(got, tuple) and len(got) == 2, msg + ': outputs')
        close(got[0], exp[0], msg, 1e-9, 1e-9)
        close(got[1], exp[1], msg + ': error', 1e-9, 1e-9)


def inputs(a, shape):
    f = field(a['seed'], shape)
    s = field(a['seed'] + 1, shape, True) if a.get('sigma') else None
    w = field(a['seed'] + 2, shape, True) if a.get('w') else None
    if w is not None and a.get('zeros'):
        w[np.random.Generator(np.random.PCG64(a['seed'])).random(shape) < .3] = 0.
    return f, s, w


@contract('polar2radial')
def c_p2r(a):
    np_, nr = a['shape']
    f, s, w = inputs(a, (np_, nr))
    area = np.tile(np.abs(field(a['seed'] + 3, (nr,), True)), (np_, 1))
    kw = {k: v.copy() for k, v in (('sigma', s), ('w', w)) if v is not None}
    got = polar.polar2radial(f.copy(), area.copy(), a['pixarea'], **kw)
    same(got, profile(f, area, a['pixarea'], s, w), s, 'polar2radial')


@contract('areas')
def c_areas(a):
    re = a['r0'] + np.concatenate([[0.], np.cumsum(arr(a['dr']))])
    pe = lin(a['p0'], a['p1'], a['np'])
    ar = polar.get_polar_area2d(re.copy(), pe.copy())
    close(ar, np.tile(np.diff(re**2) * (pe[1] - pe[0]) / 2, (a['np'], 1)), 'pixel areas', 1e-9, 1e-12)
    close(np.sum(ar), (re[-1]**2 - re[0]**2) * (a['p1'] - a['p0']) / 2, 'areas add up to the ring', 1e-9, 0)
    x, y = lin(a['p0'], a['p1'] + 3, a['np']), re
    y = lin(1., 4., 7)
    close(polar.get_pixarea(x, y), (x[1] - x[0]) * (y[1] - y[0]), 'cartesian pixel area', 1e-12, 0)


@contract('cumulative_radial')
def c_cum(a):
    re = a['r0'] + np.concatenate([[0.], np.cumsum(arr(a['dr']))])
    n = len(re) - 1
    f, s = field(a['seed'], (n,)), field(a['seed'] + 1, (n,), True)
    A = np.pi * np.diff(re**2)
    c = np.concatenate([[0.], np.cumsum(A * f)])
    t = 1e-9 * (1 + np.sum(np.abs(A * f)))
    close(polar.cumulative_radial(re.copy(), f.copy()), c, 'cumulative profile', 1e-9, t)
    got = polar.cumulative_radial(re.copy(), f.copy(), sigma=s.copy())
    need(len(got) == 2, 'outputs')
    close(got[0], c, 'cumulative profile with errors', 1e-9, t)
    close(got[1], np.concatenate([[0.], np.sqrt(np.cumsum((A * s)**2))]), 'cumulative error', 1e-9, t)


@contract('ring.polar2radial')
def c_ring(a):
    b, p = a['box'], a['polar']
    mod = densegrid if a['mod'] == 'dense' else montecarlo
    o = mod.Box2Ring()
    o.setup_box(*b)
    if a['mod'] == 'dense':
        o.setup_polar(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items()})
    else:
        o.setup_polar_lin(**{k: (list(v) if isinstance(v, list) else v) for k, v in p.items() if 'rebin' not in k})
        np.random.seed(a['seed'])
        o.get_weights(mc_size=20, verbose=False)
    f, s, w = inputs(a, (p['nump'], p['numr']))
    o.get_mask_in_bound(verbose=False)
    m = np.array(o.mask_in_bound)
    re = lin(p['rmin'], p['rmax'], p['numr'])
    dp = (p.get('pmax', TWOPI) - p.get('pmin', 0.)) / p['nump']
    area = np.tile(np.diff(re**2) * dp / 2, (p['nump'], 1))
    pix = (b[1] - b[0]) / b[2] * (b[4] - b[3]) / b[5]
    keep = (m == 1.) * 1.
    ww = keep * (1. if w is None else w)
    if a.get('fresh'):
        o.mask_in_bound = None
    kw = {k: v.copy() for k, v in (('sigma', s), ('w', w)) if v is not None}
    same(o.polar2radial(f.copy(), **kw), profile(f, area, pix, s, ww), s, 'Box2Ring.polar2radial')
    same(o.polar2radial(f.copy(), verbose=False, **kw), profile(f, area, pix, s, ww), s, 'Box2Ring.polar2radial again')
    raises(lambda: o.polar2radial(np.ones((p['nump'] + 1, p['numr']))), 'shape of f_polar')
    raises(lambda: o.polar2radial(f.copy(), sigma=np.ones((p['nump'] + 1, p['numr']))), 'shape of sigma')


@contract('cap.polar2radial')
def c_cap(a):
    p, ns = a['polar'], a['nside']
    mod = densegrid if a['mod'] == 'dense' else montecarlo
    o = mod.Heal2Ring()
    o.setup_map(ns)
    o.setup_polar_cap(**p)
    f, s, w = inputs(a, (p['num_beta'], p['num_alpha']))
    ae = lin(p['alpha_min'], p['alpha_max'], p['num_alpha'])
    db = (p.get('beta_max', TWOPI) - p.get('beta_min', 0.)) / p['num_beta']
    area = np.tile(db * (np.cos(ae[:-1]) - np.cos(ae[1:])), (p['num_beta'], 1))
    kw = {k: v.copy() for k, v in (('sigma', s), ('w', w)) if v is not None}
    e = profile(f, area, 4 * np.pi / (12 * ns * ns), s, w)
    same(o.polar2radial(f.copy(), **kw), e, s, 'Heal2Ring.polar2radial')
    raises(lambda: o.polar2radial(np.ones((p['num_beta'] + 1, p['num_alpha']))), 'shape of f_polar')


def rotated(f, pe, d, full):
    n = len(pe) - 1
    h = pe[1] - pe[0]
    s = int(math.floor(d / h + 1e-9))
    w = max(d / h - s, 0.)
    w = 0. if w < 1e-8 else w
    out = (1 - w) * np.roll(f, -s, axis=0) + w * np.roll(f, -s - 1, axis=0)
    return out


@contract('rotate_polar_grid')
def c_rot(a):
    n, m, d = a['n'], a['m'], a['shift']
    pe = np.linspace(0., TWOPI, n + 1)
    f = field(a['seed'], (n, m))
    exp = rotated(f, pe, d, True)
    how = a.get('how', 'coords')
    if how == 'coords':
        g = lambda q, s: coords.rotate_polar_grid(pe.copy(), q, s)
    else:
        mod = densegrid if how[0] == 'd' else montecarlo
        if how[1:] == 'box':
            o = mod.Box2Ring()
            o.setup_box(-1., 1., 2, -1., 1., 2)
            (o.setup_polar if how[0] == 'd' else o.setup_polar_lin)(0., 1., m, n)
        else:
            o = mod.Heal2Ring()
            o.setup_map(1)
            o.setup_polar_cap(0., 1., m, n)
        g = o.rotate_polar
        raises(lambda: g(np.ones((n + 1, m)), d), 'shape of f_polar')
    got = g(f.copy(), d)
    close(got, exp, 'rotated grid', 1e-9, 1e-7)
    close(np.sum(got, axis=0), np.sum(f, axis=0), 'sum over phi', 1e-9, 1e-7)
    for bad in (0., -1., TWOPI, 7.):
        raises(lambda: g(f.copy(), bad), 'shift %r' % bad)


@contract('rotate_polar_grid.part')
def c_rotpart(a):
    """grids that are not a full circle: rows between two others are their interpolation"""
    n, m = a['n'], a['m']
    pe = lin(a['p0'], a['p1'], n)
    h = pe[1] - pe[0]
    f = field(a['seed'], (n, m))
    d = a['frac'] * h * n
    if not 0 < d < TWOPI:
        return
    s = int(math.floor(d / h))
    w = d / h - s
    if w < 1e-7 or w > 1 - 1e-7 or s >= n:
        return
    got = coords.rotate_polar_grid(pe.copy(), f.copy(), d)
    k = n - s - 1
    if k > 0:
        close(got[:k], (1 - w) * f[s:s + k] + w * f[s + 1:s + 1 + k], 'rows inside the grid', 1e-9, 1e-9)


def lens(rng):
    return [float(v) for v in rng.uniform(.05, 3, int(rng.integers(1, 12)))]


@gen('C30')
def g30(rng, tier):
    for k in range(200 if tier == 'quick' else 4000):
        o = dict(seed=int(rng.integers(10**6)), sigma=bool(rng.random() < .6), w=bool(rng.random() < .5), zeros=bool(rng.random() < .5))
        yield 'polar2radial', dict(o, shape=[int(rng.integers(1, 12)), int(rng.integers(1, 9))], pixarea=float(rng.uniform(.01, 3)))
        p = np.sort(rng.uniform(0, 6., 2))
        yield 'areas', dict(r0=float(rng.choice([0., 1.3])), dr=lens(rng), p0=float(p[0]), p1=float(p[1]) + .1, np=int(rng.integers(1, 12)))
        yield 'cumulative_radial', dict(seed=o['seed'], r0=float(rng.choice([0., 1.3])), dr=lens(rng))
        b = box_case(rng)
        yield 'ring.polar2radial', dict(o, box=b, polar=polar_case(rng, b), mod=('dense', 'mc')[k % 4 == 0], fresh=bool(k % 2) and k % 4 != 0)
        q = dict(alpha_min=float(rng.choice([0., .4])), num_alpha=int(rng.integers(1, 6)), num_beta=int(rng.integers(1, 7)))
        q['alpha_max'] = q['alpha_min'] + float(rng.uniform(.1, 2.5))
        if rng.random() < .5:
            q.update(beta_min=1., beta_max=float(rng.uniform(1.5, 6)))
        yield 'cap.polar2radial', dict(o, polar=q, nside=int(rng.choice([1, 2, 8])), mod=('dense', 'mc')[k % 3 == 0])


@gen('C31')
def g31(rng, tier):
    hows = ['coords', 'dbox', 'dcap', 'mbox', 'mcap']
    for n in (1, 2, 3, 4, 5, 8, 12):
        for k in range(n):
            if k:
                yield 'rotate_polar_grid', dict(n=n, m=2, shift=k * TWOPI / n, seed=n)
            for w in (.1, .5, .9):
                yield 'rotate_polar_grid', dict(n=n, m=2, shift=(k + w) * TWOPI / n, seed=n)
    for k in range(300 if tier == 'quick' else 6000):
        yield 'rotate_polar_grid', dict(n=int(rng.integers(1, 20)), m=int(rng.integers(1, 6)), shift=float(rng.uniform(1e-4, TWOPI - 1e-4)), seed=k, how=hows[k % 5])
        p = np.sort(rng.uniform(0, TWOPI, 2))
        yield 'rotate_polar_grid.part', dict(n=int(rng.integers(1, 12)), m=2, p0=float(p[0]), p1=float(p[1]) + 1e-3, frac=float(rng.uniform(0.01, 1)), seed=k)
