"""C22-C25: random points, random values of a distribution, subsampling."""
import math
import numpy as np
import healpy as hp
from base import *
from magpie import randoms
import c_pixel

TWOPI = 2. * np.pi
SP = [float(v) for v in (0., 1.)]


def unit(v, lo, hi):
    return (np.asarray(v, float) - lo) / (hi - lo)


def within(v, lo, hi, msg):
    t = 1e-9 * (1 + abs(lo) + abs(hi))
    v = np.asarray(v)
    need(not np.any(np.isnan(v)) and np.all(v >= lo - t) and np.all(v <= hi + t), msg + ': outside the limits', v.min() if v.size else 0, v.max() if v.size else 0, lo, hi)


@contract('randoms_box')
def c_box(a):
    d, lo, hi = a['d'], a.get('mins'), a.get('maxs')
    n = a['size']
    if d == 1:
        f = lambda s: [randoms.randoms_1d(s, **({} if lo is None else dict(xmin=lo[0], xmax=hi[0])))]
    else:
        g = randoms.randoms_2d if d == 2 else randoms.randoms_3d
        f = lambda s: list(g(s, **({} if lo is None else dict(mins=list(lo), maxs=list(hi)))))
    l, h = (lo, hi) if lo is not None else ([0.] * d, [1.] * d)
    out = f(n)
    need(len(out) == d, 'number of coordinates', len(out))
    for k in range(d):
        need(np.shape(out[k]) == (n,), 'number of points', np.shape(out[k]), n)
        within(out[k], l[k], h[k], 'coordinate %d' % k)
    with Draws(a['seed'] + 7) as _:
        out = f(n)
        for k in range(d):
            within(out[k], l[k], h[k], 'coordinate %d' % k)
    uniform_draws(f, [lambda o: [unit(o[k], l[k], h[k]) for k in range(d)]], a['seed'], 'randoms_%dd' % d, tol=1e-9 * (1 + max(abs(v) for v in list(l) + list(h)) / min(h[k] - l[k] for k in range(d))))


@contract('randoms_curved')
def c_curved(a):
    kind, n, kw = a['kind'], a['size'], a.get('kw', {})
    g = dict(r_min=0., r_max=1., phi_min=0., phi_max=TWOPI, theta_min=0., theta_max=np.pi)
    g.update(kw)
    fn = dict(polar=randoms.randoms_polar, usphere=randoms.randoms_usphere, sphere=randoms.randoms_sphere, r=randoms.randoms_sphere_r)[kind]
    names = dict(polar=('r', 'phi'), usphere=('phi', 'theta'), sphere=('r', 'phi', 'theta'), r=('r',))[kind]
    f = lambda s: [fn(s, **kw)] if kind == 'r' else list(fn(s, **kw))

    def col(nm, v):
        if nm == 'phi':
            return unit(v, g['phi_min'], g['phi_max'])
        if nm == 'theta':
            c0, c1 = math.cos(g['theta_min']), math.cos(g['theta_max'])
            return (c0 - np.cos(v)) / (c0 - c1)
        e = 2 if kind == 'polar' else 3
        return unit(np.asarray(v)**e, g['r_min']**e, g['r_max']**e)

    def check(out):
        need(len(out) == len(names), 'number of coordinates', len(out))
        for nm, v in zip(names, out):
            need(np.shape(v) == (n,), 'number of points', np.shape(v), n)
            t0, t1 = g[nm + '_min'], g[nm + '_max']
            within(v, t0, t1, nm) if nm != 'theta' else within(v, t0 - 1e-7, t1 + 1e-7, nm)
    check(f(n))
    with Draws(a['seed'] + 3):
        check(f(n))
    uniform_draws(f, [lambda o: [col(nm, v) for nm, v in zip(names, o)]], a['seed'], 'randoms_' + kind, tol=a.get('tol', 1e-7))


@contract('pdf2cdf')
def c_pdf(a):
    x = a['x0'] + a['dx'] * np.arange(len(a['pdf']))
    p = arr(a['pdf'])
    e, c, q = randoms.pdf2cdf(x.copy(), p.copy())
    r = randoms.pdf2cdf(x.copy(), p.copy(), return_normpdf=False)
    need(len(r) == 2, 'outputs without the pdf', len(r))
    close(r[0], e, 'edges', 1e-12, 1e-12)
    close(r[1], c, 'cdf', 1e-12, 1e-12)
    n = len(p)
    t = 1e-9 * (1 + abs(a['x0']) + a['dx'] * n)
    close(e, a['x0'] - a['dx'] / 2 + a['dx'] * np.arange(n + 1), 'edges', 1e-9, t)
    need(c[0] == 0. and c[-1] == 1., 'cdf does not run from 0 to 1', c[0], c[-1])
    need(np.all(np.diff(c) >= -1e-15), 'cdf decreases')
    close(np.diff(c), p / np.sum(p), 'cdf steps', 1e-9, 1e-12)
    close(q * np.sum(p) * a['dx'], p, 'normalised pdf', 1e-9, 1e-12 * np.max(p))


def inverse(x, c, u, v, msg):
    """v is where the piecewise linear cdf takes the value u"""
    t = 1e-9 * (1 + np.max(np.abs(x)))
    need(np.all(v >= x[0] - t) and np.all(v <= x[-1] + t), msg + ': outside the range', v.min(), v.max())
    return np.abs(np.interp(v, x, c) - u) <= 1e-9


@contract('randoms_cdf')
def c_cdf(a):
    n = a['size']
    if 'pdf' in a:
        xm = a['x0'] + a['dx'] * np.arange(len(a['pdf']))
        p = arr(a['pdf'])
        x = a['x0'] - a['dx'] / 2 + a['dx'] * np.arange(len(p) + 1)
        c = np.concatenate([[0.], np.cumsum(p) / np.sum(p)])
        f = lambda s: randoms.randoms_pdf(xm.copy(), p.copy(), s, kind='linear')
    else:
        x, c = arr(a['x']), arr(a['cdf'])
        f = lambda s: randoms.randoms_cdf(x.copy(), c.copy(), s, kind='linear')
    need(np.shape(f(n)) == (n,), 'number of values')
    need(np.shape(randoms.randoms_cdf(np.linspace(0, 1, 9), np.linspace(0, 1, 9), n)) == (n,), 'number of values (default interpolation)')
    t = 1e-9 * (1 + np.max(np.abs(x)))
    with Draws(a['seed']) as d:
        v = f(24)
    need(np.all(v >= x[0] - t) and np.all(v <= x[-1] + t), 'outside the range', v.min(), v.max())
    u = np.interp(v, x, c)
    slope = np.min(np.diff(c) / np.diff(x))
    uniform_draws(f, [lambda o: [np.interp(o, x, c)]], a['seed'], 'randoms_cdf', tol=1e-8)


@contract('randoms_cdf.rejects')
def c_cdfr(a):
    x = np.arange(len(a['cdf'])) * 1.
    raises(lambda: randoms.randoms_cdf(x, arr(a['cdf']), 4, kind='linear'), 'cdf %r' % (a['cdf'],))


@contract('shuffle')
def c_shuffle(a):
    s = np.arange(a['n']) * 3 + 1
    for _ in range(3):
        got = randoms.shuffle(s.copy())
        need(np.shape(got) == s.shape and np.array_equal(np.sort(got), s), 'not a permutation', got)
    if a.get('many'):
        np.random.seed(a['seed'])
        c = {}
        N = 12000
        for _ in range(N):
            k = tuple(randoms.shuffle(np.array([0, 1, 2])))
            c[k] = c.get(k, 0) + 1
        need(len(c) == 6 and all(abs(v - N / 6) < 9 * math.sqrt(N / 6) for v in c.values()), 'orders are not equally likely', c)


@contract('random_draw')
def c_draw(a):
    s = np.arange(a['n']) * 3 + 1
    if a['size'] >= a['n']:
        raises(lambda: randoms.random_draw(s.copy(), a['size']), 'size not below the sample size')
        return
    for _ in range(4):
        got = randoms.random_draw(s.copy(), a['size'])
        need(np.shape(got) == (a['size'],), 'number of members', np.shape(got))
        need(len(set(got.tolist())) == len(got) and set(got.tolist()) <= set(s.tolist()), 'not distinct members', got)


@contract('random_prob_draw')
def c_prob(a):
    p = arr(a['prob'])
    n = len(p)
    s = np.arange(n) * 3 + 1
    size = a.get('size')
    if size is not None and (size >= n or np.any(p <= 0)):
        raises(lambda: randoms.random_prob_draw(s.copy(), p.copy(), size=size), 'size %r of %d' % (size, n))
        return
    with Draws(a['seed']) as d:
        got = randoms.random_prob_draw(s.copy(), p.copy(), **({} if size is None else dict(size=size)))
    g = set(got.tolist())
    need(len(g) == len(got) and g <= set(s.tolist()), 'not distinct members', got)
    if size is not None:
        need(len(got) == size, 'number of members', len(got))
    for u in d.streams:
        if len(u) != n:
            continue
        if size is None:
            if g == set(s[u <= p].tolist()):
                return
        elif g == set(s[np.argsort(u / p)[:size]].tolist()) or np.sort(u / p)[size - 1] == np.sort(u / p)[size]:
            return
    # another way to draw: compare the frequencies
    N = 20000 if n <= 8 else 4000
    rng = np.random.Generator(np.random.PCG64(a['seed']))
    np.random.seed(a['seed'])
    f = np.zeros(n)
    h = np.zeros(n)
    for _ in range(N):
        r = randoms.random_prob_draw(s.copy(), p.copy(), **({} if size is None else dict(size=size)))
        f[(r - 1) // 3] += 1
        if size is not None:
            h[np.argsort(rng.random(n) / p)[:size]] += 1
    e = np.clip(p, 0, 1) * N if size is None else h
    sd = np.sqrt(N * .25 * (1 if size is None else 2))
    need(np.all(np.abs(f - e) < 9 * sd), 'draw frequencies', f / N, e / N)


@contract('stochastic_weights')
def c_sw(a):
    w = np.array(a['w'], dtype=float)
    n = len(w)
    for fn, cap in ((randoms.stochastic_integer_weights, False), (randoms.stochastic_binary_weights, True)):
        for scalar in (False, True):
            def rule(u):
                r = np.where(u < np.ceil(w) - w, np.floor(w), np.ceil(w))
                return np.minimum(r, 1) if cap else r
            def close_call(u):
                return np.abs(u - (np.ceil(w) - w)) < 1e-12
            if scalar:
                got, us = [], []
                for k in range(n):
                    with Draws(a['seed'] + k, special=False) as d:
                        got.append(float(fn(float(w[k]))))
                    us.append([float(s[0]) for s in d.streams if len(s) == 1])
                got = np.array(got)
                cand = [np.array([u[0] for u in us])] if all(us) else []
            else:
                with Draws(a['seed']) as d:
                    got = np.asarray(fn(w.copy()), dtype=float)
                cand = [s for s in d.streams if s.shape == w.shape]
            need(got.shape == w.shape, 'shape')
            lo, hi = (np.minimum(np.floor(w), 1), np.minimum(np.ceil(w), 1)) if cap else (np.floor(w), np.ceil(w))
            need(np.all((got == lo) | (got == hi)), 'neither floor nor ceiling', w, got)
            if any(np.all((got == rule(u)) | close_call(u)) for u in cand + [1. - u for u in cand]):
                continue
            # another way to draw: compare the means
            np.random.seed(a['seed'])
            N = 20000
            if scalar:
                k = a['seed'] % n
                m = np.mean([fn(float(w[k])) for _ in range(N)])
                f = w[k] - math.floor(w[k])
                e = lo[k] + f * (hi[k] - lo[k])
                need(abs(m - e) < 9 * .5 / math.sqrt(N), 'mean of a scalar weight', w[k], m)
            else:
                m = np.mean(np.asarray(fn(np.repeat(w, N)), dtype=float).reshape(n, N), axis=1)
                f = w - np.floor(w)
                need(np.all(np.abs(m - lo - f * (hi - lo)) < 9 * .5 / math.sqrt(N)), 'means of the weights', w, m)


def diamond(x, y, cx, cy, d):
    """ways to turn the points of a diamond into the unit square"""
    u = (np.mod(np.asarray(x) - cx + np.pi, TWOPI) - np.pi) / d
    v = (np.asarray(y) - cy) / d
    def rosenblatt(p, q):
        F = np.where(p <= 0, (1 + p)**2 / 2, 1 - (1 - p)**2 / 2)
        w = 1 - np.abs(p)
        with np.errstate(all='ignore'):
            c = (q + w) / (2 * w)
        return [F, np.where(w < 1e-3, np.nan, c)]
    return [[(1 + u + v) / 2, (1 + u - v) / 2], rosenblatt(u, v), rosenblatt(v, u)]


@contract('healpix_randoms')
def c_hr(a):
    ns, p, n = a['nside'], a['p'], a['size']
    cx, cy = [float(v[0]) for v in c_pixel.centers(ns, np.array([p]))]
    d = np.pi / (4 * ns)
    for fn, ang in ((randoms._randoms_healpix_xy, False), (randoms.randoms_healpix_pixel, True)):
        msg = 'randoms_healpix_pixel' if ang else '_randoms_healpix_xy'
        def f(s):
            o = fn(s, p, ns)
            if not ang:
                return o
            phi, th = np.asarray(o[0], float), np.asarray(o[1], float)
            z = np.cos(th)
            sig = np.where(np.abs(z) <= 2 / 3., 0, 1 - np.sqrt(3 * np.maximum(1 - np.abs(z), 0)))
            q = math.floor(2 * cx / np.pi + 1e-9)
            cap = abs(cy) > np.pi / 4 - 1e-9
            if cap:
                pt = np.mod(phi - (q + 2.5) * np.pi / 2, TWOPI) - 3 * np.pi / 4
                pt = np.where(np.sin(th) < 1e-7, np.pi / 4, pt)
                phi = q * np.pi / 2 + pt
            else:
                pt = np.mod(phi, np.pi / 2)
            x = phi - sig * (pt - np.pi / 4)
            y = np.where(np.abs(z) <= 2 / 3., 3 * np.pi / 8 * z, np.sign(z) * np.pi / 4 * (1 + sig))
            return x, y
        o = fn(n, p, ns)
        need(len(o) == 2 and np.shape(o[0]) == (n,) and np.shape(o[1]) == (n,), msg + ': number of points', [np.shape(v) for v in o])
        tol = 1e-6 if ang else 1e-9
        for seed in (None, a['seed']):
            if seed is None:
                x, y = f(n)
            else:
                with Draws(seed):
                    x, y = f(n)
            u = np.abs(np.mod(x - cx + np.pi, TWOPI) - np.pi) + np.abs(y - cy)
            need(np.all(u <= d + tol), msg + ': outside the pixel', ns, p, float(np.max(u - d)))
        if ang:
            th = np.asarray(o[1]); ph = np.asarray(o[0])
            x, y = f(200)
            np.random.seed(a['seed'])
            ph, th = fn(200, p, ns)
            np.random.seed(a['seed'])
            x, y = f(200)
            r = np.abs(np.mod(x - cx + np.pi, TWOPI) - np.pi) + np.abs(y - cy)
            got = hp.ang2pix(ns, th, ph)
            need(np.all((got == p) | (r > d - 1e-5)), msg + ': not in the pixel', ns, p)
        m = [lambda o, k=k: diamond(o[0], o[1], cx, cy, d)[k] for k in range(3)]
        uniform_draws(f, m, a['seed'], msg, tol=3e-4 if ang else 1e-6 * (1 + ns))


@gen('C22')
def g22(rng, tier):
    for d in (1, 2, 3):
        yield 'randoms_box', dict(d=d, size=11, seed=1)
    for k in ('polar', 'usphere', 'sphere', 'r'):
        yield 'randoms_curved', dict(kind=k, size=11, seed=1)
    for _ in range(150 if tier == 'quick' else 3000):
        d = int(rng.integers(1, 4))
        lo = rng.uniform(-20, 20, d)
        hi = lo + rng.uniform(.1, 30, d)
        yield 'randoms_box', dict(d=d, size=int(rng.integers(1, 40)), seed=int(rng.integers(1, 10**6)), mins=lo.tolist(), maxs=hi.tolist())
        kind = ('polar', 'usphere', 'sphere', 'r')[int(rng.integers(4))]
        kw = {}
        r = np.sort(rng.uniform(0, 10, 2)) + [0, .3]
        p = np.sort(rng.uniform(0, TWOPI - .2, 2)) + [0, .2]
        t = np.sort(rng.uniform(0, np.pi - .2, 2)) + [0, .2]
        if kind != 'usphere' and rng.random() < .8:
            kw.update(r_min=float(r[0]) if rng.random() < .8 else 0., r_max=float(r[1]))
        if kind != 'r' and rng.random() < .8:
            kw.update(phi_min=float(p[0]), phi_max=float(p[1]))
        if kind in ('usphere', 'sphere') and rng.random() < .8:
            kw.update(theta_min=float(t[0]), theta_max=float(t[1]))
        yield 'randoms_curved', dict(kind=kind, size=int(rng.integers(1, 40)), seed=int(rng.integers(1, 10**6)), kw=kw)


@gen('C23')
def g23(rng, tier):
    yield 'pdf2cdf', dict(x0=0., dx=1., pdf=[1., 2., 3.])
    yield 'pdf2cdf', dict(x0=-5., dx=.1, pdf=[0., 2., 0., 0., 1., 0.])
    yield 'randoms_cdf', dict(x=[0., 1., 3.], cdf=[0., .7, 1.], size=5, seed=1)
    for c in ([.1, .5, 1.], [0., .5, .9], [0., .5, 1.1], [-.1, .5, 1.]):
        yield 'randoms_cdf.rejects', dict(cdf=c)
    for _ in range(200 if tier == 'quick' else 4000):
        n = int(rng.integers(2, 30))
        p = rng.uniform(.05, 3, n)
        z = p.copy()
        z[rng.random(n) < .2] = 0.
        z[int(rng.integers(n))] = 1.
        b = dict(x0=float(rng.uniform(-20, 20)), dx=float(rng.uniform(.01, 4)))
        yield 'pdf2cdf', dict(b, pdf=z.tolist())
        yield 'randoms_cdf', dict(b, pdf=p.tolist(), size=int(rng.integers(1, 30)), seed=int(rng.integers(1, 10**6)))
        x = np.cumsum(rng.uniform(.1, 2, n)) + rng.uniform(-9, 9)
        c = np.concatenate([[0.], np.cumsum(p[1:])]) / np.sum(p[1:])
        c[-1] = 1.
        yield 'randoms_cdf', dict(x=x.tolist(), cdf=c.tolist(), size=int(rng.integers(1, 30)), seed=int(rng.integers(1, 10**6)))


@gen('C24')
def g24(rng, tier):
    yield 'shuffle', dict(n=1)
    yield 'shuffle', dict(n=0)
    yield 'shuffle', dict(n=5, many=True, seed=3)
    for n, s in ((5, 5), (5, 6), (5, 4), (5, 0), (2, 1)):
        yield 'random_draw', dict(n=n, size=s)
    yield 'random_prob_draw', dict(prob=[.5, 0., .2, 1.], seed=1, size=2)
    yield 'random_prob_draw', dict(prob=[.5, .1, .2, 1.], seed=1, size=4)
    yield 'random_prob_draw', dict(prob=[.5, .1, .2, 1.], seed=1)
    yield 'stochastic_weights', dict(w=[0., 1., 2., .5, 1.5, 2.25, .1, .9, 7.75], seed=1)
    for _ in range(200 if tier == 'quick' else 4000):
        n = int(rng.integers(2, 40))
        yield 'shuffle', dict(n=n)
        yield 'random_draw', dict(n=n, size=int(rng.integers(0, n)))
        p = rng.uniform(0, 1, n)
        p[rng.random(n) < .2] = .5
        p[rng.random(n) < .1] = 1.
        yield 'random_prob_draw', dict(prob=p.tolist(), seed=int(rng.integers(1, 10**6)), size=int(rng.integers(1, n)))
        p[rng.random(n) < .1] = 0.
        yield 'random_prob_draw', dict(prob=p.tolist(), seed=int(rng.integers(1, 10**6)))
        w = rng.uniform(0, 5, n)
        w[rng.random(n) < .2] = 1.
        w[rng.random(n) < .1] = .5
        yield 'stochastic_weights', dict(w=w.tolist(), seed=int(rng.integers(1, 10**6)))


@gen('C25')
def g25(rng, tier):
    for ns in (1, 2, 3):
        for p in range(12 * ns * ns):
            yield 'healpix_randoms', dict(nside=ns, p=p, size=16, seed=p + 1)
    for _ in range(150 if tier == 'quick' else 3000):
        ns = int(rng.integers(1, 65))
        yield 'healpix_randoms', dict(nside=ns, p=int(rng.integers(12 * ns * ns)), size=int(rng.integers(1, 60)), seed=int(rng.integers(1, 10**6)))
