"""C05, C06: one dimensional rebinning."""
import numpy as np
from base import *
from magpie import one_d
from magpie.one_d import one_d as impl


def fractions(edges, lo, hi):
    a = np.maximum(edges[:-1], lo)
    b = np.minimum(edges[1:], hi)
    return np.maximum(b - a, 0.) / (edges[1:] - edges[:-1])


def touching(edges, lo, hi):
    return hi == edges[0] or lo == edges[-1]


@contract('rebin_1d')
def c_rebin(a):
    e, d, ne = arr(a['bin_edges']), arr(a['data']), arr(a['new_bin_edges'])
    w = None if a.get('w') is None else arr(a['w'])
    s = None if a.get('sigma') is None else arr(a['sigma'])
    kw = {}
    if w is not None:
        kw['w'] = w.copy()
    if s is not None:
        kw['sigma'] = s.copy()
    got = one_d.rebin_1d(e.copy(), d.copy(), ne.copy(), **kw)
    if s is not None:
        need(isinstance(got, tuple) and len(got) == 2, 'returns values and errors')
        gv, gs = got
    else:
        gv, gs = got, None
    need(len(gv) == len(ne) - 1, 'number of new bins', len(gv))
    W = np.ones(len(d)) if w is None else w
    for i in range(len(ne) - 1):
        lo, hi = ne[i], ne[i + 1]
        if touching(e, lo, hi) or lo == hi:
            continue
        f = fractions(e, lo, hi)
        if f.sum() == 0.:
            need(np.isnan(gv[i]), 'new bin without overlap is NaN', i, gv[i])
            if gs is not None:
                need(np.isnan(gs[i]), 'error of a new bin without overlap is NaN', i, gs[i])
            continue
        if (f * W).sum() == 0.:
            continue
        close(gv[i], (f * W * d).sum() / (f * W).sum(), 'value of new bin %d' % i, 1e-8, 1e-8 * (1 + np.abs(d).max()))
        if gs is not None:
            close(gs[i], np.sqrt((f * (W * s)**2).sum()) / (f * W).sum(), 'error of new bin %d' % i, 1e-7, 1e-9)


@contract('rebin_1d_single_bin_weights')
def c_w(a):
    e, lo, hi = arr(a['bin_edges']), a['bin_min'], a['bin_max']
    got = one_d_weights(e.copy(), lo, hi)
    f = fractions(e, lo, hi)
    if touching(e, lo, hi):
        return
    if f.sum() == 0:
        need(np.all(np.isnan(got)), 'no overlap is NaN', got)
        return
    inside = (e >= lo) & (e <= hi)
    if not inside.any():
        # the new bin lies inside one old bin: all its weight is on that bin
        exp = (f > 0).astype(float)
    elif inside.sum() == 1 and inside[0]:
        exp = np.eye(len(f))[0]
    elif inside.sum() == 1 and inside[-1]:
        exp = np.eye(len(f))[-1]
    else:
        exp = f
    close(got, exp, 'weights', 1e-9, 1e-9)


def one_d_weights(e, lo, hi):
    return impl.rebin_1d_single_bin_weights(e, lo, hi)


@contract('rebin_1d_rejects')
def c_rej(a):
    e, d, ne = arr(a['bin_edges']), arr(a['data']), arr(a['new_bin_edges'])
    kw = {k: arr(a[k]) for k in ('w', 'sigma') if a.get(k) is not None}
    raises(lambda: one_d.rebin_1d(e, d, ne, **kw), 'inconsistent input')


def case(rng, n=None):
    n = n or int(rng.integers(1, 9))
    if rng.random() < .4:
        e = np.arange(n + 1) * float(rng.choice([1., .5, 2.])) + float(rng.choice([0., -2., 3.]))
    else:
        e = np.cumsum(rng.uniform(.05, 2., n + 1)) + rng.uniform(-4, 4)
    span = e[-1] - e[0]
    m = int(rng.integers(1, 7))
    pts = []
    for _ in range(m + 1):
        k = rng.integers(0, 6)
        if k <= 1:
            pts.append(float(rng.choice(e)))
        elif k == 2:
            j = rng.integers(0, n)
            pts.append(float(e[j] + (e[j + 1] - e[j]) * rng.choice([.25, .5, .75])))
        elif k == 3:
            pts.append(float(e[0] - span * rng.choice([.1, .5, 1.])))
        elif k == 4:
            pts.append(float(e[-1] + span * rng.choice([.1, .5, 1.])))
        else:
            pts.append(float(rng.uniform(e[0] - .3 * span, e[-1] + .3 * span)))
    return e, np.unique(pts)


@gen('C05', 'C06')
def g_rebin(rng, tier):
    e = np.array([0., 1., 3., 4., 7.])
    d, w, s = np.array([1., -2., 5., 3.]), np.array([1., 2., .5, 4.]), np.array([.5, 1., 2., .25])
    hot = [-2., -.5, 0., .25, 1., 2., 3., 3.5, 4., 5., 7., 8., 9.]
    for i in range(len(hot)):
        for j in range(i + 1, len(hot)):
            yield 'rebin_1d', dict(bin_edges=e, data=d, new_bin_edges=np.array([hot[i], hot[j]]))
            yield 'rebin_1d', dict(bin_edges=e, data=d, new_bin_edges=np.array([hot[i], hot[j]]), w=w, sigma=s)
            yield 'rebin_1d', dict(bin_edges=e, data=d, new_bin_edges=np.array([hot[i], hot[j]]), sigma=s)
            yield 'rebin_1d_single_bin_weights', dict(bin_edges=e, bin_min=hot[i], bin_max=hot[j])
            for n in (1, 2):
                yield 'rebin_1d', dict(bin_edges=e[:n + 1], data=d[:n], new_bin_edges=np.array([hot[i], hot[j]]), w=w[:n], sigma=s[:n])
                yield 'rebin_1d_single_bin_weights', dict(bin_edges=e[:n + 1], bin_min=hot[i], bin_max=hot[j])
    for k in range(900 if tier == 'quick' else 15000):
        e, ne = case(rng)
        n = len(e) - 1
        if len(ne) < 2:
            continue
        a = dict(bin_edges=e, data=rng.normal(size=n), new_bin_edges=ne)
        if k % 2:
            a['w'] = rng.uniform(.1, 3., n)
            if n > 2 and rng.random() < .2:
                a['w'][rng.integers(0, n)] = 0.
        if k % 4 >= 2:
            a['sigma'] = rng.uniform(.1, 2., n)
        yield 'rebin_1d', a
        yield 'rebin_1d_single_bin_weights', dict(bin_edges=e, bin_min=float(ne[0]), bin_max=float(ne[-1]))


@gen('C05')
def g_rej(rng, tier):
    e, d = np.arange(5.), np.arange(4.)
    yield 'rebin_1d_rejects', dict(bin_edges=e[::-1], data=d, new_bin_edges=np.array([0., 2.]))
    yield 'rebin_1d_rejects', dict(bin_edges=e, data=d, new_bin_edges=np.array([2., 0.]))
    yield 'rebin_1d_rejects', dict(bin_edges=e, data=d[:3], new_bin_edges=np.array([0., 2.]))
    yield 'rebin_1d_rejects', dict(bin_edges=e, data=d, new_bin_edges=np.array([0., 2.]), w=d[:2])
    yield 'rebin_1d_rejects', dict(bin_edges=e, data=d, new_bin_edges=np.array([0., 2.]), sigma=d[:2])
    yield 'rebin_1d_rejects', dict(bin_edges=np.array([0., 1., 3., 2., 4.]), data=d, new_bin_edges=np.array([0., 2.]))
    yield 'rebin_1d_rejects', dict(bin_edges=e, data=d, new_bin_edges=np.array([0., 2., 3., 2.5]))
