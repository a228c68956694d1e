"""C01-C04: grid to grid remapping."""
import numpy as np
from base import *
import magpie
from magpie import remap, src


def overlap(x1min, L1, n1, x2min, L2, n2):
    """W[i2, i1]: fraction of output cell i2 covered by input cell i1"""
    d1, d2 = L1 / n1, L2 / n2
    e1 = x1min + d1 * np.arange(n1 + 1)
    e2 = x2min + d2 * np.arange(n2 + 1)
    lo = np.maximum(e1[None, :-1], e2[:-1, None])
    hi = np.minimum(e1[None, 1:], e2[1:, None])
    return np.maximum(hi - lo, 0.) / d2


def per_axis(v, n):
    return [v] * n if np.isscalar(v) else list(v)


@contract('grid2grid1D')
def c_1d(a):
    f, L1, n2 = np.array(a['f1'], dtype=float), a['boxsize'], a['ngridout']
    kw = {k: a[k] for k in ('origin', 'originout', 'boxsizeout') if k in a}
    got = remap.grid2grid1D(np.array(f), L1, n2, **kw)
    L2 = kw.get('boxsizeout', None)
    L2 = L1 if L2 is None else L2
    W = overlap(kw.get('origin', 0.), L1, len(f), kw.get('originout', 0.), L2, n2)
    close(got, W.dot(f), 'overlap-weighted average', 1e-8, 1e-8 * (1 + np.abs(f).max()))


@contract('grid2gridND')
def c_nd(a):
    f = np.array(a['f1'], dtype=float)
    n = f.ndim
    fn = remap.grid2grid2D if n == 2 else remap.grid2grid3D
    kw = {k: a[k] for k in ('origin', 'originout', 'boxsizeout') if k in a}
    got = fn(np.array(f), a['boxsize'], a['ngridout'], **kw)
    L1 = per_axis(a['boxsize'], n)
    L2 = kw.get('boxsizeout', None)
    L2 = L1 if L2 is None else per_axis(L2, n)
    o1, o2 = per_axis(kw.get('origin', 0.), n), per_axis(kw.get('originout', 0.), n)
    n2 = per_axis(a['ngridout'], n)
    e = f
    for k in range(n):
        W = overlap(o1[k], L1[k], f.shape[k], o2[k], L2[k], n2[k])
        e = np.moveaxis(np.tensordot(W, e, axes=(1, k)), 0, k)
    close(got, e, 'product of the overlap fractions', 1e-8, 1e-8 * (1 + np.abs(f).max()))


@contract('remap_conserves')
def c_cons(a):
    """output grid covers the input grid: the integral is kept; constants; bounds; linearity"""
    f, g = np.array(a['f1'], dtype=float), np.array(a['g1'], dtype=float)
    n = f.ndim
    fn = [None, remap.grid2grid1D, remap.grid2grid2D, remap.grid2grid3D][n]
    L1, L2, o1, o2, n2 = a['boxsize'], a['boxsizeout'], a['origin'], a['originout'], a['ngridout']
    sc = (lambda v: v[0]) if n == 1 else (lambda v: v)
    call = lambda h: fn(np.array(h), sc(L1), sc(n2), origin=sc(o1), originout=sc(o2), boxsizeout=sc(L2))
    r = call(f)
    v1 = np.prod([L1[k] / f.shape[k] for k in range(n)])
    v2 = np.prod([L2[k] / n2[k] for k in range(n)])
    scale = 1e-8 * (1 + np.abs(f).max()) * max(v1 * f.size, v2 * r.size)
    covers = all(o2[k] <= o1[k] and o2[k] + L2[k] >= o1[k] + L1[k] for k in range(n))
    if covers:
        close(r.sum() * v2, f.sum() * v1, 'integral', 1e-8, scale)
    inside = np.ones(r.shape, dtype=bool)
    for k in range(n):
        d2 = L2[k] / n2[k]
        lo = o2[k] + d2 * np.arange(n2[k])
        ok = (lo >= o1[k] - 1e-12 * L1[k]) & (lo + d2 <= o1[k] + L1[k] + 1e-12 * L1[k])
        sh = [1] * n
        sh[k] = -1
        inside &= ok.reshape(sh)
    one = call(np.full(f.shape, 3.25))
    close(one[inside], np.full(int(inside.sum()), 3.25), 'constant field', 1e-8, 1e-8)
    need(np.all(one <= 3.25 + 1e-7) and np.all(one >= -1e-7), 'weights add up to more than one', one)
    t = 1e-8 * (1 + np.abs(f).max())
    if inside.any():
        need(np.all(r[inside] <= f.max() + t) and np.all(r[inside] >= f.min() - t), 'output leaves the bounds of the input')
    close(call(2.5 * f - g), 2.5 * r - call(g), 'linearity', 1e-7, 1e-7 * (1 + np.abs(f).max() + np.abs(g).max()))


@contract('remap_pixel')
def c_pixel(a):
    """one cell: every covered input cell is listed with its fraction, every entry is set"""
    x1min, L1, n1, x2min, L2, n2, w = [a[k] for k in ('x1min', 'L1', 'n1', 'x2min', 'L2', 'n2', 'which')]
    plen = src.get_remap_pix_len(x1min=x1min, x1max=x1min + L1, grid1=n1, x2min=x2min, x2max=x2min + L2, grid2=n2)
    need(plen >= 1, 'length', plen)
    for rep in range(2):
        junk = np.full(plen + 8, 7.77e300)      # stir the allocator so that unset entries show
        del junk
        pix, wt = src.remap_1d_grid2grid_pixel(x1min=x1min, x1max=x1min + L1, grid1=n1, x2min=x2min, x2max=x2min + L2,
                                               grid2=n2, which2pix=w, pixlen=plen)
        need(len(pix) == plen and len(wt) == plen, 'lengths', len(pix), len(wt))
        need(np.all((pix == -1) | ((pix >= 0) & (pix < n1))), 'pixel index outside the grid', pix)
        need(np.all((wt >= -1e-9) & (wt <= 1 + 1e-9)), 'weight outside [0, 1]', wt)
        need(np.all(wt[pix == -1] == 0.), 'weight of no pixel', pix, wt)
        good = pix[pix >= 0]
        need(len(set(good.tolist())) == len(good), 'repeated pixel', pix)
        dense = np.zeros(n1)
        dense[good] = wt[pix >= 0]
        W = overlap(x1min, L1, n1, x2min, L2, n2)[w]
        close(dense, W, 'fractions', 1e-7, 1e-7)


@contract('pix1dto2d')
def c_p2(a):
    xp, yp, yg = arr(a['xpix'], int), arr(a['ypix'], int), a['ygrid']
    got = src.pix1dto2d(xpix=xp, ypix=yp, xlen=len(xp), ylen=len(yp), ygrid=yg) if False else src.pix1dto2d(xp, yp, yg)
    e = [(-1 if x == -1 or y == -1 else y + yg * x) for x in xp for y in yp]
    need(np.array_equal(got, e), 'flat index', got, e)


@contract('pix1dto3d')
def c_p3(a):
    xp, yp, zp, yg, zg = arr(a['xpix'], int), arr(a['ypix'], int), arr(a['zpix'], int), a['ygrid'], a['zgrid']
    got = src.pix1dto3d(xp, yp, zp, yg, zg)
    e = [(-1 if -1 in (x, y, z) else z + zg * (y + yg * x)) for x in xp for y in yp for z in zp]
    need(np.array_equal(got, e), 'flat index', got, e)


@contract('which_pix')
def c_wp(a):
    got = src.which_pix(a['xmin'], a['dx'], a['x'])
    q = (a['x'] - a['xmin']) / a['dx']
    need(got <= q + 1e-9 and q - 1e-9 < got + 1, 'cell of a point', got, q)


SIZES = [1, 2, 3, 4, 5, 7, 8, 10, 16, 31]


def geometry(rng, nmax=31):
    """an input and an output axis with a deliberate mutual position"""
    n1 = int(rng.choice([s for s in SIZES if s <= nmax]))
    n2 = int(rng.choice([s for s in SIZES if s <= nmax]))
    L1 = float(rng.choice([1., 2., 10., 100., rng.uniform(0.1, 50.)]))
    o1 = float(rng.choice([0., 0., -3., 2.5, rng.uniform(-20, 20)]))
    d1 = L1 / n1
    k = rng.integers(0, 10)
    if k == 0:
        o2, L2 = o1, L1
    elif k == 1:
        o2, L2 = o1 + d1 * rng.integers(-2, n1 + 1), d1 * rng.integers(1, 2 * n1 + 1)     # edges coincide
    elif k == 2:
        o2, L2 = o1 - rng.uniform(0, L1), L1 * rng.uniform(1, 4)
    elif k == 3:
        o2, L2 = o1 + rng.uniform(0, L1), L1 * rng.uniform(0.01, 1.)
    elif k == 4:
        o2, L2 = o1 - 2 * L1, L1                                    # no overlap, below
    elif k == 5:
        o2, L2 = o1 + L1, L1 * 0.5                                  # touches above
    elif k == 6:
        o2, L2 = o1 - d1 / 2, L1 + d1                               # half a cell over both ends
    elif k == 7:
        o2, L2 = o1 + d1 * (rng.integers(0, n1) + 0.25), d1 * 0.5   # inside a single cell
    elif k == 8:
        o2, L2 = o1 + L1 - d1 / 3, L1 * rng.uniform(0.5, 3)
    else:
        o2, L2 = o1 + rng.uniform(-2, 2) * L1, L1 * rng.uniform(0.05, 5.)
    return n1, float(L1), float(o1), n2, float(L2), float(o2)


@gen('C01', 'C04')
def g_1d(rng, tier):
    # special positions by hand
    for (n1, L1, o1, n2, L2, o2) in [(1, 1., 0., 1, 1., 0.), (4, 1., 0., 2, 1., 0.), (2, 1., 0., 4, 1., 0.), (5, 1., 0., 3, 1., 0.),
                                     (3, 3., 0., 1, 3., 1.5), (3, 3., 0., 1, 0.5, -0.75), (3, 3., 0., 1, .5, -.5), (3, 3., 0., 1, .25, 3.25),
                                     (4, 4., 0., 1, 1., 3.), (4, 4., 0., 1, 2., 3.5), (4, 4., 0., 3, 3., -1.), (10, 1., 0., 10, 1., .05),
                                     (1, 2., 0., 5, 3., -.5), (2, 2., 0., 1, 4., -1.), (16, 1., 0., 1, 1., 0.), (3, 1., 0., 7, 1., 0.)]:
        yield 'grid2grid1D', dict(f1=rng.normal(size=n1), boxsize=L1, ngridout=n2, origin=o1, originout=o2, boxsizeout=L2)
        yield 'grid2grid1D', dict(f1=rng.normal(size=n1), boxsize=L1, ngridout=n2, origin=o1, originout=o2)
    yield 'grid2grid1D', dict(f1=rng.normal(size=6), boxsize=2., ngridout=4)
    for _ in range(400 if tier == 'quick' else 6000):
        n1, L1, o1, n2, L2, o2 = geometry(rng)
        d = dict(f1=rng.normal(size=n1), boxsize=L1, ngridout=n2, origin=o1, originout=o2, boxsizeout=L2)
        if rng.random() < .15:
            del d['boxsizeout']
        yield 'grid2grid1D', d


def ndcase(rng, n, shape_max):
    g = [geometry(rng, shape_max) for _ in range(n)]
    f = rng.normal(size=[x[0] for x in g])
    d = dict(f1=f, boxsize=[x[1] for x in g], ngridout=[x[3] for x in g], origin=[x[2] for x in g],
             originout=[x[5] for x in g], boxsizeout=[x[4] for x in g])
    for k in list(d):
        if k != 'f1' and rng.random() < .2:
            d[k] = d[k][0]
    for k in ('origin', 'originout', 'boxsizeout'):
        if rng.random() < .12:
            del d[k]
    return d


@gen('C02', 'C04')
def g_nd(rng, tier):
    for n, m in ((2, 10), (3, 5)):
        yield 'grid2gridND', dict(f1=rng.normal(size=[2, 3, 4][:n]), boxsize=1., ngridout=3)
        yield 'grid2gridND', dict(f1=rng.normal(size=[2, 3, 4][:n]), boxsize=[1., 2., 4.][:n], ngridout=[5, 4, 3][:n])
        yield 'grid2gridND', dict(f1=rng.normal(size=[4, 1, 2][:n]), boxsize=[1., 2., 3.][:n], ngridout=2, origin=[0., 1., 2.][:n],
                                  originout=[.5, 0., 2.5][:n], boxsizeout=[1., 2.5, 2.][:n])
        for _ in range(150 if tier == 'quick' else 2000):
            yield 'grid2gridND', ndcase(rng, n, m)


@gen('C03')
def g_cons(rng, tier):
    for n, m in ((1, 31), (2, 8), (3, 5)):
        for _ in range(120 if tier == 'quick' else 2000):
            g = [list(geometry(rng, m)) for _ in range(n)]
            if rng.random() < .6:
                for x in g:            # make it cover
                    a, b = rng.choice([0., .5, rng.uniform(0, 2)]), rng.choice([0., .5, rng.uniform(0, 2)])
                    x[5] = x[2] - a
                    x[4] = x[1] + a + b
            f = rng.normal(size=[x[0] for x in g])
            yield 'remap_conserves', dict(f1=f, g1=rng.normal(size=f.shape), boxsize=[x[1] for x in g], ngridout=[x[3] for x in g],
                                          origin=[x[2] for x in g], originout=[x[5] for x in g], boxsizeout=[x[4] for x in g])


@gen('C01', 'C02', 'C03', 'C04')
def g_kernels(rng, tier):
    for n1 in (1, 2, 3):
        for n2 in (1, 2, 3):
            for o2 in (-1.5, -1., -.75, -.5, -.25, 0., .25, .5, 1.):
                for L2 in (.25, .5, 1., 2.):
                    for w in range(n2):
                        yield 'remap_pixel', dict(x1min=0., L1=1., n1=n1, x2min=o2, L2=L2, n2=n2, which=w)
    for _ in range(500 if tier == 'quick' else 8000):
        n1, L1, o1, n2, L2, o2 = geometry(rng)
        yield 'remap_pixel', dict(x1min=o1, L1=L1, n1=n1, x2min=o2, L2=L2, n2=n2, which=int(rng.integers(0, n2)))
    for _ in range(60):
        x, y, z = [rng.integers(-1, 6, size=rng.integers(1, 6)).tolist() for _ in range(3)]
        yield 'pix1dto2d', dict(xpix=x, ypix=y, ygrid=int(rng.integers(6, 9)))
        yield 'pix1dto3d', dict(xpix=x, ypix=y, zpix=z, ygrid=int(rng.integers(6, 9)), zgrid=int(rng.integers(6, 9)))
        yield 'which_pix', dict(xmin=float(rng.uniform(-5, 5)), dx=float(rng.uniform(.1, 3)), x=float(rng.uniform(-20, 20)))
