"""C15, C16, C21: cartesian and polar grids, outlines of shapes."""
import numpy as np
from base import *
from magpie import grids
from magpie import pixel

TWOPI = 2. * np.pi


def lin(lo, hi, n):
    return np.array([lo + (hi - lo) * k / n for k in range(n + 1)])


def mid(e):
    return (e[:-1] + e[1:]) / 2.


@contract('grid1d')
def c_grid1d(a):
    n, L, m = a['n'], a['length'], a['xmin']
    kw = {} if m is None else {'xmin': m}
    lo = 0. if m is None else m
    t = 1e-12 * (1 + abs(lo) + abs(L))
    e = grids.get_xedges(L, n, **kw)
    close(e, lin(lo, lo + L, n), 'edges', 1e-12, t)
    need(e[0] == lo, 'first edge', e[0], lo)
    need(np.all(np.diff(e) > 0), 'edges do not increase', e)
    close(grids.xedges2mid(e), mid(e), 'mid-points', 1e-12, t)
    x = grids.grid1d(L, n, **kw)
    close(x, mid(lin(lo, lo + L, n)), 'grid1d', 1e-12, t)
    x2, e2 = grids.grid1d(L, n, return_edges=True, **kw)
    close(x2, x, 'grid1d mid-points with edges', 1e-12, t)
    close(e2, e, 'grid1d edges', 1e-12, t)


@contract('xmid2edges')
def c_xmid2edges(a):
    e = lin(a['xmin'], a['xmin'] + a['length'], a['n'])
    x = mid(e)
    got = grids.xmid2edges(x.copy())
    need(np.shape(got) == e.shape, 'shape', np.shape(got))
    t = 1e-9 * (1 + abs(a['xmin']) + abs(a['length']))
    if np.all(np.abs(got - e) <= t):
        return
    dx = x[1] - x[0]
    k = np.append(x - dx, x[-1] + dx)
    if np.all(np.abs(got - k) <= t):
        raise Known('xmid2edges', 'grids.xmid2edges returns mid-points -/+ a whole bin width instead of half a bin (pinned by the existing test)')
    close(got, e, 'edges of the mid-points', 1e-9, t)


@contract('gridnd')
def c_gridnd(a):
    d = a['d']
    L, n, m = a['lengths'], a['ngrids'], a['mins']
    f = grids.grid2d if d == 2 else grids.grid3d
    kw = {} if m is None else {'mins': list(m)}
    LL = [L] * d if np.isscalar(L) else L
    nn = [n] * d if np.isscalar(n) else n
    mm = [0.] * d if m is None else [0. if v is None else v for v in m]
    ax = [mid(lin(mm[k], mm[k] + LL[k], nn[k])) for k in range(d)]
    exp = np.meshgrid(*ax, indexing='ij')
    cp = lambda v: v if np.isscalar(v) else list(v)
    got = f(cp(L), cp(n), **kw)
    need(len(got) == d, 'number of outputs', len(got))
    got1 = f(cp(L), cp(n), return1d=True, **kw)
    need(len(got1) == 2 * d, 'number of outputs with return1d', len(got1))
    for k in range(d):
        t = 1e-12 * (1 + abs(mm[k]) + abs(LL[k]))
        close(got[k], exp[k], 'axis %d' % k, 1e-12, t)
        close(got1[k], exp[k], 'axis %d (return1d)' % k, 1e-12, t)
        close(got1[d + k], ax[k], 'mid-points of axis %d' % k, 1e-12, t)


@contract('polargrid')
def c_polargrid(a):
    kw = {k: a[k] for k in ('rmin', 'rmax', 'phimin', 'phimax') if k in a}
    g = dict(rmin=0., rmax=1., phimin=0., phimax=TWOPI)
    g.update(kw)
    r = mid(lin(g['rmin'], g['rmax'], a['nr']))
    p = mid(lin(g['phimin'], g['phimax'], a['nphi']))
    R, P = np.meshgrid(r, p, indexing='ij')
    got = grids.polargrid(a['nr'], a['nphi'], **kw)
    need(len(got) == 2, 'outputs')
    close(got[0], R, 'r', 1e-12, 1e-12)
    close(got[1], P, 'phi', 1e-12, 1e-12)
    got = grids.polargrid(a['nr'], a['nphi'], return1d=True, **kw)
    need(len(got) == 4, 'outputs')
    for x, y, s in zip(got, (R, P, r, p), ('r', 'phi', 'r mid', 'phi mid')):
        close(x, y, s + ' (return1d)', 1e-12, 1e-12)


@contract('polarEA')
def c_polarEA(a):
    nr, kw = a['nr'], {k: a[k] for k in ('rmax', 'base_nphi') if k in a}
    rmax, b = a.get('rmax', 1.), a.get('base_nphi', 4)
    r, p = grids.polarEA_grid(nr, **kw)
    er, ep = [], []
    for i in range(nr):
        n = b * (2 * i + 1)
        er += [(i + .5) * rmax / nr] * n
        ep += [(j + .5) * TWOPI / n for j in range(n)]
    close(r, er, 'r', 1e-12, 1e-12 * rmax)
    close(p, ep, 'phi', 1e-12, 1e-12)
    kb = {k: v for k, v in kw.items() if k == 'base_nphi'}
    npix = grids.polarEA_npix(nr, **kb)
    need(npix == len(er), 'number of pixels', npix, len(er))
    area = grids.polarEA_area(nr, **kw)
    close(area * npix, np.pi * rmax**2, 'areas do not make up the disc', 1e-10, 0.)
    i = np.arange(nr)
    close(np.full(nr, area), np.pi * rmax**2 * ((i + 1.)**2 - i**2) / nr**2 / (b * (2 * i + 1)), 'pixel area', 1e-10, 0.)


def perimeter(x, y, a, tol):
    """position along the outline, from (xmin, ymin) through (xmax, ymin); raises when a point is off it"""
    x0, x1, y0, y1 = a
    pos = []
    for u, v in zip(x, y):
        c = []
        if abs(v - y0) <= tol and x0 - tol <= u <= x1 + tol:
            c.append((u - x0) / (x1 - x0))
        if abs(u - x1) <= tol and y0 - tol <= v <= y1 + tol:
            c.append(1 + (v - y0) / (y1 - y0))
        if abs(v - y1) <= tol and x0 - tol <= u <= x1 + tol:
            c.append(2 + (x1 - u) / (x1 - x0))
        if abs(u - x0) <= tol and y0 - tol <= v <= y1 + tol:
            c.append(3 + (y1 - v) / (y1 - y0))
        need(c, 'point off the outline', u, v)
        pos.append(c)
    return pos


def ordered(pos, msg):
    last = -1e-6
    for c in pos:
        ok = [v for v in c if v >= last - 1e-6]
        need(ok, msg + ': points out of order', c, last)
        last = min(ok)


def check_outline(x, y, a, steps, msg):
    tol = 1e-9 * (1 + max(map(abs, a)))
    need(len(x) == steps and len(y) == steps, msg + ': number of points', len(x), steps)
    pos = perimeter(x, y, a, tol)
    ordered(pos, msg)
    for cx, cy in ((a[0], a[2]), (a[1], a[2]), (a[1], a[3]), (a[0], a[3])):
        need(np.any((np.abs(x - cx) <= tol) & (np.abs(y - cy) <= tol)), msg + ': corner missing', cx, cy)
    n = steps // 4
    for k in range(4):
        s = [v for c in pos for v in c if k - 1e-7 <= v <= k + 1 + 1e-7]
        need(len(s) >= n, msg + ': side without its share of points', k, len(s))


@contract('get_square')
def c_square(a):
    r = a['rect']
    kw = {'steps': a['steps']} if 'steps' in a else {}
    x, y = pixel.get_square(*r, **kw)
    check_outline(x, y, r, a.get('steps', 40), 'get_square')


@contract('get_square.rejects')
def c_square_rej(a):
    raises(lambda: pixel.get_square(0., 1., 0., 1., steps=a['steps']), 'steps %r' % a['steps'])


@contract('get_arc')
def c_arc(a):
    kw = {k: a[k] for k in ('phimin', 'phimax', 'center', 'steps') if k in a}
    c = a.get('center', [0., 0.])
    p0, p1, n = a.get('phimin', 0.), a.get('phimax', TWOPI), a.get('steps', 10)
    x, y = pixel.get_arc(a['radius'], **kw)
    need(len(x) == n and len(y) == n, 'number of points', len(x))
    t = 1e-9 * (1 + a['radius'] + abs(c[0]) + abs(c[1]))
    close(np.hypot(x - c[0], y - c[1]), np.full(n, a['radius']), 'distance from the center', 1e-9, t)
    for k, p in ((0, p0), (n - 1, p1)):
        close([x[k], y[k]], [c[0] + a['radius'] * np.cos(p), c[1] + a['radius'] * np.sin(p)], 'end of the arc', 1e-9, t)
    d = np.mod(np.arctan2(y - c[1], x - c[0]) - p0 + 1e-7, TWOPI) - 1e-7
    d[-1] = p1 - p0
    need(np.all(np.diff(d) > -1e-7) and np.all(d <= p1 - p0 + 1e-7), 'points out of order', d)


@contract('get_disc')
def c_disc(a):
    kw = {k: a[k] for k in ('rmin', 'rmax', 'phimin', 'phimax', 'center', 'steps') if k in a}
    c = a.get('center', [0., 0.])
    q = [a.get('rmin', 0.), a.get('rmax', 1.), a.get('phimin', 0.), a.get('phimax', TWOPI)]
    n = a.get('steps', 40)
    x, y = pixel.get_disc(**kw)
    need(len(x) == n and len(y) == n, 'number of points', len(x))
    r = np.hypot(x - c[0], y - c[1])
    t = 1e-9 * (1 + q[1] + abs(c[0]) + abs(c[1]))
    m = n // 4
    need(np.all(r >= q[0] - t) and np.all(r <= q[1] + t), 'radius outside the segment')
    tm = 1e-7
    pos = []
    for u, v, w in zip(x - c[0], y - c[1], r):
        ph = np.mod(np.arctan2(v, u) - q[2] + tm, TWOPI) - tm + q[2]
        cand = []
        for pp in (ph, ph + TWOPI, ph - TWOPI):
            for pc in (pp, q[2], q[3]):
                if abs(w) > tm and abs(np.mod(pc - ph + np.pi, TWOPI) - np.pi) > tm / w:
                    continue
                if abs(pc - q[2]) < tm:
                    cand.append((w - q[0]) / (q[1] - q[0]))
                if abs(w - q[1]) < tm and q[2] - tm <= pc <= q[3] + tm:
                    cand.append(1 + (pc - q[2]) / (q[3] - q[2]))
                if abs(pc - q[3]) < tm:
                    cand.append(2 + (q[1] - w) / (q[1] - q[0]))
                if abs(w - q[0]) < tm and (w < tm or q[2] - tm <= pc <= q[3] + tm):
                    if w < tm:
                        cand.extend([3., 3.5, 4.])
                    else:
                        cand.append(3 + (q[3] - pc) / (q[3] - q[2]))
        need(cand, 'point off the outline', u, v)
        pos.append(cand)
    ordered(pos, 'get_disc')
    for rr in q[:2]:
        for pp in q[2:]:
            need(np.any(np.hypot(x - c[0] - rr * np.cos(pp), y - c[1] - rr * np.sin(pp)) <= t), 'corner missing', rr, pp)


@contract('get_box')
def c_box(a):
    b, n, near, cen = a['box'], a.get('steps', 120), a['nearest'], a.get('center')
    kw = {k: a[k] for k in ('steps', 'center') if k in a}
    x, y, z = pixel.get_box(*b, return_nearest=near, **kw) if near else pixel.get_box(*b, **kw)
    lo, hi = np.array(b[::2]), np.array(b[1::2])
    m = n // 12
    edges = []
    for ax in range(3):
        o = [k for k in range(3) if k != ax]
        for u in (0, 1):
            for v in (0, 1):
                s = np.zeros(3)
                e = np.zeros(3)
                s[ax], e[ax] = lo[ax], hi[ax]
                s[o[0]] = e[o[0]] = (lo, hi)[u][o[0]]
                s[o[1]] = e[o[1]] = (lo, hi)[v][o[1]]
                edges.append((s, e))
    unsure = set()
    drop = set()
    if near:
        c = np.array(cen if cen is not None else [0., 0., 0.])
        for i, ed in enumerate(edges):
            for q in ed:
                h = hidden(c, q, lo, hi)
                if h is None:
                    unsure.add(i)
                elif h:
                    drop.add(i)
    got = []
    tol = 1e-9 * (1 + max(map(abs, b)))
    for k in range(len(x)):
        p = np.array([x[k], y[k], z[k]]).T
        need(p.shape == (m, 3), 'points per edge', p.shape)
        f = [i for i, (s, e) in enumerate(edges)
             if np.all(np.abs(p - (s + (e - s) * np.linspace(0, 1, m)[:, None])) <= tol)
             or (np.all(np.abs(p[0] - s) <= tol) and np.all(np.abs(p[-1] - e) <= tol) and np.all(p >= np.minimum(s, e) - tol) and np.all(p <= np.maximum(s, e) + tol))
             or (np.all(np.abs(p[0] - e) <= tol) and np.all(np.abs(p[-1] - s) <= tol) and np.all(p >= np.minimum(s, e) - tol) and np.all(p <= np.maximum(s, e) + tol))]
        need(len(f) == 1, 'not an edge of the box', p)
        got.append(f[0])
    need(len(set(got)) == len(got), 'edge given twice', got)
    for i in range(12):
        if i in drop:
            need(i not in got, 'edge ends at a hidden corner but is returned', edges[i])
        elif i not in unsure:
            need(i in got, 'visible edge is missing', edges[i])


def hidden(c, q, lo, hi):
    """does the segment from c to q pass through the open box; None when too short for the sampling"""
    t0, t1 = 0., 1.
    for k in range(3):
        d = q[k] - c[k]
        if d == 0:
            if not lo[k] < c[k] < hi[k]:
                return False
            continue
        u, v = sorted(((lo[k] - c[k]) / d, (hi[k] - c[k]) / d))
        t0, t1 = max(t0, u), min(t1, v)
    if t1 - t0 <= 1e-12:
        return False
    return True if t1 - t0 > 2.5 / 99 else None


@gen('C15')
def g_cart(rng, tier):
    sp = [(1., 1, None), (10., 4, None), (3., 5, -2.), (1e-3, 7, 1e3), (8., 16, 0.)]
    for L, n, m in sp:
        yield 'grid1d', dict(length=L, n=n, xmin=m)
    for L, n, m in [(10., 4, 0.), (3., 6, -2.)]:
        yield 'xmid2edges', dict(length=L, n=n, xmin=m)
    yield 'gridnd', dict(d=2, lengths=10., ngrids=4, mins=None)
    yield 'gridnd', dict(d=3, lengths=10., ngrids=3, mins=None)
    yield 'gridnd', dict(d=3, lengths=[1., 2., 3.], ngrids=[1, 2, 3], mins=[None, -1., 2.])
    for _ in range(400 if tier == 'quick' else 6000):
        L, n = float(rng.uniform(.01, 50)), int(rng.integers(1, 60))
        m = None if rng.random() < .3 else float(rng.uniform(-50, 50))
        yield 'grid1d', dict(length=L, n=n, xmin=m)
        yield 'xmid2edges', dict(length=L, n=max(n, 2), xmin=m or 0.)
        d = int(rng.integers(2, 4))
        LL = L if rng.random() < .3 else [float(v) for v in rng.uniform(.1, 20, d)]
        nn = int(rng.integers(1, 8)) if rng.random() < .3 else [int(v) for v in rng.integers(1, 9, d)]
        mm = None if rng.random() < .3 else [None if rng.random() < .2 else float(v) for v in rng.uniform(-20, 20, d)]
        yield 'gridnd', dict(d=d, lengths=LL, ngrids=nn, mins=mm)


@gen('C16')
def g_polar(rng, tier):
    yield 'polargrid', dict(nr=5, nphi=8)
    yield 'polarEA', dict(nr=1)
    yield 'polarEA', dict(nr=7)
    yield 'polargrid', dict(nr=1, nphi=1, rmin=.5, rmax=2., phimin=1., phimax=1.5)
    for _ in range(300 if tier == 'quick' else 4000):
        r = np.sort(rng.uniform(0, 20, 2))
        p = np.sort(rng.uniform(0, TWOPI, 2))
        a = dict(nr=int(rng.integers(1, 12)), nphi=int(rng.integers(1, 20)))
        if rng.random() < .7:
            a.update(rmin=float(r[0]), rmax=float(r[1] + .1))
        if rng.random() < .7:
            a.update(phimin=float(p[0]), phimax=float(p[1] + .01))
        yield 'polargrid', a
        a = dict(nr=int(rng.integers(1, 25)))
        if rng.random() < .7:
            a['rmax'] = float(rng.uniform(.1, 30))
        if rng.random() < .7:
            a['base_nphi'] = int(rng.integers(1, 9))
        yield 'polarEA', a


@gen('C21')
def g_shapes(rng, tier):
    yield 'get_square', dict(rect=[0., 1., 0., 1.])
    yield 'get_square', dict(rect=[0., 1., 0., 2.], steps=4)
    for s in (0, -4, 3, 6, 41):
        yield 'get_square.rejects', dict(steps=s)
    yield 'get_arc', dict(radius=1.)
    yield 'get_disc', dict()
    yield 'get_box', dict(box=[0., 1., 0., 1., 0., 1.], nearest=False)
    for _ in range(150 if tier == 'quick' else 3000):
        q = [float(v) for v in rng.uniform(-10, 10, 4)]
        q[1] = q[0] + abs(q[1]) + .1
        q[3] = q[2] + abs(q[3]) + .1
        yield 'get_square', dict(rect=q, steps=4 * int(rng.integers(1, 12)))
        c = [float(v) for v in rng.uniform(-5, 5, 2)]
        p0 = float(rng.uniform(0, 5))
        a = dict(radius=float(rng.uniform(.1, 9)), center=c, steps=int(rng.integers(2, 30)), phimin=p0, phimax=float(rng.uniform(p0 + .1, TWOPI + .001)))
        yield 'get_arc', a
        r = np.sort(rng.uniform(0, 9, 2))
        yield 'get_disc', dict(rmin=float(r[0]) if rng.random() < .7 else 0., rmax=float(r[1]) + .1, phimin=p0, phimax=a['phimax'], center=c, steps=4 * int(rng.integers(1, 14)))
        lo = rng.integers(-16, 16, 3) / 4.
        hi = lo + rng.integers(1, 24, 3) / 4.
        b = [float(v) for k in range(3) for v in (lo[k], hi[k])]
        yield 'get_box', dict(box=b, nearest=False, steps=12 * int(rng.integers(2, 8)))
        cen = rng.integers(-40, 40, 3) / 4.
        if rng.random() < .3:
            k = int(rng.integers(3))
            cen[k] = (lo, hi)[int(rng.integers(2))][k]
        yield 'get_box', dict(box=b, nearest=True, steps=12 * int(rng.integers(2, 8)), center=[float(v) for v in cen])
        if rng.random() < .2:
            yield 'get_box', dict(box=b, nearest=True)
