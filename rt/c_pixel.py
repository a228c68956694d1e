"""C17-C20: HEALPix pixel numbers, centers, boundaries and neighbours."""
import functools
from fractions import Fraction
import math
import numpy as np
import healpy as hp
from base import *
from magpie import pixel

TWOPI = 2. * np.pi


def rings(nside):
    """start and length of the rings"""
    n = [4 * min(i, nside, 4 * nside - i) for i in range(1, 4 * nside)]
    s = np.concatenate([[0], np.cumsum(n)])
    return s, n


@functools.lru_cache(maxsize=64)
def table(nside):
    s, n = rings(nside)
    i = np.concatenate([np.full(n[k], k + 1) for k in range(len(n))])
    j = np.concatenate([np.arange(1, n[k] + 1) for k in range(len(n))])
    return i, j


def centers(nside, p):
    """x, y of the pixel centers from the standard pixel centers"""
    i, j = table(nside)
    i, j = i[p], j[p]
    th, ph = hp.pix2ang(nside, p)
    y = (nside - i / 2.) * np.pi / (2 * nside)
    sig = np.maximum(np.abs(y) * 4 / np.pi - 1, 0)
    pt = np.mod(ph, np.pi / 2)
    x = ph - sig * (pt - np.pi / 4)
    return x, y


def isint(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


@contract('pix2ij')
def c_pix2ij(a):
    ns = a['nside']
    p = np.array(a['p'], dtype=int)
    I, J = table(ns)
    i, j = pixel.healpix_pix2ij(p.copy(), ns)
    need(np.issubdtype(np.asarray(i).dtype, np.integer) and np.issubdtype(np.asarray(j).dtype, np.integer), 'not integers')
    need(np.array_equal(i, I[p]), 'ring', ns, p[np.asarray(i) != I[p]][:3], np.asarray(i)[np.asarray(i) != I[p]][:3])
    need(np.array_equal(j, J[p]), 'index in the ring', ns, p[np.asarray(j) != J[p]][:3], np.asarray(j)[np.asarray(j) != J[p]][:3])
    q = pixel.healpix_ij2pix(I[p], J[p], ns)
    need(np.issubdtype(np.asarray(q).dtype, np.integer), 'pixel number is not an integer')
    need(np.array_equal(q, p), 'ij2pix', ns, p[np.asarray(q) != p][:3], np.asarray(q)[np.asarray(q) != p][:3])
    for k in a['scalars']:
        v = int(p[k])
        i1, j1 = pixel.healpix_pix2ij(v, ns)
        need(isint(i1) and isint(j1), 'scalar: not integers', i1, j1)
        need(i1 == I[v] and j1 == J[v], 'scalar pix2ij', ns, v, i1, j1)
        q1 = pixel.healpix_ij2pix(int(I[v]), int(J[v]), ns)
        need(isint(q1) and q1 == v, 'scalar ij2pix', ns, v, q1)


@contract('pix2ij.big')
def c_pix2ij_big(a):
    """a few pixels of a large nside, against the ring sizes"""
    ns = a['nside']
    for v in a['p']:
        i, j = pixel.healpix_pix2ij(int(v), ns)
        s = start(ns, i)
        need(1 <= i <= 4 * ns - 1 and s + j - 1 == v and 1 <= j <= 4 * min(i, ns, 4 * ns - i), 'pix2ij', ns, v, i, j)
        need(pixel.healpix_ij2pix(i, j, ns) == v, 'ij2pix', ns, v)
    p = np.array(a['p'], dtype=int)
    i, j = pixel.healpix_pix2ij(p.copy(), ns)
    for v, x, y in zip(p, i, j):
        need((int(x), int(y)) == tuple(pixel.healpix_pix2ij(int(v), ns)), 'array and scalar differ', ns, v)
    need(np.array_equal(pixel.healpix_ij2pix(i, j, ns), p), 'ij2pix of an array', ns)


def start(ns, i):
    """first pixel of ring i"""
    if i <= ns:
        return 2 * i * (i - 1)
    if i <= 3 * ns:
        return 2 * ns * (ns - 1) + 4 * ns * (i - ns)
    k = 4 * ns - i
    return 12 * ns * ns - 2 * k * (k + 1)


@contract('pix2xy')
def c_pix2xy(a):
    ns = a['nside']
    p = np.array(a['p'], dtype=int)
    ex, ey = centers(ns, p)
    x, y = pixel.healpix_pix2xy(p.copy(), ns)
    close(x, ex, 'x of the centers (nside %d)' % ns, 1e-9, 1e-8)
    close(y, ey, 'y of the centers (nside %d)' % ns, 1e-9, 1e-9)
    need(np.all(np.asarray(x) >= -1e-12) and np.all(np.asarray(x) < TWOPI), 'x out of range')
    I, J = table(ns)
    x2, y2 = pixel.healpix_ij2xy(I[p], J[p], ns)
    close(x2, ex, 'ij2xy: x', 1e-9, 1e-8)
    close(y2, ey, 'ij2xy: y', 1e-9, 1e-9)
    jd = pixel.healpix_j2jd(I[p], J[p], ns)
    idd = pixel.healpix_i2id(I[p], ns)
    close(np.asarray(jd) * np.pi / (2 * ns), ex, 'j dash', 1e-9, 1e-8)
    close(np.asarray(idd) * np.pi / (2 * ns), ey, 'i dash', 1e-9, 1e-9)
    i, j = pixel.healpix_ijd2ijs(np.array(idd, float), np.array(jd, float), ns)
    need(np.issubdtype(np.asarray(i).dtype, np.integer) and np.issubdtype(np.asarray(j).dtype, np.integer), 'star indices are not integers')
    # i* + 1/2 = j' - i' + nside/2, j* + 1/2 = j' + i' + nside/2
    Ei = np.rint(ex * 2 * ns / np.pi - ey * 2 * ns / np.pi + ns / 2. - .5)
    Ej = np.rint(ex * 2 * ns / np.pi + ey * 2 * ns / np.pi + ns / 2. - .5)
    need(np.array_equal(i, Ei) and np.array_equal(j, Ej), 'star indices', ns, p[(i != Ei) | (j != Ej)][:3])
    bi, bj = pixel.healpix_ijs2ijd(np.array(i), np.array(j), ns)
    close(bi, idd, 'ijs2ijd: i dash', 1e-12, 1e-9)
    close(bj, jd, 'ijs2ijd: j dash', 1e-12, 1e-9)
    for k in a['scalars']:
        v = int(p[k])
        x1, y1 = pixel.healpix_pix2xy(v, ns)
        close([x1, y1], [ex[k], ey[k]], 'scalar center of pixel %d (nside %d)' % (v, ns), 1e-9, 1e-8)
        d1 = pixel.healpix_j2jd(int(I[v]), int(J[v]), ns)
        e1 = pixel.healpix_i2id(int(I[v]), ns)
        close([d1, e1], [jd[k], idd[k]], 'scalar dash indices', 1e-12, 1e-9)


@contract('boundary')
def c_boundary(a):
    ns, p, n = a['nside'], a['p'], a['steps']
    cx, cy = [float(v[0]) for v in centers(ns, np.array([p]))]
    d = np.pi / (4 * ns)
    t = 1e-9
    need(abs(pixel._healpix_get_delta(ns) - d) < 1e-12, 'half width')
    kw = {} if n is None else {'steps': n}

    def ring(x, y, m, msg):
        x, y = np.asarray(x), np.asarray(y)
        need(x.shape == (m,) and y.shape == (m,), msg + ': number of points', x.shape, m)
        need(np.all(np.abs(np.abs(x - cx) + np.abs(y - cy) - d) <= t), msg + ': off the diamond', x, y)

    def corners(x, y, cs, msg):
        for u, v in cs:
            need(np.any((np.abs(x - cx - u * d) <= t) & (np.abs(y - cy - v * d) <= t)), msg + ': corner missing', u, v)

    L, R, T, B = (-1, 0), (1, 0), (0, 1), (0, -1)
    m = 40 if n is None else n
    x, y = pixel.healpix_boundary(p, ns, **kw)
    ring(x, y, m, 'boundary')
    if m >= 8:
        corners(x, y, (L, R, T, B), 'boundary')
    # clockwise position from the left corner through the top
    u, v = (x - cx) / d, (y - cy) / d
    pos = np.where(v >= -1e-9, u + 1, 3 - u)
    need(np.all(np.diff(pos[:m // 2]) >= -1e-8) and np.all(v[:m // 2] >= -1e-8) and np.all(v[m // 2:] <= 1e-8)
         and np.all(np.diff(u[m // 2:]) <= 1e-8), 'not clockwise', u, v)
    xr, yr = pixel.healpix_boundary(p, ns, reverse=True, **kw)
    close(xr, x[::-1], 'reversed x', 1e-12, t)
    close(yr, y[::-1], 'reversed y', 1e-12, t)
    m = 20 if n is None else n
    for f, s, cs, msg in ((pixel.healpix_boundary_top, 1, (L, T, R), 'top'), (pixel.healpix_boundary_bot, -1, (L, B, R), 'bottom')):
        x, y = f(p, ns, **kw)
        ring(x, y, m, msg)
        need(np.all(s * (y - cy) >= -t), msg + ': on the wrong side')
        need(np.all(np.diff(x) >= -t), msg + ': x does not ascend', x)
        if m >= 4:
            corners(x, y, cs, msg)
        xr, yr = f(p, ns, reverse=True, **kw)
        close(xr, x[::-1], msg + ': reversed x', 1e-12, t)
        close(yr, y[::-1], msg + ': reversed y', 1e-12, t)


@contract('tiling')
def c_tiling(a):
    """every sampled point of the pattern lies in exactly one diamond"""
    ns = a['nside']
    npix = 12 * ns * ns
    X, Y = pixel.healpix_pix2xy(np.arange(npix), ns)
    d = pixel._healpix_get_delta(ns)
    close(2 * d * d, np.pi**2 / (8. * ns * ns), 'area', 1e-12, 0)
    for ph, th in a['points']:
        z = math.cos(th)
        if abs(z) <= 2 / 3.:
            x, y = ph, 3 * np.pi / 8 * z
        else:
            s = 2 - math.sqrt(3 * (1 - abs(z)))
            x, y = ph - (s - 1) * (ph % (np.pi / 2) - np.pi / 4), math.copysign(np.pi * s / 4, z)
        dx = np.abs(np.mod(X - x + np.pi, TWOPI) - np.pi)
        r = dx + np.abs(Y - y)
        if np.any(np.abs(r - d) < 1e-9):
            continue
        n = np.where(r < d)[0]
        need(len(n) == 1, 'point in %d pixels' % len(n), ph, th)
        need(n[0] == hp.ang2pix(ns, th, ph), 'wrong pixel', ph, th, n[0])


@functools.lru_cache(maxsize=32)
def star(nside):
    p = np.arange(12 * nside * nside)
    x, y = centers(nside, p)
    i = np.rint((x - y) * 2 * nside / np.pi + nside / 2. - .5).astype(int)
    j = np.rint((x + y) * 2 * nside / np.pi + nside / 2. - .5).astype(int)
    return i, j, {(int(u), int(v)): k for k, (u, v) in enumerate(zip(i, j))}


@functools.lru_cache(maxsize=32)
def touching(nside):
    """pixels that share an edge or a corner, from the corners of the pixels on the sphere"""
    npix = 12 * nside * nside
    x, y = centers(nside, np.arange(npix))
    d = np.pi / (4 * nside)
    corner = {}
    for k in range(npix):
        for u, v in ((-1, 0), (1, 0), (0, 1), (0, -1)):
            X, Y = int(round(x[k] / d)) + u, int(round(y[k] / d)) + v
            s = abs(Y) - nside
            if s == nside:
                key = ('pole', Y)
            elif s > 0:
                # inside a cap: phi from the quarter of the pixel's center
                q = math.floor(2 * x[k] / np.pi + 1e-9)
                key = (Fraction(X - s * (2 * q + 1), nside - s) % 8, Y)
            else:
                key = (Fraction(X, nside) % 8, Y)
            corner.setdefault(key, set()).add(k)
    out = [set() for _ in range(npix)]
    for s in corner.values():
        for k in s:
            out[k] |= s - {k}
    return out


@contract('neighbours')
def c_neigh(a):
    ns, p = a['nside'], a['p']
    i, j, back = star(ns)
    gi, gj = pixel.healpix_ijs_neighbours(a.get('cast', int)(i[p]), a.get('cast', int)(j[p]), ns)
    got = [(float(u), float(v)) for u, v in zip(gi, gj)]
    need(len(set(got)) == len(got), 'repeated', got)
    pix = []
    for u, v in got:
        need((u, v) in back, 'not a pixel', ns, p, (u, v))
        pix.append(back[(int(u), int(v))])
    exp = touching(ns)[p]
    need(set(pix) == exp, 'neighbours of pixel %d at nside %d' % (p, ns), sorted(pix), sorted(exp))
    need(p not in pix, 'its own neighbour')


@gen('C17')
def g_ij(rng, tier):
    for ns in list(range(1, 14 if tier == 'quick' else 40)) + [16, 32, 64] + ([128, 256] if tier != 'quick' else []):
        npix = 12 * ns * ns
        sc = list(range(npix)) if npix <= 2000 else [int(v) for v in rng.integers(0, npix, 500)]
        yield 'pix2ij', dict(nside=ns, p=np.arange(npix), scalars=sc)
        yield 'pix2ij', dict(nside=ns, p=rng.permutation(npix)[:50], scalars=[0])
    for ns in [100, 511, 1024, 1000, 4096, 8192] + [int(v) for v in rng.integers(1, 9000, 40)]:
        npix = 12 * ns * ns
        k = rng.integers(1, 4 * ns, 60)
        v = [start(ns, int(i)) for i in k] + [start(ns, int(i)) - 1 for i in k] + [0, npix - 1, 2 * ns * (ns + 1), 2 * ns * (ns + 1) + 1, 2 * ns * (5 * ns - 1), 2 * ns * (5 * ns - 1) - 1]
        v += [int(u) for u in rng.integers(0, npix, 60)]
        yield 'pix2ij.big', dict(nside=ns, p=[int(u) for u in v if 0 <= u < npix])


@gen('C18')
def g_xy(rng, tier):
    for ns in list(range(1, 14 if tier == 'quick' else 40)) + [16, 32, 64] + ([128, 256] if tier != 'quick' else []):
        npix = 12 * ns * ns
        sc = list(range(npix)) if npix <= 600 else [int(v) for v in rng.integers(0, npix, 200)]
        yield 'pix2xy', dict(nside=ns, p=np.arange(npix), scalars=sc)


@gen('C19')
def g_boundary(rng, tier):
    for ns in list(range(1, 5)):
        for p in range(12 * ns * ns):
            yield 'boundary', dict(nside=ns, p=p, steps=None)
    for n in (2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 40, 41):
        yield 'boundary', dict(nside=2, p=5, steps=n)
    for _ in range(300 if tier == 'quick' else 5000):
        ns = int(rng.integers(1, 40))
        yield 'boundary', dict(nside=ns, p=int(rng.integers(12 * ns * ns)), steps=int(rng.integers(2, 60)))
    for ns in (1, 2, 3, 4, 8, 15):
        yield 'tiling', dict(nside=ns, points=[[float(u), float(v)] for u, v in zip(rng.uniform(0, TWOPI, 200), np.arccos(rng.uniform(-1, 1, 200)))])


@gen('C20')
def g_neigh(rng, tier):
    for ns in range(1, 13 if tier == 'quick' else 25):
        for p in range(12 * ns * ns):
            yield 'neighbours', dict(nside=ns, p=p)
    for ns in (16, 17, 31, 32) if tier == 'quick' else (32, 33, 48, 64):
        i, j, _ = star(ns)
        # along the edges and corners of the base pixels, and a sample of the rest
        e = np.where((i % ns <= 1) | (j % ns <= 1) | (i % ns >= ns - 2) | (j % ns >= ns - 2))[0]
        for p in rng.permutation(e)[:600 if tier == 'quick' else 3000]:
            yield 'neighbours', dict(nside=ns, p=int(p))
        for p in rng.integers(0, 12 * ns * ns, 200):
            yield 'neighbours', dict(nside=ns, p=int(p))
