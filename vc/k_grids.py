"""C15, C16: cartesian and polar grids."""
from fractions import Fraction
from .verify import *
from . import core as K
from .interp import Ragged

HALF = Fraction(1, 2)
CART = 'magpie.grids.cartesian.'
POL = 'magpie.grids.polar.'


def real_arr(n, f):
    return Arr(Buf([n], lambda idx: f(idx[0]), 'f'))


def edge(xmin, length, n, i):
    """xmin + i length / n, for n >= 1"""
    w = Sym(K.toreal(K.lift(length)) / K.toreal(K.lift(n))) if not (K.conc(length) and K.conc(n)) else K.div(length, n)
    return add(xmin, mul(K.toreal_s(i), w))


def mid(xmin, length, n, i):
    return mul(HALF, add(edge(xmin, length, n, i), edge(xmin, length, n, add(i, 1))))


def edges_arr(xmin, length, n):
    return real_arr(add(n, 1), lambda i: edge(xmin, length, n, i))


def mids_arr(xmin, length, n):
    return real_arr(n, lambda i: mid(xmin, length, n, i))


@stub(CART + 'get_xedges')
def s_edges(V, env):
    n = env['ngrid']
    V.require('at least one cell', cmp('>=', n, 1))
    return edges_arr(Fraction(0) if env['xmin'] is None else env['xmin'], env['length'], n)


@stub(CART + 'xedges2mid')
def s_mid(V, env):
    e = env['xedges']
    if not isinstance(e, Arr) or e.ndim != 1:
        raise Unsupported('edges')
    f = e.fn()
    n = sub(e.dims[0], 1)
    V.require('at least one edge', cmp('>=', n, 0))
    return real_arr(n, lambda i: mul(HALF, add(f((i,)), f((add(i, 1),)))))


for how in ('default', 'None', 'given'):
    @task('C15', name='get_xedges[%s]' % how)
    def t(V, how=how):
        n, L = V.int('n', 1), V.real('length')
        x0 = V.real('xmin') if how == 'given' else Fraction(0)
        V.assume(cmp('>', L, 0))
        args = [L, n] + {'default': [], 'None': [None], 'given': [x0]}[how]

        def post(r):
            V.equal('edges', r, edges_arr(x0, L, n))
            if V.shape('edges', r, [add(n, 1)], 'f'):
                V.same('starts at the minimum', r.at(0), x0)
                V.same('ends at minimum + length', r.at(n), add(x0, L))
                with V.forall(n) as (i,):
                    V.ensure('increasing', cmp('<', strip(r.at(i)), strip(r.at(add(i, 1)))))
        V.run(CART + 'get_xedges', args, post=post)


@task('C15', name='xedges2mid')
def t(V):
    n = V.int('n', 1)
    e = V.array('xedges', n)
    V.run(CART + 'xedges2mid', [e], post=lambda r: V.equal('mid-points', r, real_arr(sub(n, 1), lambda i: mul(HALF, add(e.at(i), e.at(add(i, 1)))))))


def box(V, nd, how):
    names = 'xyz'[:nd]
    if how == 'scalar':
        n, L = V.int('n', 1), V.real('length')
        V.assume(cmp('>', L, 0))
        return [L] * nd, [n] * nd, L, n
    n = [V.int('n' + c, 1) for c in names]
    L = [V.real('length' + c) for c in names]
    V.assume(land(*[cmp('>', x, 0) for x in L]))
    return L, n, list(L), list(n)


for e in (False, True, 'default'):
    for how in ('default', 'given'):
        @task('C15', name='grid1d[%s,return_edges=%s]' % (how, e))
        def t(V, how=how, e=e):
            n, L = V.int('n', 1), V.real('length')
            x0 = V.real('xmin') if how == 'given' else Fraction(0)
            V.use(CART + 'get_xedges', CART + 'xedges2mid')
            kw = {} if how == 'default' else {'xmin': x0}
            if e != 'default':
                kw['return_edges'] = e
            m, g = mids_arr(x0, L, n), edges_arr(x0, L, n)
            V.run(CART + 'grid1d', [L, n], kw, post=lambda r: V.equal('grid', r, (m, g) if e is True else m))


def spec_grid(x0, L, n):
    """coordinate arrays of the cell centers and the mid-points per axis"""
    nd = len(n)
    out = []
    for k in range(nd):
        out.append(Arr(Buf(list(n), lambda idx, k=k: mid(x0[k], L[k], n[k], idx[k]), 'f')))
    return out, [mids_arr(x0[k], L[k], n[k]) for k in range(nd)]


def grid_stub(nd):
    def s(V, env):
        L, n, m = env['lengths'], env['ngrids'], env['mins']
        L = [L] * nd if K.is_scalar(L) else [V.prog.getitem(L, k) for k in range(nd)]
        n = [n] * nd if K.is_scalar(n) else [V.prog.getitem(n, k) for k in range(nd)]
        x0 = [V.prog.getitem(m, k) for k in range(nd)]
        x0 = [Fraction(0) if v is None else v for v in x0]
        for k in range(nd):
            V.require('at least one cell', cmp('>=', n[k], 1))
        g, mids = spec_grid(x0, L, n)
        if env['return1d'] is False:
            return tuple(g)
        return tuple(g) + tuple(mids)
    return s


for nd in (2, 3):
    stub(CART + 'grid%dd' % nd)(grid_stub(nd))
    for how in ('scalar', 'list'):
        for r1 in ('default', False, True):
            for mins in ('default', 'given'):
                if r1 is False and mins == 'given':
                    continue

                @task('C15', name='grid%dd[%s,return1d=%s,mins %s]' % (nd, how, r1, mins))
                def t(V, nd=nd, how=how, r1=r1, mins=mins):
                    L, n, La, na = box(V, nd, how)
                    x0 = [V.real('min' + c) for c in 'xyz'[:nd]] if mins == 'given' else [Fraction(0)] * nd
                    V.use(CART + 'get_xedges', CART + 'xedges2mid')
                    kw = {} if r1 == 'default' else {'return1d': r1}
                    if mins == 'given':
                        kw['mins'] = list(x0)
                    g, m = spec_grid(x0, L, n)
                    V.run(CART + 'grid%dd' % nd, [La, na], kw, post=lambda r: V.equal('grid', r, tuple(g + m) if r1 is True else tuple(g)))


# ------------------------------------------------------------------ C16
for r1 in ('default', False, True):
    for how in ('default', 'given'):
        @task('C16', name='polargrid[%s,return1d=%s]' % (how, r1))
        def t(V, how=how, r1=r1):
            nr, npp = V.int('nr', 1), V.int('nphi', 1)
            V.use(CART + 'grid2d')
            kw = {} if r1 == 'default' else {'return1d': r1}
            lim = [Fraction(0), Fraction(1), Fraction(0), mul(2, K.PI())]
            if how == 'given':
                lim = [V.real(k) for k in ('rmin', 'rmax', 'phimin', 'phimax')]
                kw.update(dict(zip(('rmin', 'rmax', 'phimin', 'phimax'), lim)))
            g, m = spec_grid([lim[0], lim[2]], [sub(lim[1], lim[0]), sub(lim[3], lim[2])], [nr, npp])
            V.run(POL + 'polargrid', [nr, npp], kw, post=lambda r: V.equal('grid', r, tuple(g + m) if r1 is True else tuple(g)))


for how in ('default', 'given'):
    @task('C16', name='polarEA_grid[%s]' % how)
    def t(V, how=how):
        nr = V.int('nr', 1)
        V.use(CART + 'get_xedges', CART + 'xedges2mid')
        R, b, kw = Fraction(1), 4, {}
        if how == 'given':
            R, b = V.real('rmax'), V.int('base', 1)
            kw = {'rmax': R, 'base_nphi': b}

        def post(res):
            V.ensure('two results', isinstance(res, tuple) and len(res) == 2)
            r, p = res
            for nm, x in (('r', r), ('phi', p)):
                if not isinstance(x, Ragged):
                    raise Unsupported('rings of other form')
                V.ensure('%s: number of rings' % nm, cmp('==', x.n, nr))
            with V.forall(nr) as (i,):
                cnt = mul(b, add(mul(2, i), 1))
                for nm, x in (('r', r), ('phi', p)):
                    V.ensure('%s: pixels of the ring' % nm, cmp('==', x.ln(i), cnt))
                # ring i starts at base i^2: the numbers of pixels of the rings before add up
                V.ensure('rings start at base i^2', cmp('==', add(mul(b, mul(i, i)), cnt), mul(b, mul(add(i, 1), add(i, 1)))))
                with V.forall(cnt) as (j,):
                    V.same('r at the middle of the ring', r.el(i, j), mid(Fraction(0), R, nr, i))
                    V.same('phi evenly spaced', p.el(i, j), mid(Fraction(0), mul(2, K.PI()), cnt, j))
        V.run(POL + 'polarEA_grid', [nr], kw, post=post)

    @task('C16', name='polarEA_area and polarEA_npix[%s]' % how)
    def t(V, how=how):
        nr = V.int('nr', 1)
        R, b, ka, kn = Fraction(1), 4, {}, {}
        if how == 'given':
            R, b = V.real('rmax'), V.int('base', 1)
            ka, kn = {'rmax': R, 'base_nphi': b}, {'base_nphi': b}

        def post(res):
            a, n = res
            V.same('number of pixels', n, mul(b, mul(nr, nr)))
            V.same('all pixels make the disc', mul(a, K.toreal_s(n)), mul(K.PI(), mul(R, R)))
            # the pixels of one ring: ring area over the number of pixels
            i = V.int('i', 0)
            w = edge(Fraction(0), R, nr, 1)
            ring = mul(K.PI(), sub(mul(edge(Fraction(0), R, nr, add(i, 1)), edge(Fraction(0), R, nr, add(i, 1))),
                                   mul(edge(Fraction(0), R, nr, i), edge(Fraction(0), R, nr, i))))
            V.same('pixel area in every ring', mul(a, K.toreal_s(mul(b, add(mul(2, i), 1)))), ring)
        V.functions.update([POL + 'polarEA_area', POL + 'polarEA_npix'])
        V.run(lambda: (V.call(POL + 'polarEA_area', [nr], ka), V.call(POL + 'polarEA_npix', [nr], kn)), [], name='polarEA_area and polarEA_npix', post=post)
