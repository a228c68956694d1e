"""C01, C02, C04: the Python side of the remapping of a grid."""
from fractions import Fraction
import itertools
import z3
from .verify import *
from . import core as K
from .interp import PyRaise
from .k_fort import Axis, target, flat
from .fort import same

REMAP = 'magpie.remap.grid2grid.'
COVER = z3.Function('COVER', K.R, K.R, K.I, K.R, K.R, K.I, K.I, K.I, K.R)


class Named(Axis):
    """an axis whose covered fractions are known by name only: COVER(grid 1, grid 2, old cell, new cell) is the part of the new
    cell that the old cell covers (Axis.w in k_fort)"""
    def __init__(self, lo1, hi1, n1, lo2, hi2, n2):
        self.lo1, self.hi1, self.n1, self.lo2, self.hi2, self.n2 = [R(x) for x in (lo1, hi1)] + [n1] + [R(x) for x in (lo2, hi2)] + [n2]

    def w(self, c, i):
        return Sym(COVER(*[K.lift(x) for x in (self.lo1, self.hi1, self.n1, self.lo2, self.hi2, self.n2, c, i)]))

    def long_enough(self, plen):
        # (proved in k_fort: get_remap_pix_len; needed by the kernels)
        return Sym(LONG(*[K.lift(x) for x in (self.lo1, self.hi1, self.n1, self.lo2, self.hi2, self.n2, plen)]))


R = K.toreal_s
LONG = z3.Function('LONG', K.R, K.R, K.I, K.R, K.R, K.I, K.I, K.B)


def wrapped(name, req, opt, f):
    """a compiled routine behind f2py: arguments by name or by position"""
    def g(*args, **kw):
        names = req + opt
        if len(args) > len(names):
            raise PyRaise('TypeError', 'too many arguments')
        a = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in a:
                raise PyRaise('TypeError', 'unexpected argument %s' % k)
            a[k] = v
        for k in req:
            if k not in a:
                raise PyRaise('TypeError', 'missing argument %s' % k)
        for k, v in a.items():
            if k == 'f1':
                continue
            if not K.is_scalar(v):
                raise PyRaise('TypeError', '%s is not a number' % k)
            integer = 'grid' in k or 'pixlen' in k
            a[k] = K.trunc_int(v) if integer else R(v)
        return f(a)
    return g


def kernels(V):
    """contracts of the compiled routines, which k_fort proves"""
    def pixlen(a):
        ax = Named(*[a[k] for k in ('x1min', 'x1max', 'grid1', 'x2min', 'x2max', 'grid2')])
        V.require('get_remap_pix_len: grids', ax.ok())
        n = V.ctx.fresh('pixlen', K.I)
        V.ctx.fact(land(ax.long_enough(n), cmp('>=', n, 1)))
        return n

    def remap(dim):
        def f(a):
            names = 'xyz'[:dim]
            if dim == 1:
                if 'grid1' not in a and isinstance(a['f1'], Arr):
                    a['grid1'] = npf.prod(a['f1'].axes[0]) if hasattr(npf, 'prod') else a['f1'].shape()[0]
                axs = [Named(*[a[k] for k in ('x1min', 'x1max', 'grid1', 'x2min', 'x2max', 'grid2')])]
                ms = [a['pixlen']]
            else:
                axs = [Named(*[a[p + k] for k in ('1min', '1max', '1grid', '2min', '2max', '2grid')]) for p in names]
                ms = [a[p + 'pixlen'] for p in names]
            for p, ax, m in zip(names, axs, ms):
                V.require('remap_%dd_grid2grid: grids along %s' % (dim, p), ax.ok())
                V.require('remap_%dd_grid2grid: length of the window along %s' % (dim, p), land(ax.long_enough(m), cmp('>=', m, 1)))
            F1 = a['f1']
            if not isinstance(F1, Arr):
                raise K.Unsupported('f1 is not an array')
            V.require('remap_%dd_grid2grid: f1 has one axis' % dim, F1.ndim == 1)
            dg = list(F1.axes[0])
            if len(dg) != dim:
                raise K.Unsupported('digits of f1')
            for d, ax in zip(dg, axs):
                V.require('remap_%dd_grid2grid: size of f1' % dim, cmp('==', d, ax.n1))
            g = F1.fn()

            def at(idx):
                def go(chosen):
                    if len(chosen) == dim:
                        r = R(g(tuple(chosen)))
                        for ax, i, c in zip(axs, idx, chosen):
                            r = mul(ax.w(c, i), r)
                        return r
                    return strip(npf.sum_between(0, axs[len(chosen)].n1, lambda c: go(chosen + [c])))
                return go([])
            buf = Buf([ax.n2 for ax in axs], at, 'f')
            return Arr(buf, [tuple(ax.n2 for ax in axs)])
        return f
    ax = lambda p: [p + k for k in ('1min', '1max', '1grid', '2min', '2max', '2grid')]
    E = npf.EXTERNALS
    E['magpie.src.remap_utils'] = npf.Ext('magpie.src.remap_utils', {
        'get_remap_pix_len': wrapped('get_remap_pix_len', ['x1min', 'x1max', 'grid1', 'x2min', 'x2max', 'grid2'], [], pixlen),
        'which_pix': None, 'pix1dto2d': None, 'pix1dto3d': None, 'remap_1d_grid2grid_pixel': None})
    E['magpie.src.remap_1d_grid2grid'] = npf.Ext('magpie.src.remap_1d_grid2grid', {
        'remap_1d_grid2grid': wrapped('1', ['x1min', 'x1max', 'x2min', 'x2max', 'grid2', 'pixlen', 'f1'], ['grid1'], remap(1))})
    E['magpie.src.remap_2d_grid2grid'] = npf.Ext('magpie.src.remap_2d_grid2grid', {
        'remap_2d_grid2grid': wrapped('2', [p + k for p in 'xy' for k in ('1min', '1max', '1grid')] + [p + k for p in 'xy' for k in ('2min', '2max', '2grid')] +
                                      ['xpixlen', 'ypixlen', 'f1'], [], remap(2))})
    E['magpie.src.remap_3d_grid2grid'] = npf.Ext('magpie.src.remap_3d_grid2grid', {
        'remap_3d_grid2grid': wrapped('3', [p + k for p in 'xyz' for k in ('1min', '1max', '1grid')] + [p + k for p in 'xyz' for k in ('2min', '2max', '2grid')] +
                                      ['xpixlen', 'ypixlen', 'zpixlen', 'f1'], [], remap(3))})


def quantity(V, name, dim, form, integer=False):
    """(the argument, its value per axis)"""
    new = (lambda s: V.int(name + s, 1)) if integer else (lambda s: V.real(name + s))
    if form == 'scalar':
        v = new('')
        return v, [v] * dim
    v = [new('_' + p) for p in 'xyz'[:dim]]
    return list(v), v


def wrapper(dim):
    props = ('C01', 'C03', 'C04') if dim == 1 else ('C02', 'C03', 'C04')
    forms = ['scalar'] if dim == 1 else ['scalar', 'list']

    for fb, fg in itertools.product(forms, forms):
        @task(*props, name='grid2grid%dD[boxsize %s, ngridout %s]' % (dim, fb, fg))
        def t(V, fb=fb, fg=fg):
            kernels(V)
            V.ctx.plain_sums = True
            n1 = [V.int('n1' + p, 1) for p in 'xyz'[:dim]]
            f1 = V.array('f1', *n1)
            g = [None] + forms
            for fo, fO, fB in itertools.product(g, g, g):
                V.ctx.prefix = 'origin %s, originout %s, boxsizeout %s: ' % (fo or 'default', fO or 'default', fB or 'default')
                box, boxs = quantity(V, 'boxsize', dim, fb)
                ng, ngs = quantity(V, 'ngridout', dim, fg, True)
                kw = {}
                o = oo = [Fraction(0)] * dim
                bo = boxs
                if fo:
                    kw['origin'], o = quantity(V, 'origin', dim, fo)
                if fO:
                    kw['originout'], oo = quantity(V, 'originout', dim, fO)
                if fB:
                    kw['boxsizeout'], bo = quantity(V, 'boxsizeout', dim, fB)
                for x in list(boxs) + list(bo):
                    V.assume(cmp('>', x, 0))
                axs = [Named(o[k], add(o[k], boxs[k]), n1[k], oo[k], add(oo[k], bo[k]), ngs[k]) for k in range(dim)]

                def post(r):
                    if not V.shape('remapped field', r, ngs):
                        return
                    with V.forall(*ngs) as idx:
                        V.same('mean weighted by overlap', r.at(*idx), goal(axs, idx, f1))
                V.run(REMAP + 'grid2grid%dD' % dim, [f1, box, ng], kw, post=post)
            V.ctx.prefix = ''


def goal(axs, idx, f1):
    def go(chosen):
        if len(chosen) == len(axs):
            r = f1.at(*chosen)
            for a, i, c in zip(axs, idx, chosen):
                r = mul(a.w(c, i), r)
            return r
        return strip(npf.sum_between(0, axs[len(chosen)].n1, lambda c: go(chosen + [c])))
    return go([])


for d in (1, 2, 3):
    wrapper(d)
