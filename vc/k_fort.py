"""C01, C02, C04: the compiled remapping kernels."""
import os
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve
from .fort import Fort, same

R = K.toreal_s


def source(V, name):
    return os.path.join(V.prog.root, 'magpie', 'src', name + '.f90')


class Axis(object):
    """an axis of the old grid (1) and the new one (2)"""
    def __init__(self, lo1, hi1, n1, lo2, hi2, n2):
        self.lo1, self.hi1, self.n1, self.lo2, self.hi2, self.n2 = lo1, hi1, n1, lo2, hi2, n2
        self.d1 = strip(K.div(sub(hi1, lo1), R(n1)))
        self.d2 = strip(K.div(sub(hi2, lo2), R(n2)))

    def ok(self):
        return land(cmp('>=', self.n1, 1), cmp('>=', self.n2, 1), cmp('<', self.lo1, self.hi1), cmp('<', self.lo2, self.hi2))

    def e1(self, c):
        return add(self.lo1, mul(self.d1, R(c)))

    def e2(self, c):
        return add(self.lo2, mul(self.d2, R(c)))

    def cover(self, c, i):
        """length of the part of new cell i in old cell c"""
        return K.maxv(sub(K.minv(self.e1(add(c, 1)), self.e2(add(i, 1))), K.maxv(self.e1(c), self.e2(i))), Fraction(0))

    W = FIRST = None

    def abstract(self, V, p):
        """the covered fraction and the first cell, by name only.  What is used of their definitions are the lemma of the
        window, proved in 'the window of a cell', and the contract of remap_1d_grid2grid_pixel."""
        self.W = z3.Function(K.CTX.name('W' + p), K.I, K.I, K.R)
        self.FIRST = z3.Function(K.CTX.name('FIRST' + p), K.I, K.I)
        self.V = V

    def window(self, i, c, m):
        """(the lemma of the window)"""
        self.V.fact(implies(lor(cmp('<', c, self.first(i)), cmp('>=', c, add(self.first(i), m))), cmp('==', self.w(c, i), 0)))

    def args(self):
        return self.lo1, self.hi1, self.n1, self.lo2, self.hi2, self.n2

    def w(self, c, i):
        if self.W is not None:
            return Sym(self.W(K.lift(c), K.lift(i)))
        return strip(K.div(self.cover(c, i), self.d2))

    def first(self, i):
        """the cell of the old grid (continued to both sides) that the lower edge of new cell i is in"""
        if self.FIRST is not None:
            return Sym(self.FIRST(K.lift(i)))
        return K.floor_int(strip(K.div(sub(self.e2(i), self.lo1), self.d1)))

    def long_enough(self, plen):
        return cmp('>=', R(plen), add(strip(K.div(self.d2, self.d1)), 1))


def axis(V, p=''):
    n1, n2 = V.int(p + 'grid1', 1), V.int(p + 'grid2', 1)
    lo1, hi1, lo2, hi2 = [V.real(p + x) for x in ('x1min', 'x1max', 'x2min', 'x2max')]
    V.assume(cmp('<', lo1, hi1))
    V.assume(cmp('<', lo2, hi2))
    return Axis(lo1, hi1, n1, lo2, hi2, n2)


def sizes(V, ax):
    """the cells have positive lengths"""
    p = V.lemma('cell of grid 1', cmp('>', ax.d1, 0))
    q = V.lemma('cell of grid 2', cmp('>', ax.d2, 0))
    return p, q


# --- contracts of the callees
def c_which_pix(F, a):
    F.V.require('which_pix: width', cmp('>', a['dx'], 0))
    return dict(pix=K.floor_int(strip(K.div(sub(a['x'], a['xmin']), a['dx']))))


def c_pixlen(F, a):
    ax = Axis(a['x1min'], a['x1max'], a['grid1'], a['x2min'], a['x2max'], a['grid2'])
    F.V.require('get_remap_pix_len: grids', ax.ok())
    n = K.CTX.fresh('pixlen', K.I)
    K.CTX.fact(ax.long_enough(n))
    return dict(pixlen=n)


def cell_facts(ax, i, j, P, W):
    """contract of remap_1d_grid2grid_pixel for entry j"""
    c = sub(add(ax.first(i), j), 1)
    valid = land(cmp('<=', 0, c), cmp('<', c, ax.n1))
    none = cmp('==', P, -1)
    return [('an entry names its cell of the grid or none', lor(none, land(cmp('==', P, c), valid))),
            ('the weight is the covered fraction', lor(none, cmp('==', W, ax.w(c, i)))),
            ('no covered cell is left out', implies(land(none, valid), cmp('==', ax.w(c, i), 0)))]


def c_pixel(F, a):
    ax = Axis(a['x1min'], a['x1max'], a['grid1'], a['x2min'], a['x2max'], a['grid2'])
    F.V.require('remap_1d_grid2grid_pixel: grids', ax.ok())
    for x in F.__dict__.get('axes', ()):
        if all(same(p, q) for p, q in zip(x.args(), ax.args())):
            ax = x
    n = a['pixlen']
    P = F.array_out('pix', 'i', None)
    W = F.array_out('weights', 'f', None)
    at = lambda G: lambda j: Sym(G(K.lift(j)))
    F.forall_out([P, W], lambda j: implies(land(cmp('<=', 1, j), cmp('<=', j, n)),
                                           land(*[f for _, f in cell_facts(ax, a['which2pix'], j, at(P)(j), at(W)(j))])))
    return dict(pix=at(P), weights=at(W))


# --- flattening
def pix2(xp, yp, ygrid, i, j):
    x, y = xp(i), yp(j)
    return ite(land(cmp('!=', x, -1), cmp('!=', y, -1)), add(y, mul(ygrid, x)), -1)


def pix3(xp, yp, zp, ygrid, zgrid, i, j, k):
    x, y, z = xp(i), yp(j), zp(k)
    return ite(land(cmp('!=', x, -1), cmp('!=', y, -1), cmp('!=', z, -1)), add(z, mul(zgrid, add(y, mul(ygrid, x)))), -1)


def digits(q, dims):
    """the digits of q in the mixed basis of the extents, if they can be read off: q is a polynomial in the extents"""
    t = K.lift(q)
    out = []
    for n in reversed(dims[1:]):
        t = z3.simplify(t, som=True)
        nt = K.lift(n)
        hi, lo = [], []
        for m in (t.children() if z3.is_add(t) else [t]):
            fs = npf.flat_mul(m) if z3.is_mul(m) else [m]
            hit = [x for x in fs if x.eq(nt)]
            if not hit:
                lo.append(m)
                continue
            rest, done = [], False
            for x in fs:
                if x.eq(nt) and not done:
                    done = True
                else:
                    rest.append(x)
            p = z3.IntVal(1)
            for x in rest:
                p = p * x
            hi.append(p)
        z = lambda l: z3.simplify(z3.Sum(l)) if l else z3.IntVal(0)
        d = K.mk(z(lo))
        if not K.CTX.proves(land(cmp('<=', 0, d), cmp('<', d, n))):
            return None
        out.append(d)
        t = z(hi)
    d = K.mk(z3.simplify(t))
    if not K.CTX.proves(land(cmp('<=', 0, d), cmp('<', d, dims[0]))):
        return None
    return [d] + out[::-1]


def c_flat(names, lens, grids, value):
    def con(F, a):
        dims = [a[x] for x in lens]
        F.V.require('lengths', land(*[cmp('>=', n, 0) for n in dims]))
        fs = [a[x][1] for x in names]
        gs = [a[g] for g in grids]
        junk = F.array_out('pix', 'i', None)

        def at(q):
            ds = digits(sub(q, 1), dims)
            if ds is None:
                return Sym(junk(K.lift(q)))
            return value(*(fs + gs + [add(d, 1) for d in ds]))
        return dict(pix=at)
    return con


CON = dict(which_pix=c_which_pix, get_remap_pix_len=c_pixlen, remap_1d_grid2grid_pixel=c_pixel,
           pix1dto2d=c_flat(('xpix', 'ypix'), ('xlen', 'ylen'), ('ygrid',), pix2),
           pix1dto3d=c_flat(('xpix', 'ypix', 'zpix'), ('xlen', 'ylen', 'zlen'), ('ygrid', 'zgrid'), pix3))


def fort(V, name, *use):
    F = Fort(V, source(V, name))
    F.contracts = dict((u, CON[u]) for u in use)
    return F


@task('C01', 'C02', 'C03', 'C04', name='which_pix')
def t(V):
    x, lo, d = V.real('x'), V.real('xmin'), V.real('dx')
    V.assume(cmp('>', d, 0))
    F = fort(V, 'remap_utils')
    F.verify('which_pix', dict(x=x, xmin=lo, dx=d), {},
             post=lambda o: V.same('cell of a point', o['pix'], K.floor_int(strip(K.div(sub(x, lo), d)))))


@task('C01', 'C02', 'C03', 'C04', name='get_remap_pix_len')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    F = fort(V, 'remap_utils')
    F.verify('get_remap_pix_len', dict(x1min=ax.lo1, x1max=ax.hi1, grid1=ax.n1, x2min=ax.lo2, x2max=ax.hi2, grid2=ax.n2), {},
             post=lambda o: V.ensure('enough entries for the cells that a new cell touches', ax.long_enough(o['pixlen'])))


@task('C01', 'C02', 'C03', 'C04', name='the window of a cell')
def t(V):
    """only the cells that the entries may name are covered"""
    window_lemma(V)


def window_lemma(V):
    ax = axis(V)
    sizes(V, ax)
    i, c, m = V.int('i'), V.int('c'), V.int('pixlen')
    V.assume(ax.long_enough(m))
    V.assume(lor(cmp('<', c, ax.first(i)), cmp('>=', c, add(ax.first(i), m))))
    V.ensure('no other cell is covered', cmp('==', ax.w(c, i), 0))


@task('C01', 'C02', 'C03', 'C04', name='remap_1d_grid2grid_pixel')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    i, m = V.int('which2pix'), V.int('pixlen', 0)
    F = fort(V, 'remap_utils', 'which_pix')

    def post(o):
        j = V.int('j', 1)
        with V.when(cmp('<=', j, m)):
            for nm, f in cell_facts(ax, i, j, o['pix'](j), o['weights'](j)):
                V.ensure(nm, f)
    F.verify('remap_1d_grid2grid_pixel', dict(x1min=ax.lo1, x1max=ax.hi1, grid1=ax.n1, x2min=ax.lo2, x2max=ax.hi2, grid2=ax.n2,
                                              which2pix=i, pixlen=m), {}, post=post)


# --- sums over the cells
def window_sum(V, n, h, lo, hi, shift, raw=False):
    """an instance of an axiom of finite sums: the sum of h over 0..n-1 is the sum over lo <= j < hi of h(shift + j) (nothing outside 0..n-1),
    if h is zero at every other place.  Gives the witness, an index (if any) for which that is not so, and the new sum."""
    c = K.CTX
    w = c.fresh('kap', K.I)
    inside = land(cmp('<=', add(shift, lo), w), cmp('<', w, add(shift, hi)))
    zero = lor(inside, cmp('<', w, 0), cmp('>=', w, n), cmp('==', h(w), 0))
    whole = npf.sum_range(n, h) if not isinstance(n, int) else npf.sum_between(0, n, h)

    def g(j):
        x = add(shift, j)
        return ite(land(cmp('<=', 0, x), cmp('<', x, n)), h(x), Fraction(0))
    part = npf.sum_between(lo, hi, g) if not raw else raw_sum(V, lo, hi, g)
    part_s = part if not raw else Sym(part)
    c.fact(implies(zero, cmp('==', whole, part_s)), guarded=False)
    return w, zero, whole, part


def sums_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == 'SUM':
                out.append(x)
            else:
                st.extend(x.children())
    return out


def window_fn(V):
    """the lemma of the window, for use: no cell outside the window is covered"""
    def pre(lo1, hi1, n1, lo2, hi2, n2, i, c, m):
        ax = Axis(lo1, hi1, n1, lo2, hi2, n2)
        return land(ax.ok(), ax.long_enough(m), lor(cmp('<', c, ax.first(i)), cmp('>=', c, add(ax.first(i), m))))

    def proof(lo1, hi1, n1, lo2, hi2, n2, *r):
        sizes(V, Axis(lo1, hi1, n1, lo2, hi2, n2))
    f = V.lemma_fn('no cell outside the window is covered', 'rrirriiii', pre,
                   lambda lo1, hi1, n1, lo2, hi2, n2, i, c, m: cmp('==', Axis(lo1, hi1, n1, lo2, hi2, n2).w(c, i), 0), proof)

    def apply(ax, i, c, m):
        # (only for a cell outside the window)
        out = lor(cmp('<', c, ax.first(i)), cmp('>=', c, add(ax.first(i), m)))
        with V.when(out):
            f(ax.lo1, ax.hi1, ax.n1, ax.lo2, ax.hi2, ax.n2, i, c, m)
    return apply


@task('C01', 'C03', 'C04', name='remap_1d_grid2grid')
def t(V):
    ax = axis(V)
    sizes(V, ax)
    m = V.int('pixlen', 0)
    V.assume(ax.long_enough(m))
    f1 = V.array('f1', ax.n1)
    F = fort(V, 'remap_1d_grid2grid', 'remap_1d_grid2grid_pixel')
    win = window_fn(V)

    def post(o):
        i = V.int('i', 0)
        with V.when(cmp('<', i, ax.n2)):
            got = o['f2'](add(i, 1))
            h = lambda c: mul(ax.w(c, i), f1.at(c))
            w, zero, whole, part = window_sum(V, ax.n1, h, 1, add(m, 1), sub(ax.first(i), 1))
            win(ax, i, w, m)
            V.lemma('cells outside the window', zero)
            for s in sums_of(K.lift(got)):
                sums_equal(V, 'sum over the entries', s, K.lift(part))
            V.same('mean weighted by overlap', got, whole)
    F.verify('remap_1d_grid2grid', dict(x1min=ax.lo1, x1max=ax.hi1, grid1=ax.n1, x2min=ax.lo2, x2max=ax.hi2, grid2=ax.n2, pixlen=m),
             dict(f1=lambda j: f1.at(sub(j, 1))), post=post)


@task('C02', 'C03', 'C04', name='pix1dto2d')
def t(V):
    nx, ny, g = V.int('xlen', 0), V.int('ylen', 0), V.int('ygrid', 1)
    X, Y = V.array('xpix', nx, dtype='i'), V.array('ypix', ny, dtype='i')
    F = fort(V, 'remap_utils')
    xp, yp = (lambda i: X.at(sub(i, 1))), (lambda i: Y.at(sub(i, 1)))

    def post(o):
        i, j = V.int('i', 1), V.int('j', 1)
        with V.when(land(cmp('<=', i, nx), cmp('<=', j, ny))):
            got = o['pix'](add(mul(ny, sub(i, 1)), j))
            got = F.iteration(got, i)
            V.same('entry', got, pix2(xp, yp, g, i, j))
    F.verify('pix1dto2d', dict(xlen=nx, ylen=ny, ygrid=g), dict(xpix=xp, ypix=yp), post=post)


@task('C02', 'C03', 'C04', name='pix1dto3d')
def t(V):
    nx, ny, nz, g, h = V.int('xlen', 0), V.int('ylen', 0), V.int('zlen', 0), V.int('ygrid', 1), V.int('zgrid', 1)
    X, Y, Z = V.array('xpix', nx, dtype='i'), V.array('ypix', ny, dtype='i'), V.array('zpix', nz, dtype='i')
    F = fort(V, 'remap_utils')
    xp, yp, zp = (lambda i: X.at(sub(i, 1))), (lambda i: Y.at(sub(i, 1))), (lambda i: Z.at(sub(i, 1)))

    def post(o):
        i, j, k = V.int('i', 1), V.int('j', 1), V.int('k', 1)
        with V.when(land(cmp('<=', i, nx), cmp('<=', j, ny), cmp('<=', k, nz))):
            q = add(mul(nz, sub(j, 1)), k)
            V.lemma('place in a plane', land(cmp('<=', 1, q), cmp('<=', q, mul(ny, nz))))
            got = o['pix'](add(mul(nz, mul(ny, sub(i, 1))), q))
            got = F.iteration(got, i, j)
            V.same('entry', got, pix3(xp, yp, zp, g, h, i, j, k))
    F.verify('pix1dto3d', dict(xlen=nx, ylen=ny, zlen=nz, ygrid=g, zgrid=h), dict(xpix=xp, ypix=yp, zpix=zp), post=post)


# --- two and three dimensions
def flat(ds, ns):
    q = ds[0]
    for d, n in zip(ds[1:], ns[1:]):
        q = add(mul(q, n), d)
    return q


def target(axs, idx, f1, chosen):
    """the sum over the cells of the remaining axes"""
    if len(chosen) == len(axs):
        r = f1(flat(chosen, [a.n1 for a in axs]))
        for a, i, c in zip(axs, idx, chosen):
            r = mul(a.w(c, i), r)
        return r
    return strip(npf.sum_between(0, axs[len(chosen)].n1, lambda c: target(axs, idx, f1, chosen + [c])))


def entry(t, k):
    """the entry k of an axis: the numbers (its cell, its weight) in the term t"""
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.arg(x.num_args() - 1).eq(k.t) and \
               x.decl().name().split('!')[0] in ('pix', 'weights'):
                out[x.decl().name().split('!')[0]] = Sym(x)
            st.extend(x.children())
    return out.get('pix'), out.get('weights')


def nothing(V, name, t):
    """the sums in t are zero"""
    for q in sums_of(t):
        sum_zero(V, name, q, prove=lambda k, zero, q=q: nothing(V, name, z3.substitute_vars(q.arg(2).body(), k.t)))


def reduce_sum(V, s, axs, ms, idx, f1, chosen):
    """the sum s over the entries of an axis is the sum over its cells"""
    d = len(chosen)
    ax, m, i = axs[d], ms[d], idx[d]
    leaf = d == len(axs) - 1
    h = lambda c: target(axs, idx, f1, chosen + [c])
    w, zero, whole, part = window_sum(V, ax.n1, h, 1, add(m, 1), sub(ax.first(i), 1), raw=True)
    ax.window(i, w, m)
    nm = 'axis %d: ' % (d + 1)
    away = lor(land(cmp('<=', ax.first(i), w), cmp('<', w, add(ax.first(i), m))), cmp('==', ax.w(w, i), 0))
    V.lemma(nm + 'a cell outside the window', away)
    V.derive(nm + 'cells outside the window', zero, away)

    def prove(k, same):
        x = sub(add(ax.first(i), k), 1)
        E = Sym(z3.substitute_vars(s.arg(2).body(), k.t))
        X, XW = entry(E.t, k)
        if X is None or XW is None:
            return
        inside = land(cmp('<=', 1, k), cmp('<=', k, m))
        valid = land(cmp('<=', 0, x), cmp('<', x, ax.n1))
        none = cmp('==', X, -1)
        for g in (lnot(valid), land(valid, none)):
            with V.when(land(inside, g)):
                V.lemma(nm + 'an entry without a cell', none)
                nothing(V, nm + 'no cell', E.t)
                V.lemma(nm + 'no contribution', cmp('==', E, 0))
        with V.when(land(inside, valid, none)):
            z0 = V.lemma(nm + 'not covered', cmp('==', ax.w(x, i), 0))
            V.derive(nm + 'not covered, no contribution', cmp('==', h(x), 0), z0)
        with V.when(land(inside, valid, lnot(none))):
            E1 = V.rewrite(V.rewrite(E, X, x, nm + 'cell'), XW, ax.w(x, i), nm + 'weight')
            if not leaf:
                for q in sums_of(E1.t):
                    reduce_sum(V, q, axs, ms, idx, f1, chosen + [x])
            V.lemma(nm + 'contribution', cmp('==', E1, h(x)))
    sums_equal(V, nm + 'sum over the entries', s, part, prove=prove)
    return V.lemma(nm + 'sum over the cells', cmp('==', Sym(s), whole))


def kernel(dim):
    names = 'xyz'[:dim]

    @task('C02', 'C03', 'C04', name='remap_%dd_grid2grid' % dim)
    def t(V):
        axs = [axis(V, p) for p in names]
        for ax in axs:
            sizes(V, ax)
        ms = [V.int(p + 'pixlen', 1) for p in names]
        vals = {}
        for p, ax, m in zip(names, axs, ms):
            V.assume(ax.long_enough(m))
            vals.update({p + '1min': ax.lo1, p + '1max': ax.hi1, p + '1grid': ax.n1, p + '2min': ax.lo2, p + '2max': ax.hi2, p + '2grid': ax.n2,
                         p + 'pixlen': m})
        n1 = axs[0].n1
        for a in axs[1:]:
            n1 = mul(n1, a.n1)
        f1 = V.array('f1', n1)
        F = fort(V, 'remap_%dd_grid2grid' % dim, 'remap_1d_grid2grid_pixel', 'pix1dto%dd' % dim)
        F.axes = axs
        V.ctx.plain_sums = True     # (sums are compared where the proof says so only)
        for p, ax in zip(names, axs):
            ax.abstract(V, p)

        def post(o):
            idx = [V.int('i' + p, 0) for p in names]
            with V.when(land(*[cmp('<', i, a.n2) for i, a in zip(idx, axs)])):
                q = flat(idx, [a.n2 for a in axs])
                got = o['f2'](add(q, 1))
                got = F.iteration(got, *[add(i, 1) for i in idx])
                for s in sums_of(K.lift(got)):
                    reduce_sum(V, s, axs, ms, idx, f1.at, [])
                V.same('mean weighted by overlap', got, target(axs, idx, f1.at, []))
        F.verify('remap_%dd_grid2grid' % dim, vals, dict(f1=lambda j: f1.at(sub(j, 1))), post=post)


kernel(2)
kernel(3)
