"""C21: outlines of shapes."""
import z3
from .verify import *
from . import core as K
from .k_index import frac

SH = 'magpie.pixel.basic_shapes.'


def corners_of(q):
    xa, xb, ya, yb = q
    return [((xa, ya), (xb, ya)), ((xb, ya), (xb, yb)), ((xb, yb), (xa, yb)), ((xa, yb), (xa, ya))]


def along(p, q, f):
    return tuple(add(a, mul(f, sub(b, a))) for a, b in zip(p, q))


def square_at(q, m, k):
    """point k of the outline with m points on each side"""
    r = None
    for s, (p, e) in reversed(list(enumerate(corners_of(q)))):
        v = along(p, e, frac(sub(k, mul(s, m)), m))
        r = v if r is None else tuple(ite(cmp('<', k, mul(s + 1, m)), a, b) for a, b in zip(v, r))
    return r


def side_check(V, name, r, q, m, want):
    """the points of each side, and the corners; want(x, y) turns a point of the rectangle into that of the shape"""
    n = mul(4, m)
    V.ensure('2 values', len(r) == 2)
    if not (V.shape(name + ' x', r[0], [n], 'f') and V.shape(name + ' y', r[1], [n], 'f')):
        return
    with V.forall(m) as (o,):
        for s, (p, e) in enumerate(corners_of(q)):
            k = add(mul(s, m), o)
            w = want(*along(p, e, frac(o, m)))
            for c in (0, 1):
                V.same('%s: side %d, coordinate %d' % (name, s, c), V.resolve(r[c].at(k)), w[c])
    for s, (p, e) in enumerate(corners_of(q)):
        w = want(*p)
        for c in (0, 1):
            V.same('%s: corner %d, coordinate %d' % (name, s, c), V.resolve(r[c].at(mul(s, m))), w[c])


def limits4(V):
    q = [V.real(n) for n in ('xmin', 'xmax', 'ymin', 'ymax')]
    return q


@task('C21', name='get_square')
def t(V):
    q, m = limits4(V), V.int('m', 1)
    st = V.int('steps')
    V.assume(cmp('==', st, mul(4, m)))
    V.run(SH + 'get_square', q + [st], post=lambda r: side_check(V, 'outline', r, q, m, lambda x, y: (x, y)))


@task('C21', name='get_square rejects other numbers of steps')
def t(V):
    q, n = limits4(V), V.int('steps')

    def post(r):
        V.ensure('accepted', land(cmp('==', K.mod(n, 4), 0), cmp('>', n, 0)))
    V.run(SH + 'get_square', q + [n], post=post, raises=lambda e: land(e.kind in ('AssertionError', 'ValueError'), lor(cmp('!=', K.mod(n, 4), 0), cmp('<=', n, 0))))


@stub(SH + 'get_square')
def s_square(V, env):
    q = [env[n] for n in ('xmin', 'xmax', 'ymin', 'ymax')]
    n = env['steps']
    V.require('steps', land(cmp('>', n, 0), cmp('==', K.mod(n, 4), 0)))
    m = K.floordiv(n, 4)
    return tuple(Arr(Buf([n], lambda idx, c=c: square_at(q, m, idx[0])[c], 'f')) for c in (0, 1))


def polar_of(c):
    return lambda r, p: (add(mul(r, K.cos(p)), c[0]), add(mul(r, K.sin(p)), c[1]))


for how in ('given', 'default'):
    @task('C21', name='get_disc[%s]' % how)
    def t(V, how=how):
        m = V.int('m', 1)
        st = V.int('steps')
        V.assume(cmp('==', st, mul(4, m)))
        V.use(SH + 'get_square', 'magpie.coords.conversions.polar2cart')
        if how == 'given':
            q = [V.real(n) for n in ('rmin', 'rmax', 'phimin', 'phimax')]
            c = [V.real('cx'), V.real('cy')]
            V.run(SH + 'get_disc', q, dict(center=c, steps=st), post=lambda r: side_check(V, 'outline', r, q, m, polar_of(c)))
        else:
            q = [0, 1, 0, mul(2, K.PI())]
            V.run(SH + 'get_disc', [], dict(steps=st), post=lambda r: side_check(V, 'outline', r, q, m, polar_of([0, 0])))

    @task('C21', name='get_arc[%s]' % how)
    def t(V, how=how):
        n, R = V.int('steps', 1), V.real('radius')
        V.use('magpie.coords.conversions.polar2cart')
        c, lo, hi, kw = [0, 0], 0, mul(2, K.PI()), dict(steps=n)
        if how == 'given':
            lo, hi, c = V.real('phimin'), V.real('phimax'), [V.real('cx'), V.real('cy')]
            kw.update(phimin=lo, phimax=hi, center=c)

        def post(r):
            V.ensure('2 values', len(r) == 2)
            if V.shape('x', r[0], [n], 'f') and V.shape('y', r[1], [n], 'f'):
                with V.forall(n) as (k,):
                    w = polar_of(c)(R, add(lo, mul(frac(k, n), sub(hi, lo))))
                    V.same('x', r[0].at(k), w[0])
                    V.same('y', r[1].at(k), w[1])
        V.run(SH + 'get_arc', [R], kw, post=post)


@task('C21', name='get_box')
def t(V):
    q = [V.real(n) for n in ('xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax')]
    m, st = V.int('m', 1), V.int('steps')
    V.assume(cmp('==', st, mul(12, m)))

    def post(r):
        V.ensure('3 values', len(r) == 3)
        if not all(V.shape('coordinates', c, [12, m], 'f') for c in r):
            return
        # the twelve edges: one coordinate runs from its minimum to its maximum, the others are at a limit
        edges = []
        for ax in range(3):
            o = [k for k in range(3) if k != ax]
            for u in (0, 1):
                for v in (0, 1):
                    s = [None] * 3
                    s[ax] = (q[2 * ax], q[2 * ax + 1])
                    s[o[0]] = (q[2 * o[0] + u],) * 2
                    s[o[1]] = (q[2 * o[1] + v],) * 2
                    edges.append(s)
        with V.forall(m) as (k,):
            f = frac(k, m)
            for n, s in enumerate(edges):
                w = [add(a, mul(f, sub(b, a))) for a, b in s]
                V.ensure('edge %d' % n, lor(*[land(*[cmp('==', strip(r[c].at(e, k)), w[c]) for c in range(3)]) for e in range(12)]))
            for e in range(12):
                V.ensure('row %d is an edge' % e, lor(*[land(*[cmp('==', strip(r[c].at(e, k)), add(s[c][0], mul(f, sub(s[c][1], s[c][0])))) for c in range(3)]) for s in edges]))
    V.run(SH + 'get_box', q, dict(steps=st), post=post)
    K.CTX.path[:] = []
    n = V.int('bad')

    def post(r):
        V.ensure('accepted', land(cmp('==', K.mod(n, 12), 0), cmp('>', n, 0)))
    V.run(SH + 'get_box', q, dict(steps=n), post=post, raises=lambda e: land(e.kind in ('AssertionError', 'ValueError'), lor(cmp('!=', K.mod(n, 12), 0), cmp('<=', n, 0))), name='get_box rejects')
