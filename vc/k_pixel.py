"""C10, C17-C20, C25: HEALPix plane, pixel numbers, centers, boundaries, neighbours and points in a pixel."""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from .k_coords import kinds, pointwise, several, TWOPI, HALF, sq

HP = 'magpie.coords.healpix.'
QPI = lambda: mul(Fraction(1, 4), K.PI())
HPI = lambda: mul(Fraction(1, 2), K.PI())
REJECT = ('AssertionError', 'ValueError')


# ------------------------------------------------------------------ C10
def spec_plane(phi, th):
    """the HEALPix projection"""
    z = K.cos(th)
    az = K.absv(z)
    eq = cmp('<=', az, Fraction(2, 3))
    s = sub(2, strip(K.sqrt(mul(3, sub(1, az)))))
    phit = K.mod(phi, HPI())
    x = ite(eq, phi, sub(phi, mul(sub(s, 1), sub(phit, QPI()))))
    y = ite(eq, mul(mul(Fraction(3, 8), K.PI()), z), mul(K.sign(z), mul(QPI(), s)))
    return x, y


def z_of(y):
    """cos(theta) at height y"""
    ay = K.absv(y)
    t = sub(2, K.div(mul(4, ay), K.PI()))
    return ite(cmp('<=', ay, QPI()), K.div(mul(8, y), mul(3, K.PI())), mul(K.sign(y), sub(1, mul(Fraction(1, 3), sq(t)))))


def at_pole(y):
    return cmp('==', K.absv(y), HPI())


def spec_angle(x, y):
    ay = K.absv(y)
    a = sub(K.div(mul(4, ay), K.PI()), 1)
    k = K.floor(K.div(mul(2, x), K.PI()))
    phi = ite(cmp('<=', ay, QPI()), x, Sym(K.lift(sub(x, mul(mul(QPI(), a), add(mul(2, k), 1)))) / K.lift(sub(1, a))))
    return phi, strip(K.acos(z_of(y)))


@stub(HP + 'healpix_ang2xy')
def s_ang2xy(V, env):
    return several(spec_plane, 2, [env['phi'], env['theta']], [])


@stub(HP + 'healpix_xy2ang')
def s_xy2ang(V, env):
    """at the poles phi is some number"""
    F = K.CTX.fresh_fun('polephi', K.R, K.R, K.R)

    def f(x, y):
        p, t = spec_angle(x, y)
        return ite(at_pole(y), Sym(F(K.lift(x), K.lift(y))), p), t
    args = [env['healx'], env['healy']]
    return several(f, 2, args, [])


def in_band(y):
    return land(cmp('<=', y, HPI()), cmp('>=', y, K.neg(HPI())))


for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        (phi, th), dims = kinds(V, kind, 'phi', 'theta')

        def check(res, arg):
            x, y = spec_plane(*arg)
            V.same('x of the projection', res[0], x)
            V.same('y of the projection', res[1], y)
        V.run(HP + 'healpix_ang2xy', [phi, th], post=lambda q: pointwise(V, q, [phi, th], dims, ['x', 'y'], check))
    task('C10', name='healpix_ang2xy[%s]' % kind)(t)

    def t(V, kind=kind):
        (x, y), dims = kinds(V, kind, 'x', 'y')
        if dims is None:
            V.assume(in_band(y))
        else:
            V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], dims[0])), in_band(y.at(ix[0]))))

        def check(res, arg):
            x, y = arg
            phi, th = spec_angle(x, y)
            z = z_of(y)
            V.defined('theta is a number', res[1])
            V.defined('phi is a number', res[0])
            V.lemma('the height on the sphere is at most 1', land(cmp('<=', z, 1), cmp('>=', z, -1)))
            r = K.div(mul(4, y), K.PI())
            V.lemma('sign of 4 y/pi', land(cmp('==', cmp('>', r, 0), cmp('>', y, 0)), cmp('==', cmp('<', r, 0), cmp('<', y, 0))))
            V.lemma('|4 y/pi|', cmp('==', K.absv(r), K.div(mul(4, K.absv(y)), K.PI())))
            belt = cmp('<=', K.absv(y), QPI())
            for nm, c in (('belt', belt), ('northern cap', land(lnot(belt), cmp('>', y, 0))), ('southern cap', land(lnot(belt), cmp('<', y, 0)))):
                with V.when(c):
                    V.lemma('the latitude of the projection, ' + nm, cmp('==', strip(res[1]), th))
            V.ensure('the latitude of the projection', cmp('==', strip(res[1]), th))
            V.ensure('theta in [0, pi]', land(cmp('>=', strip(res[1]), 0), cmp('<=', strip(res[1]), K.PI())))
            with V.when(lnot(at_pole(y))):
                V.ensure('the longitude of the projection', cmp('==', strip(res[0]), phi))
        V.run(HP + 'healpix_xy2ang', [x, y], post=lambda q: pointwise(V, q, [x, y], dims, ['phi', 'theta'], check))
    task('C10', name='healpix_xy2ang[%s]' % kind)(t)


def quadrant_point(V):
    """phi = q pi/2 + t"""
    q = V.int('q', 0, 3)
    t = V.real('t')
    V.assume(land(cmp('>=', t, 0), cmp('<', t, HPI())))
    return q, t


def quotient(V, name, a, unit, q):
    """floor(a / unit) = q, from q unit <= a < (q + 1) unit"""
    V.lemma(name + ': in the interval', land(cmp('<=', mul(q, unit), a), cmp('<', a, mul(add(q, 1), unit))))
    r = K.div(a, unit)
    V.algebra(name + ': quotient', land(cmp('<=', q, r), cmp('<', r, add(q, 1))), cmp('>', unit, 0), cmp('<=', mul(q, unit), a), cmp('<', a, mul(add(q, 1), unit)))
    return V.lemma(name, cmp('==', K.floor_int(r), q))


@task('C10', name='angles to the plane and back')
def t(V):
    V.use(HP + 'healpix_ang2xy', HP + 'healpix_xy2ang')
    q, t = quadrant_point(V)
    phi = add(mul(K.toreal_s(q), HPI()), t)
    th = V.real('theta')
    V.assume(land(cmp('>', th, 0), cmp('<', th, K.PI())))
    z = K.cos(th)
    az = K.absv(z)

    def go():
        x, y = V.call(HP + 'healpix_ang2xy', [phi, th])
        return x, y, V.call(HP + 'healpix_xy2ang', [x, y])

    def post(r):
        x, y, (p2, t2) = r
        x, y = strip(x), strip(y)
        V.lemma('z is inside', land(cmp('<', z, 1), cmp('>', z, -1)))
        V.lemma('quadrant of phi', cmp('==', K.floor_int(K.div(phi, HPI())), q))
        s = strip(K.sqrt(mul(3, sub(1, az))))
        V.lemma('s', land(cmp('>', s, 0), cmp('==', mul(s, s), mul(3, sub(1, az)))))
        with V.when(cmp('<=', az, Fraction(2, 3))):
            V.lemma('in the belt', cmp('<=', K.absv(y), QPI()))
            V.lemma('height in the belt', cmp('==', z_of(y), z))
            V.ensure('phi in the belt', cmp('==', strip(p2), phi))
        with V.when(cmp('>', az, Fraction(2, 3))):
            V.lemma('s below 1', cmp('<', s, 1))
            V.lemma('|y| in a cap', cmp('==', K.absv(y), mul(QPI(), sub(2, s))))
            V.lemma('in a cap', cmp('>', K.absv(y), QPI()))
            V.lemma('below the pole', cmp('<', K.absv(y), HPI()))
            V.lemma('sign of y', cmp('==', K.sign(y), K.sign(z)))
            V.lemma('4|y|/pi', cmp('==', K.div(mul(4, K.absv(y)), K.PI()), sub(2, s)))
            V.lemma('height in a cap', cmp('==', z_of(y), z))
            qq = K.toreal_s(q)
            V.lemma('x in a cap', cmp('==', x, sub(phi, mul(sub(1, s), sub(t, QPI())))))
            V.algebra('x in its quadrant', land(cmp('<=', mul(qq, HPI()), x), cmp('<', x, mul(add(qq, 1), HPI()))),
                      cmp('==', x, sub(phi, mul(sub(1, s), sub(t, QPI())))), land(cmp('>=', t, 0), cmp('<', t, HPI())), land(cmp('>', s, 0), cmp('<', s, 1)), cmp('==', phi, add(mul(qq, HPI()), t)))
            V.lemma('quadrant of x', cmp('==', K.floor_int(K.div(mul(2, x), K.PI())), q))
            V.ensure('phi in a cap', cmp('==', strip(p2), phi))
        V.ensure('theta', cmp('==', strip(t2), th))
    V.run(go, [], name='there and back', post=post)


@task('C10', name='plane to the angles and back')
def t(V):
    V.use(HP + 'healpix_ang2xy', HP + 'healpix_xy2ang')
    # a point of the pattern: u is the offset from the middle of the quadrant, below pi/4 (1 - a)
    q = V.int('q', 0, 3)
    x, y = V.real('x'), V.real('y')
    qq = K.toreal_s(q)
    ay = K.absv(y)
    V.assume(land(cmp('<=', mul(qq, HPI()), x), cmp('<', x, mul(add(qq, 1), HPI()))))
    a = sub(K.div(mul(4, ay), K.PI()), 1)
    w = sub(1, a)
    u = sub(x, mul(add(mul(2, qq), 1), QPI()))
    V.assume(cmp('<', ay, HPI()))
    V.assume(implies(cmp('>', ay, QPI()), land(cmp('<', u, mul(QPI(), w)), cmp('>=', u, K.neg(mul(QPI(), w))))))

    def go():
        p, t = V.call(HP + 'healpix_xy2ang', [x, y])
        return p, t, V.call(HP + 'healpix_ang2xy', [p, t])

    def post(r):
        p, t, (x2, y2) = r
        p, t = strip(p), strip(t)
        z = z_of(y)
        V.lemma('quadrant of x', cmp('==', K.floor_int(K.div(mul(2, x), K.PI())), q))
        V.lemma('z is inside', land(cmp('<=', z, 1), cmp('>=', z, -1)))
        V.lemma('cos theta', cmp('==', K.cos(t), z))
        with V.when(cmp('<=', ay, QPI())):
            V.lemma('in the belt', cmp('<=', K.absv(z), Fraction(2, 3)))
            V.ensure('x in the belt', cmp('==', strip(x2), x))
            V.ensure('y in the belt', cmp('==', strip(y2), y))
        with V.when(cmp('>', ay, QPI())):
            V.lemma('1 - a', land(cmp('>', w, 0), cmp('<', w, 1)))
            V.lemma('|z| in a cap', cmp('==', K.absv(z), sub(1, mul(Fraction(1, 3), sq(w)))))
            V.lemma('beyond the belt', cmp('>', K.absv(z), Fraction(2, 3)))
            V.lemma('sign of z', cmp('==', K.sign(z), K.sign(y)))
            s = strip(K.sqrt(mul(3, sub(1, K.absv(K.cos(t))))))
            V.lemma('s', cmp('==', s, w))
            V.lemma('phi from the middle of the quadrant', cmp('==', mul(w, sub(p, mul(add(mul(2, qq), 1), QPI()))), u))
            v = sub(p, mul(add(mul(2, qq), 1), QPI()))
            V.algebra('phi in its quadrant', land(cmp('<', v, QPI()), cmp('>=', v, K.neg(QPI()))),
                      cmp('==', mul(w, v), u), land(cmp('<', u, mul(QPI(), w)), cmp('>=', u, K.neg(mul(QPI(), w)))), cmp('>', w, 0))
            V.lemma('quadrant of phi', cmp('==', K.floor_int(K.div(p, HPI())), q))
            V.ensure('x in a cap', cmp('==', strip(x2), x))
            V.lemma('4|y|/pi', cmp('==', mul(K.PI(), sub(2, w)), mul(4, ay)))
            V.ensure('y in a cap', cmp('==', strip(y2), y))
    V.run(go, [], name='there and back', post=post)


# ------------------------------------------------------------------ C17
# A pixel is the jth of ring i; the rings have 4 min(i, nside, 4 nside - i) pixels, one after the other.
IDX = 'magpie.pixel.healpix_index.'


def ring_len(ns, i):
    return mul(4, K.minv(K.minv(i, ns), sub(mul(4, ns), i)))


def ring_start(ns, i):
    k = sub(mul(4, ns), i)
    return ite(cmp('<=', i, ns), mul(2, mul(i, sub(i, 1))),
               ite(cmp('<=', i, mul(3, ns)), add(mul(2, mul(ns, sub(ns, 1))), mul(mul(4, ns), sub(i, ns))),
                   sub(mul(12, mul(ns, ns)), mul(2, mul(k, add(k, 1))))))


def in_ring(ns, i, j):
    return land(cmp('>=', i, 1), cmp('<', i, mul(4, ns)), cmp('>=', j, 1), cmp('<=', j, ring_len(ns, i)))


def number(ns, i, j):
    return add(ring_start(ns, i), sub(j, 1))


@task('C17', name='the rings follow each other')
def t(V):
    ns, i = V.int('nside', 1), V.int('i', 1)
    V.assume(cmp('<', i, mul(4, ns)))

    def post(_):
        V.same('the first ring starts at 0', ring_start(ns, 1), 0)
        with V.when(cmp('<', i, sub(mul(4, ns), 1))):
            V.same('the next ring starts behind the last pixel', ring_start(ns, add(i, 1)), add(ring_start(ns, i), ring_len(ns, i)))
        last = sub(mul(4, ns), 1)
        V.same('the last ring ends at 12 nside^2', add(ring_start(ns, last), ring_len(ns, last)), mul(12, mul(ns, ns)))
        V.ensure('rings are not empty', cmp('>=', ring_len(ns, i), 1))
    V.run(lambda: None, [], name='rings', post=post)


def rsq(x):
    return mul(x, x)


def cap_ring(x):
    """the ring that the code computes from ph = x"""
    return add(K.floor_int(K.sqrt(sub(x, strip(K.sqrt(K.floor(x)))))), 1)


def root_arg(x):
    return sub(x, strip(K.sqrt(K.floor(x))))


def cap_lemma(V):
    """m >= 1 and 2 m (m - 1) + 1 <= N <= 2 m (m + 1): floor(sqrt(N/2 - sqrt(floor(N/2)))) + 1 = m"""
    def proof(m, N):
        M = K.toreal_s(m)
        ph = K.div(K.toreal_s(N), 2)
        f, fi = K.floor(ph), K.floor_int(ph)
        lo, hi = mul(m, sub(m, 1)), mul(m, add(m, 1))
        half = V.derive('2 ph is an integer', land(cmp('<=', f, ph), cmp('<=', ph, add(f, HALF))))
        ii = V.lemma('floor, above', lor(cmp('<=', fi, sub(hi, 1)), land(cmp('==', fi, hi), cmp('==', ph, f))))
        jj = V.lemma('floor, below', lor(cmp('>=', fi, add(lo, 1)), land(cmp('==', fi, lo), cmp('==', ph, add(f, HALF)))))
        s = strip(K.sqrt(f))
        m1 = V.lemma('m', cmp('>=', M, 1))
        V.derive('floor is not negative', cmp('>=', fi, 0), jj, cmp('>=', m, 1))
        root = V.lemma('root', land(cmp('>=', s, 0), cmp('==', rsq(s), f)))
        L, H = mul(M, sub(M, 1)), mul(M, add(M, 1))
        up = V.algebra('floor, above (real)', lor(cmp('<=', f, sub(H, 1)), land(cmp('==', f, H), cmp('==', ph, f))), ii)
        dn = V.algebra('floor, below (real)', lor(cmp('>=', f, add(L, 1)), land(cmp('==', f, L), cmp('==', ph, add(f, HALF)))), jj)
        g = sub(ph, s)
        V.algebra('below m^2', cmp('<', g, rsq(M)), root, half, up, m1)
        V.algebra('at least (m-1)^2', cmp('>=', g, rsq(sub(M, 1))), root, half, dn, m1)
        V.algebra('not negative', cmp('>=', g, 0), cmp('>=', g, rsq(sub(M, 1))))
        r = strip(K.sqrt(g))
        rr = V.lemma('second root', land(cmp('>=', r, 0), cmp('==', rsq(r), g)))
        V.algebra('second root is within [m - 1, m)', land(cmp('>=', r, sub(M, 1)), cmp('<', r, M)),
                  rr, cmp('<', g, rsq(M)), cmp('>=', g, rsq(sub(M, 1))), m1)
    ph = lambda N: K.div(K.toreal_s(N), 2)
    return V.lemma_fn('ring of a cap', 'ii', lambda m, N: land(cmp('>=', m, 1), cmp('>=', N, add(mul(2, mul(m, sub(m, 1))), 1)), cmp('<=', N, mul(2, mul(m, add(m, 1))))),
                      lambda m, N: land(cmp('==', K.floor_int(strip(K.sqrt(root_arg(ph(N))))), sub(m, 1)), cmp('>=', K.floor_int(ph(N)), 0), cmp('>=', root_arg(ph(N)), 0)),
                      proof)


def quotient_lemma(V):
    """d > 0 and q d <= a < (q + 1) d: floor(a/d) = q and a mod d = a - q d"""
    def proof(a, d, q):
        A, D, Q = [K.toreal_s(v) for v in (a, d, q)]
        x = K.div(A, D)
        V.algebra('quotient', land(cmp('<=', Q, x), cmp('<', x, add(Q, 1))), cmp('>', D, 0), cmp('<=', mul(Q, D), A), cmp('<', A, mul(add(Q, 1), D)))
    return V.lemma_fn('quotient', 'iii', lambda a, d, q: land(cmp('>', d, 0), cmp('<=', mul(q, d), a), cmp('<', a, mul(add(q, 1), d))),
                      lambda a, d, q: cmp('==', K.floor_int(K.div(K.toreal_s(a), K.toreal_s(d))), q), proof)


def square_lemma(V):
    """1 <= a <= b: a (a + 1) <= b (b + 1)"""
    return V.lemma_fn('monotone', 'ii', lambda a, b: land(cmp('>=', a, 0), cmp('<=', a, b)), lambda a, b: cmp('<=', mul(a, add(a, 1)), mul(b, add(b, 1))))


def region_lemma(V):
    """which formula of the code serves which rings"""
    mono = square_lemma(V)
    pre = lambda ns, i, j: land(cmp('>=', ns, 1), in_ring(ns, i, j))

    def post(ns, i, j):
        p = number(ns, i, j)
        k = sub(mul(4, ns), i)
        north = cmp('<=', p, mul(mul(2, ns), add(ns, 1)))
        south = cmp('>=', p, mul(mul(2, ns), sub(mul(5, ns), 1)))
        return land(cmp('==', north, lor(cmp('<=', i, ns), land(cmp('==', i, add(ns, 1)), cmp('==', j, 1)))),
                    cmp('==', south, cmp('<=', k, ns)), cmp('>=', p, 0), cmp('<', p, mul(12, mul(ns, ns))))

    def proof(ns, i, j):
        k = sub(mul(4, ns), i)
        p = number(ns, i, j)
        a = lambda n: mul(n, add(n, 1))
        with V.when(cmp('<=', i, ns)):
            mono(i, ns, what='north')
            V.lemma('north', land(cmp('>=', p, 0), cmp('<', p, mul(2, a(ns))), cmp('<=', mul(2, a(ns)), mul(mul(2, ns), sub(mul(5, ns), 1)))) if False else
                    land(cmp('>=', p, 0), cmp('<', p, mul(2, a(ns)))))
            V.lemma('north of the belt', cmp('<', p, mul(mul(2, ns), sub(mul(5, ns), 1))))
        with V.when(land(cmp('>', i, ns), cmp('>', k, ns))):
            e = sub(i, sub(ns, 0))
            V.lemma('belt: number', cmp('==', p, add(add(mul(2, mul(ns, sub(ns, 1))), mul(mul(4, ns), e)), sub(j, 1))))
            V.lemma('belt: product', land(cmp('>=', mul(ns, e), ns), cmp('<=', mul(ns, e), mul(ns, sub(mul(2, ns), 1)))))
            V.lemma('belt: from', cmp('>=', p, mul(2, a(ns))))
            V.lemma('belt: to', cmp('<', p, mul(mul(2, ns), sub(mul(5, ns), 1))))
        with V.when(cmp('<=', k, ns)):
            mono(k, ns, what='south')
            V.lemma('south: number', cmp('==', p, add(sub(mul(12, mul(ns, ns)), mul(2, a(k))), sub(j, 1))))
            V.lemma('south: from', cmp('>=', p, mul(mul(2, ns), sub(mul(5, ns), 1))))
            V.lemma('south: index', cmp('<=', j, mul(4, k)))
            V.lemma('south: product', cmp('>=', mul(k, k), k))
            V.lemma('south: to', cmp('<', p, mul(12, mul(ns, ns))))
            V.lemma('south: after the north', cmp('>', p, mul(2, a(ns))))
        V.lemma('not negative', cmp('>=', p, 0))
    return V.lemma_fn('regions', 'iii', pre, post, proof)


class RingLemmas(object):
    def __init__(self, V):
        self.V = V
        self.cap, self.quot, self.region = cap_lemma(V), quotient_lemma(V), region_lemma(V)

    def regions(self, ns, p):
        north = cmp('<=', p, mul(mul(2, ns), add(ns, 1)))
        south = cmp('>=', p, mul(mul(2, ns), sub(mul(5, ns), 1)))
        return [('north', land(north, lnot(south))), ('both', land(north, south)), ('belt', land(lnot(north), lnot(south))), ('south', land(lnot(north), south))]

    def __call__(self, ns, i, j, p):
        """p = number(ns, i, j); returns what is known in each region, for the algebra that follows"""
        V = self.V
        self.region(ns, i, j)
        north = cmp('<=', p, mul(mul(2, ns), add(ns, 1)))
        south = cmp('>=', p, mul(mul(2, ns), sub(mul(5, ns), 1)))
        k = sub(mul(4, ns), i)
        V.lemma('range of p', land(cmp('>=', p, 0), cmp('<', p, mul(12, mul(ns, ns)))))
        know = {'north': [], 'south': [], 'belt': []}
        with V.when(north):
            a = V.lemma('north: ring', lor(cmp('<=', i, ns), land(cmp('==', i, add(ns, 1)), cmp('==', j, 1))))
            b = V.lemma('north: number', cmp('==', p, add(mul(2, mul(i, sub(i, 1))), sub(j, 1))))
            c = V.lemma('north: index', land(cmp('>=', j, 1), cmp('<=', j, mul(4, i))))
            know['north'] = [b, self.cap(i, add(p, 1), what='north'), north]
        with V.when(south):
            a = V.lemma('south: ring', land(cmp('<=', k, ns), cmp('>=', k, 1)))
            N = sub(mul(12, mul(ns, ns)), p)
            b = V.lemma('south: number', cmp('==', N, sub(mul(2, mul(k, add(k, 1))), sub(j, 1))))
            V.lemma('south: index', land(cmp('>=', j, 1), cmp('<=', j, mul(4, k))))
            know['south'] = [b, self.cap(k, N, what='south'), south]
        with V.when(land(lnot(north), lnot(south))):
            V.lemma('belt: ring', land(cmp('>', i, ns), cmp('<', i, mul(3, ns))))
            pd = sub(p, mul(mul(2, ns), sub(ns, 1)))
            b = V.lemma('belt: number', cmp('==', pd, add(mul(mul(4, ns), sub(i, ns)), sub(j, 1))))
            V.lemma('belt: index', land(cmp('>=', j, 1), cmp('<=', j, mul(4, ns))))
            know['belt'] = [b, self.quot(pd, mul(4, ns), sub(i, ns), what='belt'), lnot(north), lnot(south)]
        know['both'] = know['north'] + know['south']
        know['north'] = know['north'] + [lnot(south)]
        know['south'] = know['south'] + [lnot(north)]
        return know


def ring_result(V, know, lem, ns, p, i, j, ri, rj):
    for nm, c in lem.regions(ns, p):
        with V.when(c):
            V.lemma('ring, ' + nm, cmp('==', strip(ri), i))
            V.lemma('index in the ring, ' + nm, cmp('==', strip(rj), j))


def ring_case(V, kind):
    ns = V.int('nside', 1)
    if kind == 'scalar':
        i, j = V.int('ring', 1), V.int('index', 1)
        V.assume(in_ring(ns, i, j))
        return ns, None, i, j, number(ns, i, j)
    n = V.int('n', 0)
    gi, gj = V.array('ring', n, dtype='i'), V.array('index', n, dtype='i')
    V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)), in_ring(ns, gi.at(ix[0]), gj.at(ix[0]))))
    p = Arr(Buf([n], lambda idx: number(ns, gi.at(idx[0]), gj.at(idx[0])), 'i'))
    V.ctx.readonly[id(p.buf)] = 'argument p'
    return ns, n, gi, gj, p


def is_int(V, name, v):
    V.ensure(name + ' is an integer', (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.t.sort() == K.I))


for kind in ('scalar', '1d'):
    @task('C17', name='healpix_pix2ij[%s]' % kind)
    def t(V, kind=kind):
        ns, n, i, j, p = ring_case(V, kind)
        lem = RingLemmas(V)
        if kind == 'scalar':
            p0 = V.int('p')
            V.assume(cmp('==', p0, p))
            know = lem(ns, i, j, p0)

            def post(r):
                V.ensure('2 values', len(r) == 2)
                ring_result(V, know, lem, ns, p0, i, j, r[0], r[1])
                V.same('ring', r[0], i)
                V.same('index in the ring', r[1], j)
                is_int(V, 'ring', r[0])
                is_int(V, 'index in the ring', r[1])
            V.run(IDX + 'healpix_pix2ij', [p0, ns], post=post)
            return
        P = V.array('p', n, dtype='i')

        def post(r):
            V.ensure('2 values', len(r) == 2)
            if not (V.shape('ring', r[0], [n], 'i') and V.shape('index in the ring', r[1], [n], 'i')):
                return
            with V.forall(n) as (k,):
                ii, jj, pp = i.at(k), j.at(k), P.at(k)
                V.fact(cmp('==', pp, p.at(k)))
                V.fact(in_ring(ns, ii, jj))
                ring_result(V, lem(ns, ii, jj, pp), lem, ns, pp, ii, jj, r[0].at(k), r[1].at(k))
                V.same('ring', r[0].at(k), ii)
                V.same('index in the ring', r[1].at(k), jj)
        V.run(IDX + 'healpix_pix2ij', [P, ns], post=post)

    @task('C17', name='healpix_ij2pix[%s]' % kind)
    def t(V, kind=kind):
        ns, n, i, j, p = ring_case(V, kind)

        def post(r):
            if kind == 'scalar':
                V.same('pixel number', r, p)
                is_int(V, 'pixel number', r)
            elif V.shape('pixel number', r, [n], 'i'):
                with V.forall(n) as (k,):
                    V.same('pixel number', r.at(k), p.at(k))
        V.run(IDX + 'healpix_ij2pix', [i, j, ns], post=post)
