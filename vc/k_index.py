"""C18, C19, C25: pixel centers, dash and star indices, boundaries of pixels and random points in a pixel.

A pixel is given by its ring i, a quadrant k and a place jj in the quadrant: j = k m + jj + 1, where m is a
quarter of the ring; every pixel of every ring is of this form.
"""
from fractions import Fraction
import z3
from .verify import *
from . import core as K
from . import solve
from .k_coords import TWOPI, HALF, sq
from .k_pixel import HP, IDX, QPI, HPI, REJECT, z_of, spec_angle, in_ring, number, quotient_lemma, is_int, ring_len
from .k_randoms import draws_in

BND = 'magpie.pixel.healpix_boundary.'


def quarter(ns, i):
    return K.minv(K.minv(i, ns), sub(mul(4, ns), i))


def in_pattern(ns, i, k, jj):
    return land(cmp('>=', i, 1), cmp('<', i, mul(4, ns)), cmp('>=', k, 0), cmp('<=', k, 3), cmp('>=', jj, 0), cmp('<', jj, quarter(ns, i)))


def jof(ns, i, k, jj):
    return add(add(mul(k, quarter(ns, i)), jj), 1)


def half_shift(ns, i):
    """1 on the rings of the belt whose first pixel is half a pixel from phi = 0"""
    d = sub(i, ns)
    return sub(1, K.mod(d, 2))


def jdash_spec(ns, i, k, jj):
    m = quarter(ns, i)
    belt = land(cmp('>', i, ns), cmp('<', i, mul(3, ns)))
    cap = add(add(mul(ns, k), jj), K.div(add(1, sub(ns, m)), 2))
    return ite(belt, add(add(mul(ns, k), jj), K.div(half_shift(ns, i), 2)), cap)


def idash_spec(ns, i):
    return sub(ns, K.div(i, 2))


class Pix(object):
    """an arbitrary pixel, or an array of them"""
    def __init__(self, V, kind, star=False):
        self.V, self.kind = V, kind
        self.ns = ns = V.int('nside', 1)
        if kind == 'scalar':
            self.i, self.k, self.jj = V.int('ring'), V.int('quadrant'), V.int('place')
            V.assume(in_pattern(ns, self.i, self.k, self.jj))
            self.j = V.int('index')
            V.assume(cmp('==', self.j, jof(ns, self.i, self.k, self.jj)))
            self.n = None
        else:
            self.n = n = V.int('n', 0)
            self.i, self.k, self.jj, self.j = [V.array(nm, n, dtype='i') for nm in ('ring', 'quadrant', 'place', 'index')]
            V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)),
                                                land(in_pattern(ns, *self.at(ix[0])[:3]), cmp('==', self.j.at(ix[0]), jof(ns, *self.at(ix[0])[:3])))))

    def at(self, x):
        return self.i.at(x), self.k.at(x), self.jj.at(x), self.j.at(x)

    def stub(self, env):
        """healpix_pix2ij, under its contract: the ring and index of the pixels whose numbers these are"""
        V = self.V
        p, ns = env['p'], env['nside']
        V.require('nside', cmp('==', ns, self.ns))
        if self.kind == 'scalar':
            V.require('the number is that of the pixel', cmp('==', p, number(self.ns, self.i, self.j)))
            return self.i, self.j
        V.require('an array of pixels', isinstance(p, Arr) and p.ndim == 1)
        V.require('one number for each pixel', cmp('==', p.shape()[0], self.n))
        with V.forall(self.n) as (x,):
            i, k, jj, j = self.at(x)
            V.require('the numbers are those of the pixels', cmp('==', p.at(x), number(self.ns, i, j)))
        return Arr(Buf([self.n], lambda idx: self.i.at(idx[0]), 'i')), Arr(Buf([self.n], lambda idx: self.j.at(idx[0]), 'i'))

    def numbers(self):
        V = self.V
        if self.kind == 'scalar':
            p = V.int('p')
            V.assume(cmp('==', p, number(self.ns, self.i, self.j)))
            return p
        p = V.array('p', self.n, dtype='i')
        V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], self.n)), cmp('==', p.at(ix[0]), number(self.ns, self.i.at(ix[0]), self.j.at(ix[0])))))
        return p

    def each(self, name, r, dtype, f, prep=None):
        """f(value, i, k, jj, j) for every pixel"""
        V = self.V
        if self.kind == 'scalar':
            if not K.is_scalar(r):
                V.ensure(name + ' is a number', False)
                return
            f(r, self.i, self.k, self.jj, self.j)
        elif V.shape(name, r, [self.n], dtype):
            with V.forall(self.n) as (x,):
                f(r.at(x), *self.at(x))


def floors_of(V, v, m, k, jj, j):
    """v with the floors that depend on the index replaced by the quadrant, which they are"""
    ids = set(c.get_id() for c in consts_in(K.lift(j)))
    seen = set()
    reps = []
    for a in solve.apps(K.lift(strip(v))):
        if a.decl().name() != 'floor':
            continue
        x = a.arg(0)
        if x.get_id() in seen or not (ids & set(c.get_id() for c in consts_in(x))):
            continue
        seen.add(x.get_id())
        kk = K.toreal_s(k)
        xs = Sym(x)
        V.lemma('quotient', cmp('==', mul(xs, m), sub(j, 1)))
        V.algebra('quotient between', land(cmp('<=', kk, xs), cmp('<', xs, add(kk, 1))), cmp('==', mul(xs, m), sub(j, 1)),
                  cmp('>=', m, 1), cmp('==', sub(j, 1), add(mul(k, m), jj)), cmp('>=', jj, 0), cmp('<', jj, m))
        V.lemma('quadrant', cmp('==', Sym(a), k))
        reps.append((a, K.lift(k)))
    w = strip(v)
    if not reps or not isinstance(w, Sym):
        return w
    w2 = K.mk(z3.simplify(z3.substitute(w.t, *reps)))
    V.derive('with the quadrant', cmp('==', w, w2), *[cmp('==', Sym(a), Sym(b)) for a, b in reps])
    return w2


def jdash_is(V, P, v, i, k, jj, j, value=lambda w: w, want=lambda w: w):
    """value(j dash) is want(its specification), region by region"""
    ns = P.ns
    for nm, c, m in regions(ns, i):
        for par, r in (('even', 0), ('odd', 1)):
            with V.when(land(c, cmp('==', K.mod(ns, 2), r))):
                if V.dead():
                    continue
                w = V.resolve(v)
                sp = jdash_region(ns, i, k, jj, nm, m)
                place = V.lemma('place', cmp('==', sub(j, 1), add(mul(k, m), jj)))
                V.lemma('in the quadrant', land(cmp('>=', m, 1), cmp('>=', jj, 0), cmp('<', jj, m)))
                w2 = floors_of(V, w, m, k, jj, j)
                known = [place]
                for a in solve.apps(K.lift(strip(w2))):
                    if a.decl().name() == 'floor':
                        known.append(V.lemma('half', lor(cmp('==', mul(2, K.toreal_s(Sym(a))), sub(ns, r)))))
                if nm == 'belt':
                    V.lemma('j dash (%s, nside %s)' % (nm, par), cmp('==', w2, sp))
                else:
                    V.algebra('j dash (%s, nside %s)' % (nm, par), cmp('==', w2, sp), *known)
                V.same('j dash (%s, nside %s)' % (nm, par), w, sp)


def jdash_region(ns, i, k, jj, nm, m):
    if nm == 'belt':
        return add(add(mul(ns, k), jj), K.div(half_shift(ns, i), 2))
    return add(add(mul(ns, k), jj), K.div(add(1, sub(ns, m)), 2))


def regions(ns, i):
    return [('north', cmp('<=', i, ns), i), ('belt', land(cmp('>', i, ns), cmp('<', i, mul(3, ns))), ns), ('south', cmp('>=', i, mul(3, ns)), sub(mul(4, ns), i))]


def consts_in(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
    return out


for kind in ('scalar', '1d'):
    @task('C18', name='healpix_j2jd[%s]' % kind)
    def t(V, kind=kind):
        P = Pix(V, kind)

        def f(v, i, k, jj, j):
            jdash_is(V, P, v, i, k, jj, j)
        V.run(IDX + 'healpix_j2jd', [P.i, P.j, P.ns], post=lambda r: P.each('j dash', r, 'f', f))

    @task('C18', name='healpix_i2id[%s]' % kind)
    def t(V, kind=kind):
        P = Pix(V, kind)
        V.run(IDX + 'healpix_i2id', [P.i, P.ns], post=lambda r: P.each('i dash', r, 'f', lambda v, i, k, jj, j: V.same('i dash', v, idash_spec(P.ns, i))))


def jdash_of(ns, i, k, jj):
    """the contract of healpix_j2jd"""
    r = None
    for nm, c, m in reversed(regions(ns, i)):
        s = jdash_region(ns, i, k, jj, nm, m)
        r = s if r is None else ite(c, s, r)
    return r


def s_j2jd(P):
    def f(V, env):
        a, b = env['ringi'], env['ringj']
        V.require('nside', cmp('==', env['nside'], P.ns))
        if P.kind == 'scalar':
            V.require('the ring and index are those of the pixel', land(cmp('==', a, P.i), cmp('==', b, P.j)))
            return jdash_of(P.ns, P.i, P.k, P.jj)
        V.require('arrays', isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 1 and b.ndim == 1)
        V.require('one ring and index for each pixel', land(cmp('==', a.shape()[0], P.n), cmp('==', b.shape()[0], P.n)))
        with V.forall(P.n) as (x,):
            V.require('the rings and indices are those of the pixels', land(cmp('==', a.at(x), P.i.at(x)), cmp('==', b.at(x), P.j.at(x))))
        return Arr(Buf([P.n], lambda idx: jdash_of(P.ns, *P.at(idx[0])[:3]), 'f'))
    return f


def s_pix2xy(P):
    """the contract of healpix_pix2xy"""
    def f(V, env):
        p, ns = env['p'], env['nside']
        V.require('nside', cmp('==', ns, P.ns))
        if P.kind == 'scalar':
            V.require('the number is that of the pixel', cmp('==', p, number(P.ns, P.i, P.j)))
            return center(P, P.i, P.k, P.jj)
        raise Unsupported('arrays of pixels')
    return f


def center(P, i, k, jj):
    f = K.div(K.PI(), mul(2, P.ns))
    return mul(jdash_of(P.ns, i, k, jj), f), mul(idash_spec(P.ns, i), f)


def xy_post(V, P):
    def post(r):
        V.ensure('2 values', len(r) == 2)
        P.each('x', r[0], 'f', lambda v, i, k, jj, j: V.same('x', v, center(P, i, k, jj)[0]))
        P.each('y', r[1], 'f', lambda v, i, k, jj, j: V.same('y', v, center(P, i, k, jj)[1]))
    return post


for kind in ('scalar', '1d'):
    @task('C18', name='healpix_ij2xy[%s]' % kind)
    def t(V, kind=kind):
        P = Pix(V, kind)
        V.stub_with(IDX + 'healpix_j2jd', s_j2jd(P))
        V.run(IDX + 'healpix_ij2xy', [P.i, P.j, P.ns], post=xy_post(V, P))

    @task('C18', name='healpix_pix2xy[%s]' % kind)
    def t(V, kind=kind):
        P = Pix(V, kind)
        V.stub_with(IDX + 'healpix_j2jd', s_j2jd(P))
        V.stub_with(IDX + 'healpix_pix2ij', lambda V, env: P.stub(env))
        V.run(IDX + 'healpix_pix2xy', [P.numbers(), P.ns], post=xy_post(V, P))


@task('C18', name='the centers are those of HEALPix')
def t(V):
    P = Pix(V, 'scalar')
    ns, i, k, jj = P.ns, P.i, P.k, P.jj
    V.use(HP + 'healpix_xy2ang')
    x, y = center(P, i, k, jj)

    def post(r):
        phi, th = strip(r[0]), strip(r[1])
        z = K.cos(th)
        jd = jdash_of(ns, i, k, jj)
        fx = V.lemma('x', cmp('==', mul(mul(2, ns), x), mul(K.PI(), jd)))
        fy = V.lemma('y', cmp('==', mul(mul(2, ns), y), mul(K.PI(), idash_spec(ns, i))))
        ipos = cmp('>=', ns, 1)
        for nm, c, m in regions(ns, i):
            with V.when(c):
                if V.dead():
                    continue
                pi = cmp('>', K.PI(), 3)
                fi = V.lemma('x (%s)' % nm, cmp('==', mul(mul(2, ns), x), mul(K.PI(), jdash_region(ns, i, k, jj, nm, m))))
                V.lemma('jj', land(cmp('>=', jj, 0), cmp('<=', jj, sub(m, 1)), cmp('>=', m, 1)))
                V.lemma('k', land(cmp('>=', k, 0), cmp('<=', k, 3), cmp('<=', m, ns)))
                if nm == 'belt':
                    V.lemma('shift', land(cmp('>=', half_shift(ns, i), 0), cmp('<=', half_shift(ns, i), 1)))
                    jr = jdash_region(ns, i, k, jj, nm, m)
                    V.lemma('x range (belt)', land(cmp('>=', jr, 0), cmp('<', jr, mul(4, ns))))
                    V.algebra('0 <= x < 2 pi', land(cmp('>=', x, 0), cmp('<', x, TWOPI())), fi, land(cmp('>=', jr, 0), cmp('<', jr, mul(4, ns))), pi, ipos)
                    bl = V.lemma('i in the belt', land(cmp('<=', idash_spec(ns, i), K.div(ns, 2)), cmp('>=', idash_spec(ns, i), K.neg(K.div(ns, 2)))))
                    V.algebra('y in the belt', land(cmp('<=', y, QPI()), cmp('>=', y, K.neg(QPI()))), fy, bl, pi, ipos)
                    V.lemma('|y| in the belt', cmp('<=', K.absv(y), QPI()))
                    V.lemma('height', cmp('==', z_of(y), K.div(mul(8, y), mul(3, K.PI()))))
                    V.algebra('height of the ring', cmp('==', K.div(mul(8, y), mul(3, K.PI())), sub(Fraction(4, 3), K.div(mul(2, i), mul(3, ns)))), fy, pi, ipos)
                    V.lemma('within', land(cmp('<=', z_of(y), 1), cmp('>=', z_of(y), -1)))
                    V.ensure('cos theta (belt)', cmp('==', z, sub(Fraction(4, 3), K.div(mul(2, i), mul(3, ns)))))
                    V.same('phi (belt)', r[0], mul(K.div(K.PI(), mul(2, ns)), sub(add(add(mul(k, ns), jj), 1), sub(1, K.div(half_shift(ns, i), 2)))))
                    continue
                jr = jdash_region(ns, i, k, jj, nm, m)
                sg = 1 if nm == 'north' else -1
                M, N, Kk, J = [K.toreal_s(q) for q in (m, ns, k, jj)]
                rng = V.algebra('j dash in its quadrant', land(cmp('>', jr, mul(N, Kk)), cmp('<', jr, mul(N, add(Kk, 1)))),
                                cmp('>=', m, 1), cmp('<=', m, ns), cmp('>=', jj, 0), cmp('<=', jj, sub(m, 1)))
                qd = V.algebra('x in its quadrant', land(cmp('>', mul(2, x), mul(Kk, K.PI())), cmp('<', mul(2, x), mul(add(Kk, 1), K.PI()))), fi, rng, pi, ipos)
                V.algebra('0 <= x < 2 pi (%s)' % nm, land(cmp('>=', x, 0), cmp('<', x, TWOPI())), qd, cmp('>=', k, 0), cmp('<=', k, 3), pi)
                yy = V.algebra('height in the plane (%s)' % nm, cmp('==', mul(mul(4, N), y), mul(sg, mul(K.PI(), sub(mul(2, N), M)))), fy,
                               cmp('==', mul(2, idash_spec(ns, i)), mul(sg, sub(mul(2, ns), m))))
                V.algebra('|y| (%s)' % nm, cmp('==', K.absv(y), mul(sg, y)), yy, cmp('<=', m, ns), ipos, pi, cmp('>=', m, 1))
                ay = mul(sg, y)
                V.algebra('y is not in the belt (%s)' % nm, land(cmp('>=', ay, QPI()), cmp('<', ay, HPI())), yy, cmp('<=', m, ns), ipos, pi, cmp('>=', m, 1))
                V.lemma('not a pole', land(cmp('>=', K.absv(y), QPI()), cmp('<', K.absv(y), HPI())))
                t = K.div(M, N)
                tt = V.algebra('2 - 4 |y| / pi (%s)' % nm, cmp('==', sub(2, K.div(mul(4, K.absv(y)), K.PI())), t), cmp('==', K.absv(y), ay), yy, pi, ipos)
                zz = mul(sg, sub(1, mul(Fraction(1, 3), sq(t))))
                V.lemma('sign of y', cmp('==', K.sign(y), sg))
                tb = V.algebra('m / nside', land(cmp('>', t, 0), cmp('<=', t, 1)), cmp('>=', m, 1), cmp('<=', m, ns), ipos)
                with V.when(cmp('==', m, ns)):
                    V.algebra('on the border', land(cmp('==', ay, QPI()), cmp('==', t, 1)), yy, cmp('==', m, ns), ipos)
                    V.lemma('height on the border', cmp('==', z_of(y), zz))
                with V.when(cmp('<', m, ns)):
                    V.algebra('beyond the border', cmp('>', ay, QPI()), yy, cmp('<', m, ns), ipos, pi)
                    V.lemma('height beyond the border', cmp('==', z_of(y), zz))
                V.lemma('height', cmp('==', z_of(y), zz))
                V.algebra('within (%s)' % nm, land(cmp('<=', zz, 1), cmp('>=', zz, -1)), tb)
                V.lemma('cos theta is the height', cmp('==', z, z_of(y)))
                V.ensure('cos theta (%s)' % nm, cmp('==', z, zz))
                V.lemma('quadrant of x', cmp('==', K.floor_int(K.div(mul(2, x), K.PI())), k))
                std = add(mul(HPI(), Kk), mul(K.div(HPI(), M), add(J, HALF)))
                with V.when(cmp('==', m, ns)):
                    V.algebra('phi on the border', cmp('==', x, std), fi, cmp('==', m, ns), ipos)
                    V.lemma('phi on the border is x', cmp('==', phi, x))
                with V.when(cmp('<', m, ns)):
                    a = sub(K.div(mul(4, K.absv(y)), K.PI()), 1)
                    aa = V.lemma('a', cmp('==', a, sub(1, t)))
                    b = V.lemma('phi in a cap', cmp('==', mul(phi, sub(1, a)), sub(x, mul(mul(QPI(), a), add(mul(2, Kk), 1)))))
                    V.algebra('phi beyond the border', cmp('==', phi, std), aa, b, fi, tb, cmp('>=', m, 1), ipos)
                V.same('phi (%s)' % nm, r[0], std)
    V.run(HP + 'healpix_xy2ang', [x, y], post=post)


def star_region(ns, i, k, jj, nm, m):
    """the integer star indices of a pixel"""
    a = add(mul(ns, k), jj)
    if nm == 'north':
        return a, add(a, sub(mul(2, ns), m))
    if nm == 'south':
        return add(a, sub(mul(2, ns), m)), a
    d = sub(i, ns)
    h, odd = K.floordiv(d, 2), K.mod(d, 2)
    return add(a, h), add(a, sub(sub(ns, h), odd))


def dashes(V, P):
    """arrays with the dash indices of the pixels"""
    jd = Arr(Buf([P.n], lambda idx: jdash_of(P.ns, *P.at(idx[0])[:3]), 'f'))
    idd = Arr(Buf([P.n], lambda idx: K.toreal_s(idash_spec(P.ns, P.i.at(idx[0]))), 'f'))
    for b, nm in ((jd, 'jdash'), (idd, 'idash')):
        V.ctx.readonly[id(b.buf)] = 'argument ' + nm
    return idd, jd


@task('C18', name='healpix_ijd2ijs')
def t(V):
    P = Pix(V, '1d')
    ns = P.ns

    def post(r):
        V.ensure('2 values', len(r) == 2)
        if not (V.shape('i star', r[0], [P.n], 'i') and V.shape('j star', r[1], [P.n], 'i')):
            return
        with V.forall(P.n) as (x,):
            i, k, jj, j = P.at(x)
            for nm, c, m in regions(ns, i):
                with V.when(c):
                    V.lemma('in the quadrant', land(cmp('>=', jj, 0), cmp('<=', jj, sub(m, 1)), cmp('<=', m, ns), cmp('>=', k, 0), cmp('<=', k, 3)))
                    si, sj = star_region(ns, i, k, jj, nm, m)
                    V.lemma('not negative', land(cmp('>=', mul(ns, k), 0)))
                    V.same('i star (%s)' % nm, V.resolve(r[0].at(x)), si)
                    V.same('j star (%s)' % nm, V.resolve(r[1].at(x)), sj)
    V.run(IDX + 'healpix_ijd2ijs', list(dashes(V, P)) + [ns], post=post)


@task('C18', name='healpix_ijs2ijd')
def t(V):
    ns, n = V.int('nside', 1), V.int('n', 0)
    a, b = V.array('istar', n, dtype='i'), V.array('jstar', n, dtype='i')

    def post(r):
        V.ensure('2 values', len(r) == 2)
        if V.shape('i dash', r[0], [n], 'f') and V.shape('j dash', r[1], [n], 'f'):
            with V.forall(n) as (x,):
                V.same('i dash', r[0].at(x), K.div(sub(b.at(x), a.at(x)), 2))
                V.same('j dash', r[1].at(x), K.div(sub(add(add(a.at(x), b.at(x)), 1), ns), 2))
    V.run(IDX + 'healpix_ijs2ijd', [a, b, ns], post=post)


@task('C18', name='star and dash undo each other')
def t(V):
    P = Pix(V, '1d')
    ns = P.ns
    idd, jd = dashes(V, P)

    def go():
        a, b = V.call(IDX + 'healpix_ijd2ijs', [idd, jd, ns])
        return V.call(IDX + 'healpix_ijs2ijd', [a, b, ns])

    def post(r):
        if not (V.shape('i dash', r[0], [P.n], 'f') and V.shape('j dash', r[1], [P.n], 'f')):
            return
        with V.forall(P.n) as (x,):
            i, k, jj, j = P.at(x)
            for nm, c, m in regions(ns, i):
                with V.when(c):
                    V.lemma('in the quadrant', land(cmp('>=', jj, 0), cmp('<=', jj, sub(m, 1)), cmp('<=', m, ns), cmp('>=', k, 0), cmp('<=', k, 3)))
                    V.lemma('not negative', land(cmp('>=', mul(ns, k), 0)))
                    V.same('i dash (%s)' % nm, V.resolve(r[0].at(x)), K.toreal_s(idash_spec(ns, i)))
                    V.same('j dash (%s)' % nm, V.resolve(r[1].at(x)), jdash_region(ns, i, k, jj, nm, m))
    V.run(go, [], name='star and back', post=post)


# ------------------------------------------------------------------ C19
SIDES = {   # name: x starts at, y as a function of x (relative to the center, in units of the half width)
    '_healpix_top_left': (-1, lambda u: add(u, 1)),
    '_healpix_top_right': (0, lambda u: sub(1, u)),
    '_healpix_bot_left': (-1, lambda u: sub(-1, u)),
    '_healpix_bot_right': (0, lambda u: sub(u, 1)),
}


def frac(k, n):
    """the place of point k of n, from 0 to 1"""
    return ite(cmp('<=', n, 1), 0, Sym(K.toreal(K.lift(k)) / K.toreal(K.lift(sub(n, 1)))))


FR = z3.Function('place_of', z3.IntSort(), z3.IntSort(), z3.RealSort())


def place(k, n):
    return Sym(FR(K.lift(k), K.lift(n)))


def place_facts(V, top):
    """what the callers of the four sides know of place"""
    def lem(k, j, n):
        f, g = frac(k, n), frac(j, n)
        return land(cmp('>=', f, 0), cmp('<=', f, 1), implies(cmp('==', k, 0), cmp('==', f, 0)), implies(land(cmp('==', k, sub(n, 1)), cmp('>', n, 1)), cmp('==', f, 1)),
                    implies(cmp('<=', j, k), cmp('<=', g, f)))
    V.lemma_fn('places', 'iii', lambda k, j, n: land(cmp('<=', 0, j), cmp('<', j, n), cmp('<=', 0, k), cmp('<', k, n)), lem)


def know_places(V, ks):
    """facts of place for indices k of n, (k, n) in ks"""
    for a, (k, n) in enumerate(ks):
        f = place(k, n)
        ok = land(cmp('<=', 0, k), cmp('<', k, n))
        V.fact(implies(ok, land(cmp('>=', f, 0), cmp('<=', f, 1), implies(cmp('==', k, 0), cmp('==', f, 0)), implies(land(cmp('==', k, sub(n, 1)), cmp('>', n, 1)), cmp('==', f, 1)))))
        for b, (j, n2) in enumerate(ks):
            if a != b and n2 is n:
                V.fact(implies(land(ok, cmp('<=', 0, j), cmp('<=', j, k)), cmp('<=', place(j, n), f)))


def boundary_pixel(V):
    P = Pix(V, 'scalar')
    p = P.numbers()
    V.stub_with(IDX + 'healpix_pix2xy', s_pix2xy(P))
    x, y = V.real('xp'), V.real('yp')
    cx, cy = center(P, P.i, P.k, P.jj)
    d = V.real('delta')
    V.assume(land(cmp('==', x, cx), cmp('==', y, cy)))
    V.assume(cmp('==', mul(mul(4, P.ns), d), K.PI()))
    V.assume(cmp('>', d, 0))

    def centers(V, env):
        s_pix2xy(P)(V, env)
        return x, y
    V.stub_with(IDX + 'healpix_pix2xy', centers)

    def delta(V, env):
        V.require('nside', cmp('==', env['nside'], P.ns))
        return d
    V.stub_with(BND + '_healpix_get_delta', delta)
    return P, p, x, y, d


@task('C19', name='_healpix_get_delta')
def t(V):
    ns = V.int('nside', 1)

    def post(r):
        V.ensure('half width', cmp('==', mul(mul(4, ns), strip(r)), K.PI()))
        V.ensure('area of a pixel', cmp('==', mul(mul(2, sq(strip(r))), mul(8, mul(K.toreal_s(ns), ns))), sq(K.PI())))
        V.ensure('positive', cmp('>', strip(r), 0))
        V.defined('is a number', r)
    V.run(BND + '_healpix_get_delta', [ns], post=post)


def on_side(V, r, side, rev, n, x, y, d):
    x0, f = SIDES[side]
    if not (V.shape('x', r[0], [n], 'f') and V.shape('y', r[1], [n], 'f')):
        return
    with V.forall(n) as (k,):
        u = add(x0, frac(sub(sub(n, 1), k) if rev else k, n))
        V.defined('x', r[0].at(k))
        V.lemma('x', cmp('==', strip(r[0].at(k)), add(x, mul(d, u))))
        V.same('x', r[0].at(k), add(x, mul(d, u)))
        V.same('y', r[1].at(k), add(y, mul(d, f(u))))


def s_side(side, P, x, y, d):
    x0, f = SIDES[side]

    def s(V, env):
        V.require('nside', cmp('==', env['nside'], P.ns))
        V.require('pixel', cmp('==', env['p'], number(P.ns, P.i, P.j)))
        n, rev = env['steps'], env['reverse']
        V.require('steps', cmp('>=', n, 0))
        if not isinstance(rev, bool):
            raise Unsupported('symbolic direction')
        at = (lambda k: add(x0, place(sub(sub(n, 1), k), n))) if rev else (lambda k: add(x0, place(k, n)))
        return (Arr(Buf([n], lambda idx: add(x, mul(d, at(idx[0]))), 'f')), Arr(Buf([n], lambda idx: add(y, mul(d, f(at(idx[0])))), 'f')))
    return s


for side in SIDES:
    for rev in (False, True):
        @task('C19', name='%s[%s]' % (side, 'reverse' if rev else 'forward'))
        def t(V, side=side, rev=rev):
            P, p, x, y, d = boundary_pixel(V)
            n = V.int('steps', 1)
            V.run(BND + side, [p, P.ns, n, rev], post=lambda r: on_side(V, r, side, rev, n, x, y, d))


def places_in(v):
    out, seen = [], set()
    for a in solve.apps(K.lift(strip(v))):
        if a.decl().name() == 'place_of' and a.get_id() not in seen:
            seen.add(a.get_id())
            out.append(a)
    return out


def tell(V, *vs):
    """the facts of the places that occur in the values vs"""
    ps = []
    for v in vs:
        for a in places_in(v):
            if not any(a.eq(b) for b in ps):
                ps.append(a)
    for a in ps:
        k, n = Sym(a.arg(0)), Sym(a.arg(1))
        f = Sym(a)
        ok = land(cmp('<=', 0, k), cmp('<', k, n))
        V.fact(implies(ok, land(cmp('>=', f, 0), cmp('<=', f, 1), implies(cmp('==', k, 0), cmp('==', f, 0)),
                                implies(land(cmp('==', k, sub(n, 1)), cmp('>', n, 1)), cmp('==', f, 1)))))
        for b in ps:
            if not a.eq(b):
                j, m = Sym(b.arg(0)), Sym(b.arg(1))
                V.fact(implies(land(ok, cmp('==', m, n), cmp('<=', 0, j), cmp('<=', j, k)), cmp('<=', Sym(b), f)))


def whole(V, name, n, r, x, y, d, rev, part):
    """part: 'all', 'top' or 'bot'"""
    if not (V.shape(name + ' x', r[0], [n], 'f') and V.shape(name + ' y', r[1], [n], 'f')):
        return
    U = lambda k: (sub(strip(r[0].at(k)), x), sub(strip(r[1].at(k)), y))
    with V.forall(n) as (k,):
        tell(V, r[0].at(k), r[1].at(k))
        V.defined(name + ': x is a number', r[0].at(k))
        V.defined(name + ': y is a number', r[1].at(k))
        u, v = U(k)
        V.ensure(name + ': on the diamond', cmp('==', add(K.absv(u), K.absv(v)), d))
        if part != 'all':
            V.ensure(name + ': on its side', cmp('>=', v, 0) if part == 'top' else cmp('<=', v, 0))
        h = K.floordiv(n, 2)
        if part == 'all':
            # the upper side comes first, reversed it comes last
            up = cmp('<', k, h) if not rev else cmp('>=', k, sub(n, h))
            V.ensure(name + ': upper and lower side', implies(up, cmp('>=', v, 0)))
            V.ensure(name + ': upper and lower side (2)', implies(lnot(up), cmp('<=', v, 0)))
        with V.when(cmp('<', add(k, 1), n)):
            k1 = add(k, 1)
            tell(V, r[0].at(k), r[0].at(k1))
            u1, v1 = U(k1)
            if part == 'all':
                up1 = cmp('<', k1, h) if not rev else cmp('>=', k1, sub(n, h))
                fwd = cmp('<=', u, u1) if not rev else cmp('>=', u, u1)
                bck = cmp('>=', u, u1) if not rev else cmp('<=', u, u1)
                V.ensure(name + ': order along the upper side', implies(land(up, up1), fwd))
                V.ensure(name + ': order along the lower side', implies(lnot(lor(up, up1)), bck))
            else:
                V.ensure(name + ': order', cmp('<=', u, u1) if not rev else cmp('>=', u, u1))
    if part == 'all':
        corners = [(-1, 0), (1, 0), (0, 1), (0, -1)]
    else:
        corners = [(-1, 0), (1, 0), (0, 1 if part == 'top' else -1)]
    least = 8 if part == 'all' else 4
    h = K.floordiv(n, 2)
    with V.when(cmp('>=', n, least)):
        cand = [0, sub(n, 1), h, sub(h, 1), sub(n, h), sub(sub(n, h), 1)]
        if part == 'all':
            q, m = K.floordiv(h, 2), sub(n, h)
            qm = K.floordiv(m, 2)
            cand += [q, sub(q, 1), sub(h, q), add(h, qm), sub(add(h, qm), 1), sub(n, qm), sub(sub(n, qm), 1)]
            cand += [sub(sub(n, 1), c) for c in (q, sub(q, 1))]
            cand += [sub(m, 1 + 0), qm, sub(qm, 1), sub(m, qm), sub(sub(m, qm), 1)]
        for c in cand:
            tell(V, r[0].at(c), r[1].at(c))
        for a, b in corners:
            V.ensure(name + ': corner (%d, %d)' % (a, b),
                     lor(*[land(cmp('<=', 0, c), cmp('<', c, n), cmp('==', U(c)[0], mul(a, d)), cmp('==', U(c)[1], mul(b, d))) for c in cand]))


for fn, part in (('healpix_boundary_top', 'top'), ('healpix_boundary_bot', 'bot'), ('healpix_boundary', 'all')):
    for rev in (False, True):
        @task('C19', name='%s[%s]' % (fn, 'reverse' if rev else 'forward'))
        def t(V, fn=fn, part=part, rev=rev):
            P, p, x, y, d = boundary_pixel(V)
            n = V.int('steps', 2 if part != 'all' else 4)
            place_facts(V, None)
            for side in SIDES:
                V.stub_with(BND + side, s_side(side, P, x, y, d))
            V.run(BND + fn, [p, P.ns, n, rev], post=lambda r: whole(V, part, n, r, x, y, d, rev, part))


@task('C19', name='both directions give the same points')
def t(V):
    P, p, x, y, d = boundary_pixel(V)
    n = V.int('steps', 4)
    for side in SIDES:
        V.stub_with(BND + side, s_side(side, P, x, y, d))

    def go():
        return [(V.call(BND + f, [p, P.ns, n, False]), V.call(BND + f, [p, P.ns, n, True])) for f in ('healpix_boundary_top', 'healpix_boundary_bot', 'healpix_boundary')]

    def post(rs):
        for a, b in rs:
            for c in (0, 1):
                if V.shape('points', a[c], [n], 'f') and V.shape('points', b[c], [n], 'f'):
                    with V.forall(n) as (k,):
                        V.same('reversed', b[c].at(k), a[c].at(sub(sub(n, 1), k)))
    V.run(go, [], name='reverse', post=post)


@task('C19', name='the pixels tile the pattern')
def t(V):
    """in the star coordinates pixel (a, b) is the unit square at (a, b); no two pixels have the same square,
    also around the sphere, and all squares lie in the twelve base pixels, whose area is that of all pixels"""
    ns = V.int('nside', 1)
    i, k, jj = V.int('ring'), V.int('quadrant'), V.int('place')
    i2, k2, jj2 = V.int('ring2'), V.int('quadrant2'), V.int('place2')
    V.assume(land(in_pattern(ns, i, k, jj), in_pattern(ns, i2, k2, jj2)))
    c = V.int('turns')

    def post(_):
        for nm, g, m in regions(ns, i):
            for nm2, g2, m2 in regions(ns, i2):
                with V.when(land(g, g2)):
                    s, s2 = star_region(ns, i, k, jj, nm, m), star_region(ns, i2, k2, jj2, nm2, m2)
                    with V.when(land(cmp('==', s[0], add(s2[0], mul(c, mul(4, ns)))), cmp('==', s[1], add(s2[1], mul(c, mul(4, ns)))))):
                        V.lemma('the same ring (%s, %s)' % (nm, nm2), cmp('==', i, i2))
                        if V.dead():
                            continue
                        V.lemma('place', land(cmp('>=', jj, 0), cmp('<', jj, m), cmp('>=', jj2, 0), cmp('<', jj2, m), cmp('<=', m, ns)))
                        a = V.lemma('along the ring', cmp('==', add(mul(ns, k), jj), add(add(mul(ns, k2), jj2), mul(mul(4, ns), c))))
                        V.algebra('quadrants', land(cmp('<', sub(sub(k, k2), mul(4, c)), 1), cmp('>', sub(sub(k, k2), mul(4, c)), -1)), a,
                                      cmp('>=', jj, 0), cmp('<', jj, m), cmp('>=', jj2, 0), cmp('<', jj2, m), cmp('<=', m, ns), cmp('>=', ns, 1))
                        V.lemma('no turn', cmp('==', c, 0))
                        V.ensure('the same pixel (%s, %s)' % (nm, nm2), land(cmp('==', i, i2), cmp('==', k, k2), cmp('==', jj, jj2)))
    V.run(lambda: None, [], name='tiling', post=post)


# ------------------------------------------------------------------ C25
RUS = 'magpie.randoms.usphere.'


def random_pixel(V):
    P = Pix(V, 'scalar')
    p = P.numbers()
    x, y, d = V.real('xp'), V.real('yp'), V.real('delta')
    cx, cy = center(P, P.i, P.k, P.jj)
    V.assume(land(cmp('==', x, cx), cmp('==', y, cy), cmp('==', mul(mul(4, P.ns), d), K.PI())))
    # established by the tasks of C18 and C19
    V.assume(land(cmp('>', d, 0), cmp('<=', d, QPI()), cmp('>=', x, 0), cmp('<', x, TWOPI())))

    def centers(V, env):
        s_pix2xy(P)(V, env)
        return x, y

    def delta(V, env):
        V.require('nside', cmp('==', env['nside'], P.ns))
        return d
    V.stub_with(IDX + 'healpix_pix2xy', centers)
    V.stub_with(BND + '_healpix_get_delta', delta)
    return P, p, x, y, d


def offset(v, xp, q):
    return add(sub(v, xp), mul(q, TWOPI()))


@task('C25', name='_randoms_healpix_xy')
def t(V):
    P, p, xp, yp, d = random_pixel(V)
    n = V.int('size', 0)

    def post(r):
        V.ensure('2 values', len(r) == 2)
        if not (V.shape('x', r[0], [n], 'f') and V.shape('y', r[1], [n], 'f')):
            return
        with V.forall(n) as (i,):
            x, y = r[0].at(i), r[1].at(i)
            V.defined('x is a number', x)
            V.defined('y is a number', y)
            x, y = strip(x), strip(y)
            us, ws = draws_in(x), draws_in(y)
            us = [u for k, u in enumerate(us) if not any(u.eq(v) for v in us[:k])]
            ws = [u for k, u in enumerate(ws) if not any(u.eq(v) for v in ws[:k])]
            if len(us) != 1:
                raise Unsupported('x depends on %d draws' % len(us))
            ws = [w for w in ws if not w.eq(us[0])]
            if len(ws) != 1:
                raise Unsupported('y depends on %d draws besides that of x' % len(ws))
            u, w = Sym(us[0]), Sym(ws[0])
            for q in (u, w):
                V.fact(land(cmp('>=', q, 0), cmp('<', q, 1)))
            V.ensure('0 <= x <= 2 pi', land(cmp('>=', x, 0), cmp('<', x, TWOPI())))
            V.lemma('two pi', cmp('>', K.PI(), 3))
            at = [offset(x, xp, q) for q in (-1, 0, 1)]
            # the offset before x was wrapped
            for nm, g, F in (('left', cmp('<=', u, HALF), mul(d, sub(strip(K.sqrt(mul(2, u))), 1))),
                             ('right', cmp('>', u, HALF), mul(d, sub(1, strip(K.sqrt(mul(2, sub(1, u)))))))):
                with V.when(g):
                    s = strip(K.sqrt(mul(2, u))) if nm == 'left' else strip(K.sqrt(mul(2, sub(1, u))))
                    V.lemma('root', land(cmp('>=', s, 0), cmp('<=', s, 1)))
                    V.algebra('reach', land(cmp('<=', F, d), cmp('>=', F, K.neg(d))), land(cmp('>=', s, 0), cmp('<=', s, 1)), cmp('>', d, 0))
                    V.lemma('unwrapped', lor(*[cmp('==', a, F) for a in at]))
            for q, a in zip((-1, 0, 1), at):
                with V.when(cmp('<=', K.absv(a), d)):
                    e = K.div(a, d)
                    V.lemma('in units of the half width', cmp('==', a, mul(d, e)))
                    # P(x offset <= e) is the draw of x
                    V.lemma('e', land(cmp('<=', K.absv(e), 1)))
                    lhs = ite(cmp('<=', e, 0), K.div(sq(add(1, e)), 2), sub(1, K.div(sq(sub(1, e)), 2)))
                    V.ensure('x follows the width of the pixel (%d)' % q, lor(cmp('==', lhs, u), cmp('==', lhs, sub(1, u))))
                    # y is uniform on the line through the pixel at x
                    wd = sub(d, K.absv(a))
                    V.ensure('y is inside (%d)' % q, cmp('<=', K.absv(sub(y, yp)), wd))
                    up = cmp('==', sub(y, yp), mul(wd, sub(mul(2, w), 1)))
                    dn = cmp('==', sub(yp, y), mul(wd, sub(mul(2, w), 1)))
                    V.ensure('y is uniform (%d)' % q, lor(up, dn))
            V.ensure('inside', lor(*[cmp('<=', K.absv(a), d) for a in at]))
            # the draws of different points and of x and y are different
            j = K.CTX.fresh('j', K.I)
            with V.when(land(cmp('<=', 0, j), cmp('<', j, n))):
                for a in (us[0], ws[0]):
                    for b in (us[0], ws[0]):
                        if not a.decl().eq(b.decl()):
                            continue
                        b2 = z3.substitute(b, (i.t, j.t))
                        same = land(*[K.mk(s == t) for s, t in zip(a.children(), b2.children())])
                        V.ensure('different draws', implies(cmp('!=', i, j) if a.eq(b) else True, lnot(same)))
    V.run(RUS + '_randoms_healpix_xy', [n, p, P.ns], post=post)


@task('C25', name='randoms_healpix_pixel')
def t(V):
    P, p, xp, yp, d = random_pixel(V)
    V.use(HP + 'healpix_xy2ang')
    n = V.int('size', 0)
    xs, ys = V.array('xrand', n), V.array('yrand', n)

    def points(V, env):
        V.require('size', cmp('==', env['size'], n))
        V.require('pixel', cmp('==', env['p'], p))
        V.require('nside', cmp('==', env['nside'], P.ns))
        return xs, ys
    V.stub_with(RUS + '_randoms_healpix_xy', points)

    def post(r):
        V.ensure('2 values', len(r) == 2)
        if V.shape('phi', r[0], [n], 'f') and V.shape('theta', r[1], [n], 'f'):
            with V.forall(n) as (i,):
                x, y = xs.at(i), ys.at(i)
                a, b = spec_angle(x, y)
                with V.when(cmp('<', K.absv(y), HPI())):
                    V.ensure('phi', cmp('==', strip(r[0].at(i)), a))
                    V.ensure('theta', cmp('==', strip(r[1].at(i)), b))
    V.run(RUS + 'randoms_healpix_pixel', [n, p, P.ns], post=post)
