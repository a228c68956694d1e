"""PointOfView (C32) on the contracts of the conversions (C08), the rotations (C11) and the shift of the longitude (C12)."""
from fractions import Fraction
import z3
from . import core as K, arr as A, interp, npf, solve
from .core import Sym, cmp, land, lor, lnot, implies, add, sub, mul, div, ite, Unsupported
from .arr import Arr, Buf, Sel
from .verify import task, stub, strip, ew
from .k_coords import TWOPI, spec_s2c, several, center_of, one_dim
from .k_rot import (R3, plus, dot3, cross3, apply3, name3, given, point_of, Rotation, Turn, s_rotate, ranges, product, shifted, C2S, S2C, ROT, SPN, TINY, consts)
from .k_radial import method

POV = 'magpie.densegrid.pointofview.PointOfView'
CS = [z3.Function('c2s_' + nm, K.R, K.R, K.R, K.R) for nm in ('r', 'phi', 'theta')]


def c2s_at(V, d):
    """cart2sphere's results for the offsets d from the center, and what its contract says of them"""
    t = [K.lift(K.toreal_s(strip(x))) for x in d]
    r, p, th = [Sym(f(*t)) for f in CS]
    return r, p, th


def c2s_facts(V, d):
    r, p, th = c2s_at(V, d)
    eqs = [cmp('==', a, strip(b)) for a, b in zip(spec_s2c(r, p, th, 0, 0, 0), d)]
    sq = cmp('==', mul(r, r), plus(*[mul(strip(x), strip(x)) for x in d]))
    rg = land(cmp('>=', r, 0), cmp('<=', 0, p), cmp('<=', p, TWOPI()), cmp('<=', 0, th), cmp('<=', th, K.PI()))
    given(V, *(eqs + [sq, rg]))
    return eqs, sq


for f, top in zip(CS, (None, 2 * K.PI_T, K.PI_T)):
    def ax(p, x, top=top):
        p.add(x >= 0)
        if top is not None:
            p.add(x <= top)
    solve.AX[f.name()] = ax


def s_c2s(V, env, log):
    """cart2sphere: coordinates that give the point back (C08)"""
    xs, c = [env['x'], env['y'], env['z']], center_of(env, 3)
    one_dim(V, *xs)

    def el(f):
        def g(*x):
            b = None
            for y in x:
                b = K.bor(b, K.badof(y))
            v = f(*[K.lift(K.toreal_s(sub(strip(y), q))) for y, q in zip(x, c)])
            return Sym(v) if b is None else Sym(v, b)
        return g
    for x in xs:
        if isinstance(x, Arr) and x.ndim != 1:
            V.require('cart2sphere of scalars or 1-D arrays', False)
    out = tuple(ew(el(f), *xs) if any(isinstance(x, (Arr, Sel)) for x in xs) else el(f)(*xs) for f in CS)
    log.append(('c2s', out, xs, c))
    return out


def s_spin(V, env, log=None):
    """usphere_spin (C11): the turn about the center by the angle"""
    pc, tc, al = [strip(env[k]) if isinstance(env[k], Sym) else env[k] for k in ('phi_center', 'theta_center', 'alpha')]
    ranges(V, ('phi_center', pc, 2), ('theta_center', tc, 1), ('alpha', al, 2))
    r = Rotation(V, 'S')
    c = r.c = point_of(V, pc, tc, 'c')[0]
    tn = r.turn = Turn(V, al)
    ca, sa = tn.c, tn.s
    cr = [[0, mul(-1, c[2]), c[1]], [c[2], 0, mul(-1, c[0])], [mul(-1, c[1]), c[0], 0]]
    r.rod = [[plus(mul(ca, 1 if k == l else 0), mul(sa, cr[k][l]), mul(sub(1, ca), mul(c[k], c[l]))) for l in R3] for k in R3]
    r.off = plus(mul(c[0], c[0]), mul(c[1], c[1]))
    r.general = lor(cmp('>=', r.off, mul(TINY, TINY)), cmp('==', tc, 0), cmp('==', tc, K.PI()))
    with V.when(r.general):
        r.eqs = [cmp('==', r.M[k][l], r.rod[k][l]) for k in R3 for l in R3]
        given(V, *r.eqs)
    if log is not None:
        log.append(('spin', r))
    return r.results(env['phi'], env['theta'])


def found(V, vals):
    """the equations that define a named point, with those of a quarter turn"""
    for v, eqs, one, (p, t) in V.points.values():
        if v is vals:
            q = []
            if not any(not x.eq(K.PI_T) for x in consts(K.lift(t))):
                c, s = K.cos(t), K.sin(t)
                q = [V.derive('a quarter turn', cmp('==', c, 0)), V.derive('a quarter turn', cmp('==', s, 1))]
            return list(eqs) + q
    raise Unsupported('a point of the view')


class View(object):
    """a camera that is set up, and the specification of its rotated frame"""
    def __init__(self, V):
        self.V, self.log = V, []
        self.cam = [V.real('cam%d' % k) for k in R3]
        self.pt = [V.real('point%d' % k) for k in R3]
        self.D, self.spin = V.real('display'), V.real('spin')
        V.assume(cmp('>', self.D, 0))
        V.assume(land(cmp('<=', 0, self.spin), cmp('<=', self.spin, TWOPI())))
        V.assume(lor(*[cmp('!=', a, b) for a, b in zip(self.cam, self.pt)]))
        self.off = [sub(a, b) for a, b in zip(self.pt, self.cam)]
        self.L, self.ph, self.th = c2s_at(V, self.off)
        self.toward, self.tsq = c2s_facts(V, self.off)
        # level, or not within rounding of it
        ct = K.cos(self.th)
        V.assume(lor(cmp('==', self.th, mul(Fraction(1, 2), K.PI())), cmp('>=', mul(ct, ct), mul(TINY, TINY))))
        V.use('magpie.coords.usphere.usphere_phi_shift')
        log = self.log
        V.stub_with(C2S, lambda V, env: s_c2s(V, env, log))

        def rot(V, env):
            l = []
            r = s_rotate(V, env, l)
            log.append(('rot', l[0]))
            return r
        V.stub_with(ROT, rot)
        V.stub_with(SPN, lambda V, env: s_spin(V, env, log))

        def s2c(V, env):
            r = several(spec_s2c, 3, [env['r'], env['phi'], env['theta']], center_of(env, 3))
            log.append(('s2c', r, [env['r'], env['phi'], env['theta']]))
            return r
        V.stub_with(S2C, s2c)

    def make(self):
        V = self.V
        V.points = {}
        o = V.call(POV, [])
        method(V, o, 'setup', [list(self.cam), list(self.pt), self.D], dict(spin=self.spin))
        del self.log[:]
        return o

    def frame(self):
        """after the run: the rules of the angles and the matrix N of the view"""
        V = self.V
        ch, sh, ct, st = K.cos(self.ph), K.sin(self.ph), K.cos(self.th), K.sin(self.th)
        tr = [V.derive('sin^2 + cos^2 = 1', cmp('==', mul(s, s), sub(1, mul(c, c)))) for c, s in ((ch, sh), (ct, st))]
        self.u, self.t, self.w = [mul(st, ch), mul(st, sh), ct], [mul(-1, sh), ch, 0], [mul(-1, mul(ct, ch)), mul(-1, mul(ct, sh)), st]
        B = [self.u, self.t, self.w]
        self.h, self.ez = [ch, sh, 0], [0, 0, 1]
        self.ch, self.sh, self.ct, self.st = ch, sh, ct, st
        self.tr = tr
        cs, ss = K.cos(self.spin), K.sin(self.spin)
        self.cs, self.ss = cs, ss
        self.sr = V.derive('sin^2 + cos^2 = 1', cmp('==', mul(ss, ss), sub(1, mul(cs, cs))))
        self.N = product([[1, 0, 0], [0, cs, mul(-1, ss)], [0, ss, cs]], B)
        return self.N

    def rotation(self, rot, back):
        """the entries of the rotation along the meridian: u, t, w to h, t, z, or back"""
        V = self.V
        V.lemma('not level', cmp('!=', self.ct, 0))
        eqs = []
        for e in (rot.u, rot.v):
            eqs += found(V, e)
        rules = eqs + self.tr
        m = rot.m
        V.ring('length of the axis', cmp('==', dot3(m, m), mul(self.ct, self.ct)), *rules)
        V.derive('not nearly level', cmp('>=', dot3(m, m), mul(TINY, TINY)), cmp('==', dot3(m, m), mul(self.ct, self.ct)),
                 V.lemma('off level', cmp('>=', mul(self.ct, self.ct), mul(TINY, TINY))), opaque=[dot3(m, m), mul(self.ct, self.ct)])
        V.lemma('exact', rot.exact)
        for q in rot.Mu + rot.Mm:
            V.known_fact(q)
        src, dst = ((self.h, self.t, self.ez), (self.u, self.t, self.w)) if back else ((self.u, self.t, self.w), (self.h, self.t, self.ez))
        M = rot.M
        a = [V.ring('the direction', cmp('==', dot3(M[k], src[0]), dst[0][k]), *rules, plus=[(1, rot.Mu[k])]) for k in R3]
        b = []
        sg = -1 if back else 1
        for k in R3:
            x = V.ring('the axis', cmp('==', mul(self.ct, dot3(M[k], self.t)), mul(self.ct, self.t[k])), *rules, plus=[(sg, rot.Mm[k])])
            ax = dot3(M[k], self.t)
            b.append(V.algebra('the axis', cmp('==', ax, self.t[k]), x, cmp('!=', self.ct, 0), opaque=[ax, self.t[k]]))
        c = []
        Ma, Mb = apply3(M, src[0]), apply3(M, src[1])
        ia, ib = dst[0], dst[1]
        for k in R3:
            i, j = (k + 1) % 3, (k + 2) % 3
            x = V.ring('the vertical', cmp('==', dot3(M[k], cross3(src[0], src[1])), cross3(Ma, Mb)[k]), *rot.rules)
            c.append(V.ring('the vertical', cmp('==', dot3(M[k], src[2]), dst[2][k]), *rules, plus=[
                (1, x), (Mb[j], a[i]), (ia[i], b[j]), (mul(-1, Mb[i]), a[j]), (mul(-1, ia[j]), b[i])]))
        out = []
        for k in R3:
            for l in R3:
                want = plus(*[mul(d[k], s[l]) for d, s in zip(dst, src)])
                out.append(V.ring('the rotation', cmp('==', M[k][l], want), *rules, plus=[(src[0][l], a[k]), (src[1][l], b[k]), (src[2][l], c[k])]))
        return out

    def spun(self, sp, sign):
        V = self.V
        es = []
        for x, y in zip(sp.c, (1, 0, 0)):
            es.append(V.lemma('the middle', cmp('==', x, y)) if isinstance(x, Sym) else None)
        es = [e for e in es if e is not None]
        V.lemma('a point off the poles', sp.general)
        for q in sp.eqs:
            V.known_fact(q)
        d = sp.turn.d
        tc = [V.lemma('the angle', cmp('==', K.cos(d), self.cs)), V.lemma('the angle', cmp('==', K.sin(d), mul(sign, self.ss)))]
        want = [[1, 0, 0], [0, self.cs, mul(-sign, self.ss)], [0, mul(sign, self.ss), self.cs]]
        return [V.ring('the spin', cmp('==', sp.M[k][l], want[k][l]), *(sp.eqs + sp.turn.eqs + es + tc)) for k in R3 for l in R3]

    def turned(self, d, sign):
        """the turn of the longitude by sign times that of the target"""
        V = self.V
        tn = Turn(V, d)
        tc = [V.lemma('the turn', cmp('==', K.cos(tn.d), self.ch)), V.lemma('the turn', cmp('==', K.sin(tn.d), mul(sign, self.sh)))]
        return tn, [V.ring('the turn', cmp('==', tn.c, self.ch), *(tn.eqs + tc)), V.ring('the turn', cmp('==', tn.s, mul(sign, self.sh)), *(tn.eqs + tc))]


def parts(log):
    kinds = [x[0] for x in log]
    if kinds[:1] != ['c2s'] or kinds[-1:] != ['s2c'] or kinds.count('rot') > 1 or kinds.count('spin') > 1 or len(kinds) != 2 + kinds.count('rot') + kinds.count('spin'):
        raise Unsupported('the steps of the view')
    get = lambda k: [x for x in log if x[0] == k][0] if k in kinds else None
    return get('c2s'), get('rot') and get('rot')[1], get('spin') and get('spin')[1], get('s2c')


@task('C32', name='transform', jobs=4)
def t(V):
    V.prog.merge_bool = True
    W = View(V)
    n = V.int('n', 0)
    xyz = [V.array(c, n) for c in 'xyz']

    def go():
        o = W.make()
        return method(V, o, 'transform', list(xyz))

    def post(r):
        V.ensure('three results', isinstance(r, (tuple, list)) and len(r) == 3)
        if not all([V.shape(nm, x, [n], 'f') for nm, x in zip(('bx', 'by', 'dist'), r)]):
            return
        c2s, rot, sp, s2c = parts(W.log)
        N = W.frame()
        rm = W.rotation(rot, False) if rot else []
        level = [] if rot else [V.lemma('level', cmp('==', W.th, mul(Fraction(1, 2), K.PI()))), V.lemma('level', cmp('==', W.ct, 0)), V.lemma('level', cmp('==', W.st, 1))][1:]
        sm = W.spun(sp, 1) if sp else []
        nospin = [] if sp else [V.lemma('no spin', cmp('==', W.cs, 1)), V.lemma('no spin', cmp('==', W.ss, 0))]
        tn, te = W.turned(mul(-1, W.ph), -1)
        with V.forall(n) as ix:
            X = [x.at(*ix) for x in xyz]
            d = [sub(a, b) for a, b in zip(X, W.cam)]
            r0, p0, t0 = c2s_at(V, d)
            pd, rsq = c2s_facts(V, d)
            p, peq, one = point_of(V, p0, t0)
            e = []
            q = p
            if rot:
                p, q, e1 = rot.at(p0, t0)
                e += e1
                p0, t0 = Sym(rot.P(K.lift(p0), K.lift(t0))), Sym(rot.T(K.lift(p0), K.lift(t0)))
            q, x, e2 = tn.at(p0, t0)
            e = e2 + e
            p0 = shifted(p0, tn.d)
            if sp:
                x, x1, e3 = sp.at(p0, t0)
                x = x1
                e = e3 + e
                p0, t0 = Sym(sp.P(K.lift(p0), K.lift(t0))), Sym(sp.T(K.lift(p0), K.lift(t0)))
            yeq = point_of(V, p0, t0)[1]
            Q = [dot3(N[k], d) for k in R3]
            out = [strip(v.at(*ix)) for v in s2c[1]]
            es = []
            for k in R3:
                a = V.ring('the direction in the frame', cmp('==', x[k], dot3(N[k], p)), *(e + sm + te + rm + level + nospin + W.tr + [W.sr]))
                b = V.ring('the point in the frame', cmp('==', mul(r0, x[k]), Q[k]), *peq, plus=[(r0, a)] + [(N[k][j], pd[j]) for j in R3])
                rr = V.lemma('the coordinate', cmp('==', out[k], mul(r0, spec_s2c(Fraction(1), p0, t0, 0, 0, 0)[k])))
                c = V.ring('the coordinate', cmp('==', out[k], mul(r0, x[k])), rr, *yeq)
                es.append(V.derive('the coordinate', cmp('==', out[k], Q[k]), c, b, opaque=[out[k], Q[k], mul(r0, x[k])]))
            (q0, q1, q2), qd = name3(V, 'Q', Q)
            es = [V.derive('the coordinate', cmp('==', o_, q_), a, b, opaque=[o_, z]) for o_, q_, a, b, z in zip(out, (q0, q1, q2), es, qd, Q)]
            bx, by, dist = [v.at(*ix) for v in r]
            with V.when(cmp('>', Q[0], 0)):
                V.derive('in front', cmp('>', q0, 0), qd[0], V.known_fact(cmp('>', Q[0], 0)), opaque=[Q[0]])
                V.derive('in front', cmp('>', out[0], 0), cmp('>', q0, 0), es[0], opaque=out)
                V.defined('picture x', bx)
                V.defined('picture y', by)
                for nm, v, k, qk in (('x', bx, 1, q1), ('y', by, 2, q2)):
                    V.derive('picture ' + nm, cmp('==', mul(strip(v), q0), mul(W.D, qk)), es[0], es[k], cmp('>', q0, 0), opaque=out)
                    V.ring('picture ' + nm, cmp('==', mul(strip(v), Q[0]), mul(W.D, Q[k])), plus=[(1, cmp('==', mul(strip(v), q0), mul(W.D, qk))), (mul(-1, strip(v)), qd[0]), (W.D, qd[k])])
                    V.ensure('perspective projection, ' + nm, cmp('==', mul(strip(v), Q[0]), mul(W.D, Q[k])))
                V.defined('distance', dist)
                o2 = plus(*[mul(v, v) for v in out])
                c = point_of(V, p0, t0)[2]
                xs = [cmp('==', out[k], mul(r0, x[k])) for k in R3]
                s = V.ring('squared distance', cmp('==', o2, mul(r0, r0)), *xs, plus=[(mul(r0, r0), c)])
                V.lemma('distance', land(cmp('>=', strip(dist), 0), cmp('==', mul(strip(dist), strip(dist)), o2)))
                V.derive('distance', cmp('==', mul(strip(dist), strip(dist)), plus(*[mul(v, v) for v in d])), cmp('==', mul(strip(dist), strip(dist)), o2), s, rsq, opaque=[o2, strip(dist)] + list(d))
                V.ensure('distance from the camera', land(cmp('>=', strip(dist), 0), cmp('==', mul(strip(dist), strip(dist)), plus(*[mul(v, v) for v in d]))))
    V.functions.add(POV + '.setup')
    V.functions.add(POV + '.transform')
    V.run(go, [], name='transform', post=post)


@task('C32', name='reverse', jobs=4)
def t(V):
    V.prog.merge_bool = True
    W = View(V)
    n = V.int('n', 0)
    args = [V.array(c, n) for c in ('bx', 'by', 'dist')]
    V.forall_fact(1, lambda ix: cmp('>', args[2].at(*ix), 0))

    def go():
        o = W.make()
        return method(V, o, 'reverse', list(args))

    def post(r):
        V.ensure('three results', isinstance(r, (tuple, list)) and len(r) == 3)
        if not all([V.shape(nm, x, [n], 'f') for nm, x in zip('xyz', r)]):
            return
        c2s, rot, sp, s2c = parts(W.log)
        N = W.frame()
        rm = W.rotation(rot, True) if rot else []
        level = [] if rot else [V.lemma('level', cmp('==', W.th, mul(Fraction(1, 2), K.PI()))), V.lemma('level', cmp('==', W.ct, 0)), V.lemma('level', cmp('==', W.st, 1))][1:]
        sm = W.spun(sp, -1) if sp else []
        nospin = [] if sp else [V.lemma('no spin', cmp('==', W.cs, 1)), V.lemma('no spin', cmp('==', W.ss, 0))]
        tn, te = W.turned(W.ph, 1)
        with V.forall(n) as ix:
            bx, by, dist = [x.at(*ix) for x in args]
            res = [x.at(*ix) for x in r]
            with V.when(True):
                # the point in the frame of the view
                raw = [v.at(*ix) for v in c2s[2]]
                d = [strip(v) for v in raw]
                D = W.D
                bb = add(mul(bx, bx), mul(by, by))
                (B,), (Bd,) = name3(V, 'B', [bb])
                pos = V.derive('squares', cmp('>=', B, 0), Bd)
                for k in R3:
                    V.defined('the point in the frame', raw[k])
                V.lemma('in front', cmp('>', d[0], 0))
                front = [cmp('>', d[0], 0)]
                V.ensure('the frame, x', land(cmp('>', d[0], 0), cmp('==', mul(mul(d[0], d[0]), add(mul(D, D), bb)), mul(mul(dist, D), mul(dist, D)))))
                V.ensure('the frame, y', cmp('==', mul(d[1], D), mul(bx, d[0])))
                V.ensure('the frame, z', cmp('==', mul(d[2], D), mul(by, d[0])))
                r0, p0, t0 = c2s_at(V, d)
                pd, rsq = c2s_facts(V, d)
                p, peq, one = point_of(V, p0, t0)
                e, x = [], p
                if sp:
                    p, x, e1 = sp.at(p0, t0)
                    e = e1 + e
                    p0, t0 = Sym(sp.P(K.lift(p0), K.lift(t0))), Sym(sp.T(K.lift(p0), K.lift(t0)))
                x0, x, e2 = tn.at(p0, t0)
                e = e2 + e
                p0 = shifted(p0, tn.d)
                if rot:
                    x0, x, e3 = rot.at(p0, t0)
                    e = e3 + e
                    p0, t0 = Sym(rot.P(K.lift(p0), K.lift(t0))), Sym(rot.T(K.lift(p0), K.lift(t0)))
                yeq = point_of(V, p0, t0)[1]
                NT = [[N[j][k] for j in R3] for k in R3]
                for k in R3:
                    a = V.ring('the direction', cmp('==', x[k], dot3(NT[k], p)), *(e + sm + te + rm + level + nospin + W.tr + [W.sr]))
                    want = dot3(NT[k], d)
                    b = V.ring('the point', cmp('==', mul(r0, x[k]), want), *peq, plus=[(r0, a)] + [(NT[k][j], pd[j]) for j in R3])
                    s = mul(r0, spec_s2c(Fraction(1), p0, t0, 0, 0, 0)[k])
                    c = V.ring('the point', cmp('==', s, mul(r0, x[k])), *yeq)
                    V.defined('a number', res[k])
                    g = strip(res[k])
                    rr = V.lemma('the coordinate', cmp('==', g, add(W.cam[k], s)))
                    V.derive('the coordinate', cmp('==', g, add(W.cam[k], want)), rr, b, c, opaque=[g, s, mul(r0, x[k]), want])
                    V.ensure('back in space', cmp('==', g, add(W.cam[k], want)))
    V.functions.add(POV + '.setup')
    V.functions.add(POV + '.reverse')
    V.run(go, [], name='reverse', post=post)


@task('C32', name='round trip')
def t(V):
    """from the contracts: the point in the frame is restored; N is a rotation; the target is in the middle"""
    V.prog.merge_bool = True
    D, bx, by, dist = V.real('display'), V.real('bx'), V.real('by'), V.real('dist')
    Q, d = [V.real('Q%d' % k) for k in R3], [V.real('d%d' % k) for k in R3]
    V.assume(land(cmp('>', D, 0), cmp('>', Q[0], 0)))
    # what transform ensures
    V.assume(land(cmp('==', mul(bx, Q[0]), mul(D, Q[1])), cmp('==', mul(by, Q[0]), mul(D, Q[2])), cmp('>=', dist, 0), cmp('==', mul(dist, dist), dot3(Q, Q))))
    # what reverse ensures of these
    V.lemma('away from the camera', cmp('>', dist, 0))
    V.assume(land(cmp('>', d[0], 0), cmp('==', mul(mul(d[0], d[0]), add(mul(D, D), add(mul(bx, bx), mul(by, by)))), mul(mul(dist, D), mul(dist, D))),
                  cmp('==', mul(d[1], D), mul(bx, d[0])), cmp('==', mul(d[2], D), mul(by, d[0]))))

    def proof():
        x, y, l = cmp('==', mul(bx, Q[0]), mul(D, Q[1])), cmp('==', mul(by, Q[0]), mul(D, Q[2])), cmp('==', mul(dist, dist), dot3(Q, Q))
        f = cmp('==', mul(mul(d[0], d[0]), add(mul(D, D), add(mul(bx, bx), mul(by, by)))), mul(mul(dist, D), mul(dist, D)))
        for q in (x, y, l, f):
            V.known_fact(q)
        (S,), (Sd,) = name3(V, 'S', [dot3(Q, Q)])
        a = V.ring('lengths', cmp('==', mul(mul(mul(d[0], d[0]), mul(D, D)), S), mul(mul(mul(Q[0], Q[0]), mul(D, D)), S)), Sd,
                   plus=[(mul(Q[0], Q[0]), f), (mul(mul(mul(Q[0], Q[0]), mul(D, D)), 1), l)] + [
                       (mul(-1, mul(mul(d[0], d[0]), add(mul(b, Q[0]), mul(D, q)))), e) for b, q, e in ((bx, Q[1], x), (by, Q[2], y))])
        pos = V.lemma('not the camera', cmp('>', S, 0))
        a = V.algebra('lengths', cmp('==', mul(d[0], d[0]), mul(Q[0], Q[0])), a, pos, cmp('>', D, 0))
        V.algebra('the frame is restored', cmp('==', d[0], Q[0]), a, cmp('>', d[0], 0), cmp('>', Q[0], 0))
        V.ensure('the frame is restored, x', cmp('==', d[0], Q[0]))
        for k, b, e in ((1, bx, x), (2, by, y)):
            V.algebra('the frame is restored', cmp('==', d[k], Q[k]), e, cmp('==', mul(d[k], D), mul(b, d[0])), cmp('==', d[0], Q[0]), cmp('>', D, 0))
            V.ensure('the frame is restored', cmp('==', d[k], Q[k]))
    proof()
    # N^T N = 1 and N toward = (1, 0, 0)
    W = View(V)
    N = W.frame()
    for k in R3:
        for l in R3:
            q = cmp('==', plus(*[mul(N[j][k], N[j][l]) for j in R3]), 1 if k == l else 0)
            V.ring('N is a rotation', q, *(W.tr + [W.sr]))
            V.ensure('the view is a rotation', q)
    T = [V.ring('toward', cmp('==', dot3(N[k], W.off), (W.L, 0, 0)[k]), *(W.tr + [W.sr]), plus=[(mul(-1, N[k][j]), W.toward[j]) for j in R3]) for k in R3]
    for q in T:
        V.ensure('the target is straight ahead', q)
