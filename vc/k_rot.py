"""C11: rotations of the sphere."""
from fractions import Fraction
from .verify import *
from . import core as K
from . import arr as A
from . import solve
from .k_coords import TWOPI, sq, spec_s2c, spec_c2s

ROT = 'magpie.coords.usphere.usphere_rotate'
S2C, C2S = 'magpie.coords.conversions.sphere2cart', 'magpie.coords.conversions.cart2sphere'
TINY = Fraction(1, 10**12)
R3 = range(3)


def plus(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def dot3(a, b):
    return plus(*[mul(x, y) for x, y in zip(a, b)])


def cross3(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def det3(a, b, c):
    return dot3(a, cross3(b, c))


def apply3(M, p):
    return [dot3(M[k], p) for k in R3]


def name3(V, nm, vals):
    """fresh names for the numbers; the equations are known"""
    out, eqs = [], []
    for k, v in enumerate(vals):
        x = V.ctx.fresh(nm + str(k), K.R)
        q = cmp('==', x, strip(v) if isinstance(v, Sym) else v)
        V.ctx.fact(q)
        V.established.append((K.tobool(q).get_id(), list(V.ctx.path), q))
        out.append(x)
        eqs.append(q)
    return out, eqs


def unit(V, phi, theta, nm):
    """(point, the equations that define it, the lemma that it has length 1)"""
    p, eqs = name3(V, nm, spec_s2c(Fraction(1), phi, theta, 0, 0, 0))
    tr = []
    for a in (phi, theta):
        c, s = K.cos(a), K.sin(a)
        if isinstance(c, Sym) or isinstance(s, Sym):
            tr.append(V.derive('sin^2 + cos^2 = 1', cmp('==', mul(s, s), sub(1, mul(c, c)))))
    return p, eqs, V.ring('%s is a unit vector' % nm, cmp('==', dot3(p, p), 1), *(eqs + tr))


def in_range(V, *names):
    ps = [V.real(n) for n in names]
    for p, n in zip(ps, names):
        V.assume(land(cmp('>=', p, 0), cmp('<=', p, mul(2 if n.startswith('phi') else 1, K.PI()))))
    return ps


def so3(V, what, col, prove):
    """the equations of a rotation matrix with the given columns, as rules that decide every polynomial identity about it
    (a Groebner basis).  prove(name, equation): the proof of one of them"""
    u, t, n = col
    ru, rt, rn = R3[0], R3[1], R3[2]
    out = []

    def eq(nm, l, r):
        q = cmp('==', l, r)
        prove(nm, q)
        out.append(q)
    for i in R3:
        for j in range(i, 3):
            s = add(add(mul(n[i], n[j]), mul(t[i], t[j])), mul(u[i], u[j]))
            if i == j == 0:
                eq(what + ': row 00', mul(u[0], u[0]), sub(sub(1, mul(n[0], n[0])), mul(t[0], t[0])))
            else:
                eq('%s: rows %d%d' % (what, i, j), mul(u[i], u[j]), sub(sub(1 if i == j else 0, mul(n[i], n[j])), mul(t[i], t[j])))
    eq(what + ': t.t', mul(t[0], t[0]), sub(sub(1, mul(t[1], t[1])), mul(t[2], t[2])))
    eq(what + ': n.n', mul(n[0], n[0]), sub(sub(1, mul(n[1], n[1])), mul(n[2], n[2])))
    eq(what + ': t.u', mul(t[0], u[0]), sub(mul(-1, mul(t[1], u[1])), mul(t[2], u[2])))
    eq(what + ': n.u', mul(n[0], u[0]), sub(mul(-1, mul(n[1], u[1])), mul(n[2], u[2])))
    eq(what + ': n.t', mul(n[0], t[0]), sub(mul(-1, mul(n[1], t[1])), mul(n[2], t[2])))
    for a, b, c, nm in ((t, u, [mul(-1, x) for x in n], 'n'), (n, u, t, 't'), (n, t, [mul(-1, x) for x in u], 'u')):
        # c = a x b
        eq('%s: %s2' % (what, nm), mul(a[0], b[1]), add(mul(a[1], b[0]), c[2]))
        eq('%s: %s1' % (what, nm), mul(a[0], b[2]), sub(mul(a[2], b[0]), c[1]))
        eq('%s: %s0' % (what, nm), mul(a[1], b[2]), add(mul(a[2], b[1]), c[0]))
    return out


def frame_rules(V, u, n, t, uu, nn, nu, tdef):
    """columns u, t = n x u, n with u.u = n.n = 1 and n.u = 0"""
    d = lambda i, j: 1 if i == j else 0
    plus_of = {}
    for i in R3:
        for j in range(i, 3):
            plus_of['frame: row%s %d%d' % ('' if i == j == 0 else 's', i, j) if not (i == j == 0) else 'frame: row 00'] = [
                (sub(d(i, j), mul(u[i], u[j])) if d(i, j) else mul(-1, mul(u[i], u[j])), nn),
                (mul(1, sub(mul(d(i, j), dot3(n, n)), mul(n[i], n[j]))), uu),
                (sub(add(mul(n[i], u[j]), mul(n[j], u[i])), mul(d(i, j), dot3(n, u))), nu)]
    ring = {'t.t': [(dot3(u, u), nn), (1, uu), (mul(-1, dot3(n, u)), nu)], 'n.n': [(1, nn)], 'n.u': [(1, nu)], 't.u': [], 'n.t': []}
    for k in R3:
        # n = u x t,  u = t x n:  u x (n x u) = n (u.u) - u (u.n),  (n x u) x n = u (n.n) - n (n.u)
        sg = -1 if k != 1 else 1
        ring['n%d' % k] = [(mul(sg, n[k]), uu), (mul(-sg, u[k]), nu)]
        ring['u%d' % k] = [(mul(sg, u[k]), nn), (mul(-sg, n[k]), nu)]
        ring['t%d' % k] = []

    def prove(nm, q):
        key = nm.split(': ')[1]
        if key.startswith('row'):
            V.ring(nm, q, *tdef, plus=plus_of[nm])
        else:
            V.ring(nm, q, *tdef, plus=ring[key])
    return so3(V, 'frame', (u, t, n), prove)



def eqs_of(names, vals):
    return [cmp('==', a, b) for a, b in zip(names, vals)]


class Frame(object):
    """the steps of the proof about the frame u, t, n at the assignments of the code"""
    def __init__(self, V):
        self.V = V
        self.clear()
        V.entries(ROT, 'n', before=self.axis0, after=self.axis)
        V.entries(ROT, 'n=', before=self.unit0, after=self.unit)
        V.entries(ROT, 't', before=lambda v, env: self.keep('t0', v), after=self.tangent)
        V.cut(ROT, 'alpha', where=self.angle)
        V.entries(ROT, 'Rn', before=lambda v, env: self.keep('R0', v), after=self.turn)
        V.entries(ROT, 'T', before=lambda v, env: self.keep('T0', v), after=self.frame)
        V.entries(ROT, 'invT', before=lambda v, env: self.keep('I0', v), after=self.inverse)

    def clear(self):
        self.d = {}

    def keep(self, nm, v):
        self.d[nm] = [strip(v.at(k)) for k in R3] if v.ndim == 1 else [[strip(v.at(k, l)) for l in R3] for k in R3]

    def axis0(self, v, env):
        self.keep('m0', v)

    def axis(self, get, env):
        d = self.d
        d['m'] = [get(k) for k in R3]
        d['mdef'] = eqs_of(d['m'], d['m0'])
        if 'm1' not in d:
            # the first: u x v
            d['m1'], d['m1def'] = d['m'], d['mdef']

    def unit0(self, v, env):
        V, d = self.V, self.d
        self.keep('n0', v)
        m, u = d['m'], d['u']
        q = K.lift(d['n0'][0])
        if not z3.is_div(q):
            raise Unsupported('the length of the axis')
        h = d['h'] = Sym(q.arg(1))
        d['hh'] = V.lemma('length of the axis', cmp('==', mul(h, h), dot3(m, m)))
        d['regular'] = d['m'] is d['m1']
        if not d['regular']:
            low = V.ctx.proves(cmp('<', K.absv(u[2]), Fraction(9, 10)))
            k = 2 if low else 0
            d['e'] = [1 if j == k else 0 for j in R3]
            V.ring('the substitute axis', cmp('==', dot3(m, m), sub(1, mul(u[k], u[k]))), *(d['mdef'] + [cmp('==', mul(u[0], u[0]), sub(sub(1, mul(u[1], u[1])), mul(u[2], u[2])))]))
            d['near'] = V.lemma('start and end, or its opposite, are the same', cmp('<', dot3(d['m1'], d['m1']), mul(TINY, TINY)))
        d['h>0'] = V.lemma('the axis is not zero', cmp('>', h, 0))

    def unit(self, get, env):
        V, d = self.V, self.d
        n = d['n'] = [get(k) for k in R3]
        h, m, u = d['h'], d['m'], d['u']
        nh = []
        for k in R3:
            q = cmp('==', n[k], d['n0'][k])
            nh.append(V.algebra('axis', cmp('==', mul(n[k], h), m[k]), q, d['h>0'], opaque=[h]))
        d['nh'] = nh
        (N, P), (Nd, Pd) = name3(V, 'nn', [dot3(n, n), dot3(n, u)])
        a = V.ring('n.n h^2', cmp('==', mul(N, mul(h, h)), mul(h, h)), Nd, *(nh + [d['hh']]))
        V.algebra('n.n', cmp('==', N, 1), a, d['h>0'], opaque=[h])
        d['nn'] = V.ring('n is a unit vector', cmp('==', dot3(n, n), 1), plus=[(-1, Nd), (1, cmp('==', N, 1))])
        b = V.ring('n.u h', cmp('==', mul(P, h), 0), Pd, *(nh + d['mdef']))
        V.algebra('n.u', cmp('==', P, 0), b, d['h>0'], opaque=[h])
        d['nu'] = V.ring('n is perpendicular to u', cmp('==', dot3(n, u), 0), plus=[(-1, Pd), (1, cmp('==', P, 0))])

    def tangent(self, get, env):
        d = self.d
        t = d['t'] = [get(k) for k in R3]
        d['tdef'] = eqs_of(t, d['t0'])
        d['rules'] = frame_rules(self.V, d['u'], d['n'], t, d['u1'], d['nn'], d['nu'], d['tdef'])

    def angle(self, v, env):
        self.d['al'] = strip(v)
        return True

    def turn(self, get, env):
        """the turn: cos and sin, and what they are"""
        V, d = self.V, self.d
        R = d['R'] = [[get(k, l) for l in R3] for k in R3]
        u, t, n, w, rules = d['u'], d['t'], d['n'], d['v'], d['rules']
        c, s = d['c'], d['s'] = R[0][0], R[1][0]
        c0, s0 = d['R0'][0][0], d['R0'][1][0]
        ds = [cmp('==', c, c0), cmp('==', s, s0)]
        V.derive('sin^2 + cos^2 = 1', cmp('==', mul(s0, s0), sub(1, mul(c0, c0))))
        d['sc'] = V.ring('cos and sin of the turn', cmp('==', mul(s, s), sub(1, mul(c, c))), *(ds + [cmp('==', mul(s0, s0), sub(1, mul(c0, c0)))]))
        d['R='] = []
        for k, row in enumerate(((c, mul(-1, s), 0), (s, c, 0), (0, 0, 1))):
            for l in R3:
                if (k, l) not in ((0, 0), (1, 0)):
                    d['R='].append(V.ring('the turn', cmp('==', R[k][l], row[l]), cmp('==', R[k][l], d['R0'][k][l]), *ds))
        # the end in the frame
        al = K.lift(d['al'])
        if not (z3.is_app(al) and al.num_args() == 2):
            raise Unsupported('the angle of the turn')
        y, x = Sym(al.arg(0)), Sym(al.arg(1))
        X, Y, Z = [name3(V, nm, [dot3(w, a)]) for nm, a in (('vu', u), ('vt', t), ('vn', n))]
        (X, Y, Z), (Xd, Yd, Zd) = [q[0][0] for q in (X, Y, Z)], [q[1][0] for q in (X, Y, Z)]
        d['w'] = (X, Y, Z)
        d['wd'] = (Xd, Yd, Zd)
        length = V.ring('the end in the frame', cmp('==', add(add(mul(X, X), mul(Y, Y)), mul(Z, Z)), 1), Xd, Yd, Zd, *rules, plus=[(1, d['v1'])])
        m1 = d['m1']
        d['zero'] = land(*[cmp('==', q, 0) for q in m1])
        if d['regular']:
            d['exact'] = True
            z = V.ring('the end in the plane of the turn', cmp('==', mul(Z, d['h']), 0), Zd, *(d['nh'] + d['mdef']))
            V.algebra('the end is perpendicular to the axis', cmp('==', Z, 0), z, d['h>0'], opaque=[d['h']])
        else:
            # same or opposite points
            d['exact'] = d['zero']
        with V.when(d['exact']):
            if not d['regular']:
                zs = []
                for q, e in zip(m1, d['m1def']):
                    V.known_fact(cmp('==', q, 0))
                    zs.append(V.ring('u x v', cmp('==', sub(e_right(e, q), 0), 0), plus=[(-1, e), (1, cmp('==', q, 0))]))
                par = []
                for k in R3:
                    a, b = (k + 1) % 3, (k + 2) % 3
                    # v - (v.u) u = -(u x (u x v)) - v (u.u - 1)
                    par.append(V.ring('the end is on the line of the start', cmp('==', w[k], mul(X, u[k])), Xd,
                                      plus=[(mul(-1, w[k]), d['u1']), (mul(-1, u[a]), zs[b]), (u[b], zs[a])]))
                V.ring('the end is perpendicular to the axis', cmp('==', Z, 0), Zd, *par, plus=[(X, d['nu'])])
            one = V.ring('the end in the plane', cmp('==', add(mul(X, X), mul(Y, Y)), 1), plus=[(1, length), (mul(-1, Z), cmp('==', Z, 0))])
            xe, ye = V.ring('first coordinate', cmp('==', x, X), Xd), V.ring('second coordinate', cmp('==', y, Y), Yd)
            ca = Sym(K.lift(c0).arg(0))
            known = V.lemma('the angle', cmp('==', ca, d['al']))
            for nm, f, r, g in (('cos', c0, X, c), ('sin', s0, Y, s)):
                V.derive(nm + ' of the angle', cmp('==', f, r), known, xe, ye, one, opaque=[x, y])
                d[nm] = V.ring(nm, cmp('==', g, r), cmp('==', g, f), cmp('==', f, r))

    def frame(self, get, env):
        V, d = self.V, self.d
        T = d['T'] = [[get(k, l) for l in R3] for k in R3]
        d['Tdef'] = [cmp('==', T[k][l], d['T0'][k][l]) for k in R3 for l in R3]
        e = [cmp('==', T[k][l], (d['u'], d['t'], d['n'])[l][k]) for k in R3 for l in R3]
        for q, p in zip(e, d['Tdef']):
            V.lemma('the frame', q)
        d['T='] = e
        det = d['det'] = det3(*[[T[k][l] for k in R3] for l in R3])
        d['det1'] = V.ring('the determinant of the frame', cmp('==', det, 1), *(e + d['rules']))

    def inverse(self, get, env):
        V, d = self.V, self.d
        I = d['I'] = [[get(k, l) for l in R3] for k in R3]
        T, out = d['T'], []
        idet = None
        for row in d['I0']:
            for x in row:
                for y in consts(K.lift(x)):
                    if y.decl().name().startswith('idet'):
                        idet = Sym(y)
        one = None
        if idet is not None:
            V.lemma('the determinant', cmp('==', mul(idet, d['det']), 1))
            one = V.algebra('one over the determinant', cmp('==', idet, 1), cmp('==', mul(idet, d['det']), 1), d['det1'])
        for k in R3:
            for l in R3:
                q = cmp('==', I[k][l], d['I0'][k][l])
                out.append(V.ring('the inverse is the transpose', cmp('==', I[k][l], T[l][k]), *([q] + ([one] if one is not None else []) + d['T='] + d['rules'])))
        d['I='] = out


    def matrix(self):
        """the matrix of the rotation: M = T R T^-1, and the rules of a rotation"""
        V, d = self.V, self.d
        T, R, I = d['T'], d['R'], d['I']
        ex = [[plus(*[mul(T[k][a], mul(R[a][b], I[b][c])) for a in R3 for b in R3]) for c in R3] for k in R3]
        fl, eqs = name3(V, 'M', [ex[k][c] for k in R3 for c in R3])
        M = d['M'] = [fl[3 * k:3 * k + 3] for k in R3]
        d['Mdef'] = eqs
        frame = d['R='] + d['I='] + d['T='] + d['rules'] + [d['sc']]
        cols = [[M[k][c] for k in R3] for c in R3]
        d['Mrules'] = so3(V, 'rotation', cols, lambda nm, q: V.ring(nm, q, *(eqs + frame)))
        with V.when(d['exact']):
            X, Y, Z = d['w']
            u, t, n, w = d['u'], d['t'], d['n'], d['v']
            d['Mu'] = []
            for k in R3:
                a = V.ring('image of the start', cmp('==', dot3(M[k], u), add(mul(d['c'], u[k]), mul(d['s'], t[k]))), *(eqs + frame))
                b = V.ring('the end in the frame', cmp('==', plus(mul(X, u[k]), mul(Y, t[k]), mul(Z, n[k])), w[k]), *(list(d['wd']) + d['rules']))
                d['Mu'].append(V.ring('the start goes to the end', cmp('==', dot3(M[k], u), w[k]), plus=[
                    (1, a), (u[k], d['cos']), (t[k], d['sin']), (1, b), (mul(-1, n[k]), cmp('==', Z, 0))]))
        d['Mn'] = [V.ring('the axis', cmp('==', dot3(M[k], n), n[k]), *(eqs + frame)) for k in R3]
        with V.when(d['exact']):
            d['Mm'] = []
            m1 = d['m1']
            for k in R3:
                if d['regular']:
                    # m = h n
                    d['Mm'].append(V.ring('u x v is the axis', cmp('==', dot3(M[k], m1), m1[k]), plus=[(mul(-1, M[k][l]), d['nh'][l]) for l in R3] + [(1, d['nh'][k]), (d['h'], d['Mn'][k])]))
                else:
                    d['Mm'].append(V.ring('u x v is the axis', cmp('==', dot3(M[k], m1), m1[k]), *[cmp('==', q, 0) for q in m1]))

    def half(self):
        """from one pole to the other: a half turn"""
        V, d = self.V, self.d
        if d['regular']:
            V.lemma('the axis of a regular rotation', False)
            return
        u, t, n, h, w, M = d['u'], d['t'], d['n'], d['h'], d['v'], d['M']
        z = [V.known_fact(cmp('==', u[k], 0)) for k in (0, 1)]
        opp = [V.known_fact(cmp('==', w[k], mul(-1, u[k]))) for k in R3]
        if d['e'][2] == 1:
            V.lemma('a pole is not near the equator', False)
            return
        V.lemma('same or opposite points', d['zero'])
        fl = []
        for k in (0, 2):
            e = V.ring('the axis of the half turn', cmp('==', mul(n[k], h), 0), *(d['nh'] + d['mdef'] + z))
            fl.append(V.algebra('the axis of the half turn', cmp('==', n[k], 0), e, d['h>0'], opaque=[h]))
        fl.append(V.ring('the axis of the half turn', cmp('==', mul(n[1], n[1]), 1), *fl, plus=[(1, d['nn'])]))
        c = V.ring('cos of a half turn', cmp('==', d['c'], -1), *([d['cos']] + list(d['wd']) + opp), plus=[(-1, d['u1'])])
        y = V.ring('sin of a half turn', cmp('==', d['s'], 0), *([d['sin']] + list(d['wd']) + opp + d['rules']))
        frame = d['R='] + d['I='] + d['T=']
        for k in R3:
            for l in R3:
                V.ring('half turn', cmp('==', M[k][l], HALFTURN[k][l]), *(d['Mdef'] + frame + [c, y] + fl + d['rules'] + fl))


def e_right(e, q):
    """the other side of an equation"""
    t = K.tobool(e)
    return Sym(t.arg(1)) if t.arg(0).eq(K.lift(q)) else Sym(t.arg(0))


def consts(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        elif z3.is_app(x):
            st.extend(x.children())
    return out


# ------------------------------------------------------------------ the contract of a rotation
def given(V, *qs):
    """known from here on (a part of a contract)"""
    for q in qs:
        V.ctx.fact(q)
        V.established.append((K.tobool(q).get_id(), list(V.ctx.path), q))


def point_of(V, phi, theta, nm='p'):
    """named coordinates of a point of the unit sphere, what defines them, and that the length is 1"""
    memo = V.__dict__.setdefault('points', {})
    key = (K.lift(K.toreal_s(phi)).get_id(), K.lift(K.toreal_s(theta)).get_id())
    if key not in memo:
        vals = [strip(x) if isinstance(x, Sym) else x for x in spec_s2c(Fraction(1), phi, theta, 0, 0, 0)]
        if all(not isinstance(x, Sym) for x in vals):
            one = V.known_fact(cmp('==', dot3(vals, vals), 1))
            memo[key] = (vals, [], one, (phi, theta))
        else:
            memo[key] = unit(V, phi, theta, nm) + ((phi, theta),)
    return memo[key][:3]


class Rotation(object):
    """the result of a function that rotates the sphere: the matrix M, as the rules of a rotation, and where points go"""
    def __init__(self, V, nm):
        self.V, self.nm = V, nm
        self.M = [[V.ctx.fresh('%s%d%d' % (nm, k, c), K.R) for c in R3] for k in R3]
        self.rules = []
        so3(V, nm, [[self.M[k][c] for k in R3] for c in R3], lambda n, q: (given(V, q), self.rules.append(q)))
        self.P, self.T = [V.ctx.fresh_fun('%s_%s' % (nm, x), K.R, K.R, K.R) for x in ('phi', 'theta')]
        for F, top in ((self.P, 2 * K.PI_T), (self.T, K.PI_T)):
            def ax(p, x, top=top):
                p.add(x >= 0)
                p.add(x <= top)
            solve.AX[F(z3.RealVal(0), z3.RealVal(0)).decl().name()] = ax

    def results(self, phi, theta):
        def el(F):
            def g(p, t):
                b = K.bor(K.badof(p), K.badof(t))
                x = F(K.lift(K.toreal_s(strip(p))), K.lift(K.toreal_s(strip(t))))
                return Sym(x) if b is None else Sym(x, b)
            return A.elementwise(g, 'f', phi, theta)
        return el(self.P), el(self.T)

    def at(self, phi, theta):
        """a point, its image, and the equations image = M point (an instance of the contract)"""
        V = self.V
        phi, theta = strip(phi), strip(theta)
        p = point_of(V, phi, theta)[0]
        q = point_of(V, Sym(self.P(K.lift(K.toreal_s(phi)), K.lift(K.toreal_s(theta)))), Sym(self.T(K.lift(K.toreal_s(phi)), K.lift(K.toreal_s(theta)))), 'q')[0]
        eqs = [cmp('==', q[k], dot3(self.M[k], p)) for k in R3]
        given(V, *eqs)
        return p, q, eqs


def ranges(V, *pairs):
    for nm, x, top in pairs:
        V.require('%s in range' % nm, land(cmp('<=', 0, strip(x)), cmp('<=', strip(x), mul(top, K.PI()))))


def exact(u, v):
    """the start is rotated to the end precisely: the points are not within rounding of each other or of opposite points"""
    m = cross3(u, v)
    return lor(cmp('>=', dot3(m, m), mul(TINY, TINY)), land(*[cmp('==', x, 0) for x in m]))


def poles(u, v):
    return land(cmp('==', u[0], 0), cmp('==', u[1], 0), *[cmp('==', b, mul(-1, a)) for a, b in zip(u, v)])


HALFTURN = [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]


def s_rotate(V, env, log=None):
    """usphere_rotate"""
    pe, te, ps, ts = [strip(env[n]) for n in ('phi_end', 'theta_end', 'phi_start', 'theta_start')]
    V.require('start and end differ', lor(cmp('!=', ps, pe), cmp('!=', ts, te)))
    ranges(V, ('phi_start', ps, 2), ('phi_end', pe, 2), ('theta_start', ts, 1), ('theta_end', te, 1))
    r = Rotation(V, 'M')
    r.u, r.v = point_of(V, ps, ts, 'u')[0], point_of(V, pe, te, 'v')[0]
    m = r.m = cross3(r.u, r.v)
    r.exact, r.poles = exact(r.u, r.v), poles(r.u, r.v)
    with V.when(r.exact):
        r.Mu = [cmp('==', dot3(r.M[k], r.u), r.v[k]) for k in R3]
        r.Mm = [cmp('==', dot3(r.M[k], m), m[k]) for k in R3]
        given(V, *(r.Mu + r.Mm))
    with V.when(r.poles):
        r.half = [cmp('==', r.M[k][l], HALFTURN[k][l]) for k in R3 for l in R3]
        given(V, *r.half)
    if log is not None:
        log.append(r)
    return r.results(env['phi'], env['theta'])


def kept(V, M, rules, p=None):
    """separations and handedness are kept, for any points"""
    w = [name3(V, 'w', [V.ctx.fresh('any', K.R) for _ in R3])[0] for _ in R3]
    im = [apply3(M, x) for x in w]
    V.ring('the separation of any two points is kept', cmp('==', dot3(im[0], im[1]), dot3(w[0], w[1])), *rules)
    V.ensure('separations are kept', cmp('==', dot3(im[0], im[1]), dot3(w[0], w[1])))
    V.ring('the handedness of any three points is kept', cmp('==', det3(*im), det3(*w)), *rules)
    V.ensure('handedness is kept', cmp('==', det3(*im), det3(*w)))


def sky(V, kind):
    if kind == 'scalar':
        return V.real('phi'), V.real('theta'), None
    n = V.int('n', 0)
    return V.array('phi', n), V.array('theta', n), n


def each(V, kind, n, r, phi, theta, check):
    """check(phi', theta', phi, theta) at every point of the results"""
    V.ensure('two results', isinstance(r, (tuple, list)) and len(r) == 2)
    if not (isinstance(r, (tuple, list)) and len(r) == 2):
        return
    if kind == 'scalar':
        r = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in r]
        ok = all(K.is_scalar(x) for x in r)
        V.ensure('scalar results', ok)
        if ok:
            check(r[0], r[1], phi, theta, ())
        return
    if all([V.shape(nm, x, [n], 'f') for nm, x in zip(('phi', 'theta'), r)]):
        with V.forall(n) as ix:
            check(r[0].at(*ix), r[1].at(*ix), phi.at(*ix), theta.at(*ix), ix)


def in_range_post(V, p, t):
    V.defined('phi is a number', p)
    V.defined('theta is a number', t)
    V.ensure('phi in [0, 2pi]', land(cmp('<=', 0, strip(p)), cmp('<=', strip(p), TWOPI())))
    V.ensure('theta in [0, pi]', land(cmp('<=', 0, strip(t)), cmp('<=', strip(t), K.PI())))


def round_trip(V):
    """sphere to cartesian after cartesian to sphere, for unit vectors"""
    sp = lambda x, y, z: spec_c2s(x, y, z, Fraction(0), Fraction(0), Fraction(0))

    def post(x, y, z):
        r, p, t = sp(x, y, z)
        return land(*([cmp('==', a, b) for a, b in zip(spec_s2c(Fraction(1), p, t, 0, 0, 0), (x, y, z))] + [
            cmp('<=', 0, p), cmp('<=', p, TWOPI()), cmp('<=', 0, t), cmp('<=', t, K.PI())]))

    def proof(x, y, z):
        r, p, t = sp(x, y, z)
        V.lemma('r', cmp('==', r, 1))
        V.lemma('theta', cmp('==', t, strip(K.acos(z))))
        V.lemma('cos', cmp('==', K.cos(t), z))
        V.lemma('sin', cmp('==', K.sin(t), K.sqrt(add(mul(x, x), mul(y, y)))))
    return V.lemma_fn('cartesian and back', 'rrr', lambda x, y, z: cmp('==', dot3([x, y, z], [x, y, z]), 1), post, proof)


for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        V.prog.merge_bool = True
        pe, te, ps, ts = in_range(V, 'phi_end', 'theta_end', 'phi_start', 'theta_start')
        V.assume(lor(cmp('!=', ps, pe), cmp('!=', ts, te)))
        phi, theta, n = sky(V, kind)
        trip = round_trip(V)
        F = Frame(V)

        def s2c(V, env):
            from .k_coords import several, center_of
            r, p, t = env['r'], env['phi'], env['theta']
            d = F.d
            if any(isinstance(x, (Arr, Sel)) for x in (r, p, t)) or 'v' in d:
                return several(spec_s2c, 3, [r, p, t], center_of(env, 3))
            nm = 'v' if 'u' in d else 'u'
            x, eqs, one = unit(V, p, t, nm)
            d[nm], d[nm + '1'] = x, one
            return tuple(x)
        V.stub_with(S2C, s2c, expected=True)

        def c2s(V, env):
            """cart2sphere (C08), with names for the coordinates"""
            from .k_coords import several
            d = F.d
            F.matrix()
            xs = [env['x'], env['y'], env['z']]
            V.require('the center is the origin', land(*[cmp('==', q, 0) for q in (env['center'] if not isinstance(env['center'], Arr) else [env['center'].at(k) for k in R3])]))
            if kind == 'scalar':
                xs = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in xs]
                q, eqs = name3(V, 'q', xs)
                d['q'] = lambda ix: (q, eqs)
                return tuple(spec_c2s(*([Sym(a.t, K.badof(x)) for a, x in zip(q, xs)] + [Fraction(0)] * 3)))
            if not all(isinstance(x, Arr) and x.ndim == 1 for x in xs):
                raise Unsupported('the coordinates')
            fs = [x.fn() for x in xs]
            Q = [V.ctx.fresh_fun('q', K.I, K.R) for _ in R3]

            def named(ix):
                q = [Sym(f(*[K.lift(i) for i in ix])) for f in Q]
                eqs = [cmp('==', a, strip(f(tuple(ix)))) for a, f in zip(q, fs)]
                given(V, *eqs)
                return q, eqs
            d['q'] = named
            xs = [Arr(Buf(list(x.dims), lambda ix, f=f, g=g: Sym(g(*[K.lift(i) for i in ix]), K.badof(f(tuple(ix)))), 'f')) for x, f, g in zip(xs, fs, Q)]
            return several(spec_c2s, 3, xs, [Fraction(0)] * 3)
        V.stub_with(C2S, c2s, expected=True)

        def go():
            F.clear()
            return V.call(ROT, [phi, theta, pe, te], dict(phi_start=ps, theta_start=ts))

        def post(r):
            d = F.d
            M, u, v = d['M'], d['u'], d['v']

            def check(p, t, p0, t0, ix):
                q, eqs = d['q'](ix)
                w = spec_s2c(Fraction(1), strip(p0), strip(t0), 0, 0, 0)
                x, xeq, one = unit(V, strip(p0), strip(t0), 'p')
                img = [V.ring('the matrix', cmp('==', q[k], dot3(M[k], x)), *(eqs + d['Mdef'] + xeq)) for k in R3]
                V.ring('the image is a unit vector', cmp('==', dot3(q, q), 1), *(img + d['Mrules']), plus=[(1, one)])
                trip(*q)
                in_range_post(V, p, t)
                pos = spec_s2c(Fraction(1), strip(p), strip(t), 0, 0, 0)
                for k in R3:
                    V.lemma('the result is the image', cmp('==', pos[k], q[k]))
                for k in R3:
                    e = V.ring('the image of the point', cmp('==', dot3(M[k], w), dot3(M[k], x)), *xeq)
                    V.derive('the position', cmp('==', pos[k], dot3(M[k], w)), cmp('==', pos[k], q[k]), img[k], e, opaque=[pos[k], q[k], dot3(M[k], x), dot3(M[k], w)])
                for k in R3:
                    V.ensure('the position is the rotated one', cmp('==', pos[k], dot3(M[k], w)))
            each(V, kind, n, r, phi, theta, check)
            if kind == 'scalar':
                kept(V, M, d['Mrules'])
                m = cross3(u, v)
                with V.when(exact(u, v)):
                    if not d['regular']:
                        m1 = d['m1']
                        ex = V.known_fact(exact(u, v))
                        a = V.ring('length of u x v', cmp('==', dot3(m1, m1), dot3(m, m)), *d['m1def'])
                        es = [V.ring('u x v', cmp('==', x, y), e) for x, y, e in zip(m1, m, d['m1def'])]
                        z = V.derive('same or opposite points', d['zero'], ex, a, d['near'], *es, opaque=m1 + m + [dot3(m1, m1), dot3(m, m)])
                        for k in R3:
                            for q in (cmp('==', dot3(M[k], u), v[k]), cmp('==', dot3(M[k], m1), m1[k])):
                                V.derive('then', q, z, V.lemma('if they are the same', implies(d['zero'], q)))
                    for k in R3:
                        if d['Mm'][k] is not None:
                            V.ring('the axis', cmp('==', dot3(M[k], m), m[k]), plus=[(1, cmp('==', dot3(M[k], d['m1']), d['m1'][k])), (1, d['m1def'][k])] + [(mul(-1, M[k][l]), d['m1def'][l]) for l in R3])
                    for k in R3:
                        V.ensure('the start goes to the end', cmp('==', dot3(M[k], u), v[k]))
                    for k in R3:
                        V.ensure('along the shortest line (u x v is the axis)', cmp('==', dot3(M[k], m), m[k]))
                with V.when(poles(u, v)):
                    F.half()
                    for k in R3:
                        for l in R3:
                            V.ensure('from pole to pole', cmp('==', M[k][l], HALFTURN[k][l]))
        V.functions.add(ROT)
        V.run(go, [], name='usphere_rotate', post=post, raises=lambda e: False)
    task('C11', name='usphere_rotate[%s]' % kind)(t)


# ------------------------------------------------------------------ usphere_phi_shift, as it is used here
SHIFTED = z3.Function('phi_shifted', K.R, K.R, K.R)


def ax_shifted(p, x):
    phi, d = x.children()
    p.add(z3.Or(x == phi + d, x == phi + d + 2 * K.PI_T, x == phi + d - 2 * K.PI_T))
    p.add(z3.And(x >= 0, x <= 2 * K.PI_T))


solve.AX['phi_shifted'] = ax_shifted


def shifted(phi, d):
    return Sym(SHIFTED(K.lift(K.toreal_s(phi)), K.lift(K.toreal_s(d))))


@stub('magpie.coords.usphere.usphere_phi_shift')
def s_phi_shift(V, env):
    """the contract of C12: equal modulo 2 pi, and in range"""
    phi, d = env['phi'], strip(env['dphi'])
    ranges(V, )
    V.require('dphi in range', land(cmp('<=', mul(-2, K.PI()), d), cmp('<=', d, TWOPI())))
    inside = lambda x: land(cmp('<=', 0, strip(x)), cmp('<=', strip(x), TWOPI()))
    if isinstance(phi, Arr):
        with V.forall(*phi.shape()) as ix:
            V.require('phi in range', inside(phi.at(*ix)))
            b = K.badof(phi.at(*ix))
            if b is not None:
                V.require('phi is a number', Sym(z3.Not(b)))
    else:
        V.require('phi in range', inside(phi))

    def el(p):
        b = K.badof(p)
        x = shifted(strip(p), d)
        return x if b is None else Sym(x.t, b)
    return A.elementwise(el, 'f', phi)


def addition(V, a, b):
    """instances of the addition theorems for a + b"""
    s = add(a, b)
    given(V, cmp('==', K.cos(s), sub(mul(K.cos(a), K.cos(b)), mul(K.sin(a), K.sin(b)))),
          cmp('==', K.sin(s), add(mul(K.sin(a), K.cos(b)), mul(K.cos(a), K.sin(b)))))
    return [cmp('==', K.cos(s), sub(mul(K.cos(a), K.cos(b)), mul(K.sin(a), K.sin(b)))),
            cmp('==', K.sin(s), add(mul(K.sin(a), K.cos(b)), mul(K.cos(a), K.sin(b))))]


class Turn(object):
    """turning the longitude by d"""
    def __init__(self, V, d):
        self.V, self.d = V, strip(d) if isinstance(d, Sym) else d
        V_ = V
        if isinstance(self.d, Sym):
            (self.c, self.s), self.eqs = name3(V, 'turn', [K.cos(self.d), K.sin(self.d)])
            a = V.derive('sin^2 + cos^2 = 1', cmp('==', mul(K.sin(self.d), K.sin(self.d)), sub(1, mul(K.cos(self.d), K.cos(self.d)))))
            self.rule = [V.ring('sin^2 + cos^2 = 1', cmp('==', mul(self.s, self.s), sub(1, mul(self.c, self.c))), *(self.eqs + [a]))]
        else:
            self.c, self.s, self.eqs, self.rule = K.cos(self.d), K.sin(self.d), [], []
        self.M = [[self.c, mul(-1, self.s), 0], [self.s, self.c, 0], [0, 0, 1]]

    def at(self, phi, theta):
        """the point, its image when the longitude is shifted, and the equations image = M point"""
        V, d = self.V, self.d
        phi, theta = strip(phi), strip(theta)
        p, peq, _ = point_of(V, phi, theta)
        new = shifted(phi, d)
        q, qeq, _ = point_of(V, new, theta, 'q')
        ad = addition(V, phi, d)
        st = add(phi, d)
        dc = V.derive('cos of the shifted longitude', cmp('==', K.cos(new), K.cos(st)))
        ds = V.derive('sin of the shifted longitude', cmp('==', K.sin(new), K.sin(st)))
        return p, q, [V.ring('the turned point', cmp('==', q[k], dot3(self.M[k], p)), *(qeq + peq + [dc, ds] + ad + self.eqs)) for k in R3]


def product(*Ms):
    r = Ms[0]
    for M in Ms[1:]:
        r = [[plus(*[mul(r[i][k], M[k][j]) for k in R3]) for j in R3] for i in R3]
    return r


def matrix_named(V, nm, ex, *rules):
    """a named product of rotations, and its rules"""
    fl, eqs = name3(V, nm, [ex[k][c] for k in R3 for c in R3])
    M = [fl[3 * k:3 * k + 3] for k in R3]
    out = so3(V, nm, [[M[k][c] for k in R3] for c in R3], lambda n, q: V.ring(n, q, *(eqs + list(rules))))
    return M, eqs, out


def on_sky(V, kind, phi, theta):
    inside = lambda x, y: land(cmp('<=', 0, x), cmp('<=', x, TWOPI()), cmp('<=', 0, y), cmp('<=', y, K.PI()))
    if kind == 'scalar':
        V.assume(inside(phi, theta))
    else:
        V.forall_fact(1, lambda ix: inside(phi.at(*ix), theta.at(*ix)))


def s_shift(V, env, log=None):
    """usphere_shift: the longitude is turned by the difference, then the shortest rotation along the meridian (if any)"""
    pe, te, ps, ts = [strip(env[n]) if isinstance(env[n], Sym) else env[n] for n in ('phi_end', 'theta_end', 'phi_start', 'theta_start')]
    ranges(V, ('phi_start', ps, 2), ('phi_end', pe, 2), ('theta_start', ts, 1), ('theta_end', te, 1))
    r = Rotation(V, 'A')
    R = r.rot = Rotation(V, 'M')
    tn = r.turn = Turn(V, sub(pe, ps))
    R.u, R.v = point_of(V, pe, ts, 'u')[0], point_of(V, pe, te, 'v')[0]
    m = R.m = cross3(R.u, R.v)
    R.exact, R.poles, r.same = exact(R.u, R.v), poles(R.u, R.v), cmp('==', ts, te)
    r.eqs = [cmp('==', r.M[k][l], product(R.M, tn.M)[k][l]) for k in R3 for l in R3]
    given(V, *r.eqs)
    with V.when(R.exact):
        R.Mu = [cmp('==', dot3(R.M[k], R.u), R.v[k]) for k in R3]
        R.Mm = [cmp('==', dot3(R.M[k], m), m[k]) for k in R3]
        given(V, *(R.Mu + R.Mm))
    R.one = [cmp('==', R.M[k][l], 1 if k == l else 0) for k in R3 for l in R3]
    with V.when(r.same):
        given(V, *R.one)
    R.half = [cmp('==', R.M[k][l], HALFTURN[k][l]) for k in R3 for l in R3]
    with V.when(land(R.poles, lnot(r.same))):
        given(V, *R.half)
    if log is not None:
        log.append(r)
    return r.results(env['phi'], env['theta'])


SHF, SPN = 'magpie.coords.usphere.usphere_shift', 'magpie.coords.usphere.usphere_spin'
for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        V.prog.merge_bool = True
        ps, ts, pe, te = in_range(V, 'phi_start', 'theta_start', 'phi_end', 'theta_end')
        phi, theta, n = sky(V, kind)
        on_sky(V, kind, phi, theta)
        log = []
        V.use('magpie.coords.usphere.usphere_phi_shift')
        V.stub_with(ROT, lambda V, env: s_rotate(V, env, log))

        def go():
            V.points = {}
            del log[:]
            return V.call(SHF, [phi, theta, ps, ts, pe, te])

        def post(r):
            same = not log
            tn = Turn(V, sub(pe, ps))
            rot = log[0] if log else None
            M, eqs, rules = matrix_named(V, 'A', product(rot.M, tn.M) if rot else tn.M, *((rot.rules if rot else []) + tn.rule))

            def check(p, t, p0, t0, ix):
                w, q, e = tn.at(p0, t0)
                if rot:
                    q, x, e2 = rot.at(shifted(strip(p0), tn.d), t0)
                else:
                    x, e2 = q, []
                img = [V.ring('the matrix', cmp('==', x[k], dot3(M[k], w)), *(e2 + e + eqs)) for k in R3]
                in_range_post(V, p, t)
                pos = spec_s2c(Fraction(1), strip(p), strip(t), 0, 0, 0)
                v0 = spec_s2c(Fraction(1), strip(p0), strip(t0), 0, 0, 0)
                weq = point_of(V, strip(p0), strip(t0))[1]
                for k in R3:
                    a = V.lemma('the position', cmp('==', pos[k], x[k]))
                    b = V.ring('the point', cmp('==', dot3(M[k], w), dot3(M[k], v0)), *weq)
                    V.derive('the position', cmp('==', pos[k], dot3(M[k], v0)), a, img[k], b, opaque=[pos[k], x[k], dot3(M[k], w), dot3(M[k], v0)])
                    V.ensure('the position is the rotated one', cmp('==', pos[k], dot3(M[k], v0)))
            each(V, kind, n, r, phi, theta, check)
            if kind == 'scalar':
                kept(V, M, rules)
                st, en = point_of(V, ps, ts, 'start')[0], point_of(V, pe, te, 'end')[0]
                w, q, e = tn.at(ps, ts)
                # the shifted longitude of the start is that of the end
                u, ueq, _ = point_of(V, pe, ts)
                mid = V.known_fact(cmp('==', add(ps, tn.d), pe))
                V.lemma('the longitude of the end', land(cmp('==', K.cos(shifted(ps, tn.d)), K.cos(pe)), cmp('==', K.sin(shifted(ps, tn.d)), K.sin(pe))))
                cc, ss = [V.known_fact(cmp('==', f(shifted(ps, tn.d)), f(pe))) for f in (K.cos, K.sin)]
                qeq = point_of(V, shifted(ps, tn.d), ts)[1]
                eu = [V.ring('the start at the longitude of the end', cmp('==', q[k], u[k]), *(qeq + ueq + [cc, ss])) for k in R3]
                with V.when(rot.exact if rot else True):
                    for k in R3:
                        if rot:
                            a = V.ring('the start goes to the end', cmp('==', dot3(M[k], st), dot3(rot.M[k], u)), *eqs, plus=[(mul(-1, rot.M[k][j]), e[j]) for j in R3] + [(rot.M[k][j], eu[j]) for j in R3])
                            V.ring('the start goes to the end', cmp('==', dot3(M[k], st), en[k]), plus=[(1, a), (1, rot.Mu[k])])
                        else:
                            V.lemma('the end', cmp('==', u[k], en[k]))
                            V.ring('the start goes to the end', cmp('==', dot3(M[k], st), en[k]), *eqs, plus=[(-1, e[k]), (1, eu[k]), (1, cmp('==', u[k], en[k]))])
                        V.ensure('the start goes to the end', cmp('==', dot3(M[k], st), en[k]))
        V.functions.add(SHF)
        V.run(go, [], name='usphere_shift', post=post)
    task('C11', name='usphere_shift[%s]' % kind)(t)


for kind in ('scalar', '1d'):
    def t(V, kind=kind):
        V.prog.merge_bool = True
        pc, tc = in_range(V, 'phi_center', 'theta_center')
        al = V.real('alpha')
        V.assume(land(cmp('<=', 0, al), cmp('<=', al, TWOPI())))
        phi, theta, n = sky(V, kind)
        on_sky(V, kind, phi, theta)
        log = []
        V.use('magpie.coords.usphere.usphere_phi_shift')
        V.stub_with(SHF, lambda V, env: s_shift(V, env, log), expected=True)

        def go():
            V.points = {}
            del log[:]
            return V.call(SPN, [phi, theta, pc, tc, al])

        def post(r):
            if len(log) != 2:
                raise Unsupported('a spin that is not two shifts')
            A1, A2 = log
            tn = Turn(V, al)
            every = A1.rules + A2.rules + tn.rule
            M, eqs, rules = matrix_named(V, 'C', product(A2.M, tn.M, A1.M), *every)

            def check(p, t, p0, t0, ix):
                w, q, e1 = A1.at(p0, t0)
                p1, t1 = Sym(A1.P(K.lift(strip(p0)), K.lift(strip(t0)))), Sym(A1.T(K.lift(strip(p0)), K.lift(strip(t0))))
                q, x, e2 = tn.at(p1, t1)
                x, y, e3 = A2.at(shifted(p1, tn.d), t1)
                img = [V.ring('the matrix', cmp('==', y[k], dot3(M[k], w)), *(e3 + e2 + e1 + eqs)) for k in R3]
                in_range_post(V, p, t)
                pos = spec_s2c(Fraction(1), strip(p), strip(t), 0, 0, 0)
                v0 = spec_s2c(Fraction(1), strip(p0), strip(t0), 0, 0, 0)
                weq = point_of(V, strip(p0), strip(t0))[1]
                for k in R3:
                    a = V.lemma('the position', cmp('==', pos[k], y[k]))
                    b = V.ring('the point', cmp('==', dot3(M[k], w), dot3(M[k], v0)), *weq)
                    V.derive('the position', cmp('==', pos[k], dot3(M[k], v0)), a, img[k], b, opaque=[pos[k], y[k], dot3(M[k], w), dot3(M[k], v0)])
                    V.ensure('the position is the rotated one', cmp('==', pos[k], dot3(M[k], v0)))
            each(V, kind, n, r, phi, theta, check)
            if kind != 'scalar':
                return
            kept(V, M, rules)
            c, ceq, one = point_of(V, pc, tc, 'c')
            ca, sa = tn.c, tn.s
            cr = [[0, mul(-1, c[2]), c[1]], [c[2], 0, mul(-1, c[0])], [mul(-1, c[1]), c[0], 0]]
            rod = [[plus(mul(ca, 1 if k == l else 0), mul(sa, cr[k][l]), mul(sub(1, ca), mul(c[k], c[l]))) for l in R3] for k in R3]
            M1, M2 = A1.rot, A2.rot
            d1 = A1.turn.eqs + A2.turn.eqs
            V.ensure('the shifts keep the longitude', land(cmp('==', A1.turn.c, 1), cmp('==', A1.turn.s, 0), cmp('==', A2.turn.c, 1), cmp('==', A2.turn.s, 0)))
            still = [V.known_fact(cmp('==', x, y)) for x, y in ((A1.turn.c, 1), (A1.turn.s, 0), (A2.turn.c, 1), (A2.turn.s, 0)) if isinstance(x, Sym)]
            base = eqs + A1.eqs + A2.eqs + still
            m = M1.m
            S = dot3(m, m)

            def spec():
                for k in R3:
                    for l in R3:
                        V.ensure('turned about the center by alpha', cmp('==', M[k][l], rod[k][l]))
            # the general case
            with V.when(cmp('>=', S, mul(TINY, TINY))):
                V.lemma('not at a pole', land(M1.exact, M2.exact))
                for q in M1.Mu + M1.Mm + M2.Mu + M2.Mm:
                    V.known_fact(q)
                w = cross3(c, m)
                e3 = [0, 0, 1]
                pole = [V.lemma('the pole', cmp('==', x, y)) for x, y in list(zip(M1.v, e3)) + list(zip(M2.u, e3)) if isinstance(x, Sym)]
                uu = [cmp('==', mul(c[0], c[0]), sub(sub(1, mul(c[1], c[1])), mul(c[2], c[2])))]
                V.ring('c.c', uu[0], plus=[(1, one)])
                # columns: C a for a = c, m, c x m
                Mm = [V.ring('the axis back', cmp('==', dot3(M2.M[k], m), m[k]), plus=[(-1, M2.Mm[k])]) for k in R3]
                f = cross3(e3, m)
                # M1 (c x m) = e3 x m and M2 (e3 x m) = c x m
                def through(R, a, b, ia, ib, ea, eb, nm):
                    """R (a x b) = ia x ib"""
                    out = []
                    ab, iab = cross3(a, b), cross3(ia, ib)
                    Ra, Rb = apply3(R.M, a), apply3(R.M, b)
                    for k in R3:
                        i, j = (k + 1) % 3, (k + 2) % 3
                        x = V.ring(nm, cmp('==', dot3(R.M[k], ab), cross3(Ra, Rb)[k]), *R.rules)
                        out.append(V.ring(nm, cmp('==', dot3(R.M[k], ab), iab[k]), *pole, plus=[
                            (1, x), (Rb[j], ea[i]), (ia[i], eb[j]), (mul(-1, Rb[i]), ea[j]), (mul(-1, ia[j]), eb[i])]))
                    return out
                W1 = through(M1, c, m, e3, m, M1.Mu, M1.Mm, 'to the pole')
                W2 = through(M2, e3, m, c, m, M2.Mu, Mm, 'and back')
                cols = []
                for a, i1, e1, nm in ((c, e3, M1.Mu, 'center'), (m, m, M1.Mm, 'axis'), (w, f, W1, 'third')):
                    ti = apply3(tn.M, i1)      # after the turn
                    # ti as a combination of e3, m, f
                    co = {'center': (1, 0, 0), 'axis': (0, ca, sa), 'third': (0, mul(-1, sa), ca)}[nm]
                    res = []
                    for k in R3:
                        x = V.ring('image of the %s' % nm, cmp('==', dot3(M[k], a), dot3(M2.M[k], ti)), *(base + pole),
                                   plus=[(dot3(M2.M[k], [tn.M[q][j] for q in R3]), e1[j]) for j in R3])
                        want = plus(*[mul(cc, z[k]) for cc, z in zip(co, (c, m, w))])
                        y = V.ring('turned %s' % nm, cmp('==', dot3(M2.M[k], ti), want), *pole, plus=[(co[0], M2.Mu[k]), (co[1], Mm[k]), (co[2], W2[k])])
                        res.append(V.ring('image of the %s' % nm, cmp('==', dot3(M[k], a), want), plus=[(1, x), (1, y)]))
                    cols.append(res)
                pos = V.known_fact(cmp('>=', S, mul(TINY, TINY)))
                (s_,), (sd,) = name3(V, 'S', [S])
                ps = V.derive('the distance from the axis', cmp('>', s_, 0), sd, pos, opaque=[S])
                for k in R3:
                    for l in R3:
                        (D,), (Dd,) = name3(V, 'D', [sub(M[k][l], rod[k][l])])
                        z = V.ring('entry', cmp('==', mul(D, s_), 0), Dd, sd, *uu, plus=[(mul(S, c[l]), cols[0][k]), (m[l], cols[1][k]), (w[l], cols[2][k])])
                        z = V.algebra('entry', cmp('==', D, 0), z, ps)
                        V.ring('turned about the center', cmp('==', M[k][l], rod[k][l]), plus=[(-1, Dd), (1, z)])
                spec()
            # the poles
            for at, cz in ((Fraction(0), 1), (K.PI(), -1)):
                with V.when(cmp('==', tc, at)):
                    cs = [V.lemma('the center', cmp('==', c[k], (0, 0, cz)[k])) for k in R3]
                    if cz == 1:
                        V.lemma('no shift', land(A1.same, A2.same))
                        ms = [V.known_fact(q) for q in M1.one + M2.one]
                    else:
                        V.lemma('from pole to pole', land(M1.poles, M2.poles, lnot(A1.same), lnot(A2.same)))
                        ms = [V.known_fact(q) for q in M1.half + M2.half]
                    for k in R3:
                        for l in R3:
                            V.ring('turned about the center', cmp('==', M[k][l], rod[k][l]), *(base + ms + cs))
                    spec()
        V.functions.add(SPN)
        V.run(go, [], name='usphere_spin', post=post)
    task('C11', name='usphere_spin[%s]' % kind)(t)
