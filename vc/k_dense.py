"""C26, C27, C28: the dense remap classes."""
from fractions import Fraction
from .verify import *
from . import core as K
from . import arr as A
from . import solve
from .k_radial import method
from .k_coords import TWOPI

HALF = Fraction(1, 2)
B2R = 'magpie.densegrid.box2ring.Box2Ring'


def uniform(a, b, n):
    """edge k of n equal bins"""
    h = K.div(sub(b, a), K.toreal_s(n))
    return lambda k: add(a, mul(K.toreal_s(k), h)), h


class ghost(object):
    """a name for a function of the specification; its definition is known where it is asked for"""
    def __init__(self, V, name, body, arity):
        self.F = z3.Function(name, *([K.I] * arity + [K.R]))
        self.body = body

    def __call__(self, *ix):
        return Sym(self.F(*[K.lift(i) for i in ix]))

    def define(self, *ix):
        K.CTX.fact(cmp('==', self(*ix), K.toreal_s(strip(self.body(*ix)))))

    def cut(self, V, qual, name):
        V.cut(qual, name, lambda *a: self(*a[:-1]), prove=lambda ix, *r: self.define(*ix))


def positive_weights(V, SW, n):
    """every weight is positive"""
    q = K.CTX.fresh('q', K.I)
    K.CTX.index_term(q)
    with V.when(land(cmp('<=', 0, q), cmp('<', q, n))):
        SW.define(q)
        V.lemma('weights are positive', cmp('>', SW(q), 0))
    V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], n)), cmp('>', SW(ix[0]), 0)), trig=['SW'])


def sums_in(t):
    """the outermost sums of a term"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().name() == 'SUM':
            out.append(x)
        elif z3.is_app(x):
            st.extend(x.children())
    return out


def match(V, name, a, b, at=None, ks=()):
    """equality of two (nested) sums term by term; at(indices): what is to be known at a term"""
    def inner(k, same):
        u, v = [solve.lam_at(x.children()[2], k.t) for x in (a, b)]
        su, sv = sums_in(z3.simplify(u)), sums_in(z3.simplify(v))
        with V.when(land(cmp('<=', Sym(a.arg(0)), k), cmp('<', k, Sym(a.arg(1))))):
            if len(su) == 1 and len(sv) == 1:
                match(V, name + ' (inner)', su[0], sv[0], at, ks + (k,))
            else:
                facts = list(at(*(ks + (k,)))) if at is not None else []
                leaf = V.derive('the terms', Sym(u == v), *(facts + V.annotated(Sym(u))))
        if not (len(su) == 1 and len(sv) == 1):
            V.derive(name + ': the terms agree', same, implies(land(cmp('<=', Sym(a.arg(0)), k), cmp('<', k, Sym(a.arg(1)))), leaf))
    return sums_equal(V, name, a, b, prove=inner)


def digit(V, i, n, a, m):
    """0 <= i m + a < n m"""
    p = V.lemma('a digit', land(cmp('<=', 0, i), cmp('<=', add(i, 1), n), cmp('<=', 0, a), cmp('<', a, m)))
    t = add(mul(i, m), a)
    K.CTX.index_term(t)
    return V.algebra('position', land(cmp('<=', 0, t), cmp('<', t, mul(n, m))), p)


def averages(V, r, np_, nr, bp, br, SH, SW, rows=False):
    """element (i, j) is the sum of SH over the sub-pixels over the sum of the weights (which depend on the sub-column, or sub-row)"""
    if not V.shape('the averages', r, [np_, nr], 'f'):
        return
    V.ctx.plain_sums = True
    with V.forall(np_, nr) as (i, j):
        num = npf.sum_range(br, lambda b: npf.sum_range(bp, lambda a: SH(add(mul(i, bp), a), add(mul(j, br), b))))
        wj, wn, wb, other = (i, np_, bp, br) if rows else (j, nr, br, bp)
        one = npf.sum_range(wb, lambda b: SW(add(mul(wj, wb), b)))
        got = r.at(i, j)
        den = mul(K.toreal_s(other), one)
        if isinstance(br, int):
            # the terms of the few sub-pixels
            ps = []
            for b in range(br):
                digit(V, j, nr, b, br)
            for a in range(bp):
                digit(V, i, np_, a, bp)
            for b in range(wb):
                ps.append(V.lemma('weights are positive', cmp('>', SW(add(mul(wj, wb), b)), 0)))
            x, eqs = rename(V, strip(got), num, one)
            V.algebra('ratio of the sums', cmp('==', strip(got), strip(K.div(num, den))), *(ps + eqs), opaque=x)
            V.same('area weighted average', got, strip(K.div(num, den)))
            return
        facts, ops = [], []
        p = sum_of_positives(V, wb, lambda b: SW(add(mul(wj, wb), b)), lambda b: digit(V, wj, wn, b, wb), 'the weight')
        for x in sums_in(got.t):
            if x.eq(num.t) or x.eq(one.t):
                continue
            den_ = not sums_in(z3.simplify(solve.lam_at(x.children()[2], z3.IntVal(0))))
            at = (lambda b: [digit(V, wj, wn, b, wb)]) if den_ else (lambda b, a: (digit(V, j, nr, b, br), digit(V, i, np_, a, bp)))
            q = match(V, 'sum of the weights' if den_ else 'sum over the sub-pixels', x, one.t if den_ else num.t, at)
            if q is not None:
                facts.append(q)
            ops.append(Sym(x))
        ops += [num, one]
        pb = V.known_fact(cmp('>=', K.toreal_s(br), 1))
        pa = V.known_fact(cmp('>=', K.toreal_s(bp), 1))
        V.algebra('ratio of the sums', cmp('==', strip(got), strip(K.div(num, den))), p, pa, pb, *facts, opaque=ops + [K.toreal_s(br), K.toreal_s(bp)])
        well_defined(V, got, [p, pa, pb] + facts, ops + [K.toreal_s(br), K.toreal_s(bp)])
        V.same('area weighted average', got, strip(K.div(num, den)))


def well_defined(V, got, facts, ops):
    st, out = [got.bad], []
    while st:
        x = st.pop()
        if x is None or z3.is_false(x):
            continue
        if z3.is_or(x):
            st.extend(x.children())
        elif sums_in(x):
            V.algebra('denominator', Sym(z3.Not(x)), *facts, opaque=ops)
        else:
            V.lemma('defined', Sym(z3.Not(x)))


def solve_divisors(t):
    return [t.arg(1)] if z3.is_div(t) else []


def rename2(V, *ts):
    return rename(V, *ts, **{'sw': ('SW2', 2)})


def rename(V, *ts, **kw):
    """the applications of cut functions in the terms, and what they are equal to"""
    ops, eqs = [], []
    seen, st = set(), [K.lift(t) for t in ts if isinstance(t, Sym)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            ops.append(Sym(x))
            if x.decl().name().startswith('cut_') and ('sw' not in kw or '2d' not in x.decl().name()):
                f = z3.Function('SH', K.I, K.I, K.R) if x.num_args() == 2 else z3.Function('SW', K.I, K.R)
                if 'sw' in kw and 'weights' in x.decl().name():
                    f = z3.Function('SW2', K.I, K.I, K.R)
                y = f(*x.children())
                eqs.append(V.lemma('by the annotation', Sym(x == y)))
                ops.append(Sym(y))
        elif z3.is_app(x):
            st.extend(x.children())
    return ops, eqs


for case in ('default', 'full'):
    @task('C26', name='Box2Ring._remap[%s]' % case)
    def t(V, case=case):
        np_, nr, nx, ny = [V.int(q, 1) for q in ('nphi', 'nr', 'nx', 'ny')]
        x0, x1, y0, y1, r0, r1 = [V.real(q) for q in ('x0', 'x1', 'y0', 'y1', 'r0', 'r1')]
        V.assume(land(cmp('<', x0, x1), cmp('<', y0, y1), cmp('<=', 0, r0), cmp('<', r0, r1)))
        f = V.array('f', ny, nx)
        kw = {}
        p0, p1, cx, cy, sh, bp, br = Fraction(0), TWOPI(), Fraction(0), Fraction(0), Fraction(0), 2, 2
        if case == 'full':
            p0, p1, cx, cy, sh = [V.real(q) for q in ('p0', 'p1', 'cx', 'cy', 'shift')]
            bp, br = V.int('bp', 1), V.int('br', 1)
            V.assume(land(cmp('<=', 0, p0), cmp('<', p0, p1), cmp('<=', p1, TWOPI()), cmp('>=', sh, 0), cmp('<=', sh, TWOPI())))
            kw = dict(pmin=p0, pmax=p1, center=[cx, cy], rebin_r=br, rebin_p=bp, phi_shift=sh)
        V.use('magpie.coords.conversions.polar2cart')

        def go():
            o = V.call(B2R, [])
            method(V, o, 'setup_box', [x0, x1, nx, y0, y1, ny])
            method(V, o, 'setup_polar', [r0, r1, nr, np_], kw)
            return method(V, o, '_remap', [f])
        er, hr = uniform(r0, r1, mul(nr, br))
        ep, hp = uniform(p0, p1, mul(np_, bp))
        dx, dy = K.div(sub(x1, x0), K.toreal_s(nx)), K.div(sub(y1, y0), K.toreal_s(ny))

        def cell(m, k):
            r = mul(HALF, add(er(k), er(add(k, 1))))
            a = add(mul(HALF, add(ep(m), ep(add(m, 1)))), sh)
            ix = K.floor_int(K.div(sub(add(mul(r, K.cos(a)), cx), x0), dx))
            iy = K.floor_int(K.div(sub(add(mul(r, K.sin(a)), cy), y0), dy))
            ins = land(cmp('>=', ix, 0), cmp('<', ix, nx), cmp('>=', iy, 0), cmp('<', iy, ny))
            return ite(ins, f.at(iy, ix), Fraction(0))
        W = lambda k: sub(mul(er(add(k, 1)), er(add(k, 1))), mul(er(k), er(k)))

        setup, rem = B2R + '.setup_polar', B2R + '._remap'
        V.cut(setup, '.rebin_redges', lambda k, env: er(k))
        V.cut(setup, '.rebin_pedges', lambda k, env: ep(k))
        ang = lambda m: add(mul(HALF, add(ep(m), ep(add(m, 1)))), sh)
        rad = lambda k: mul(HALF, add(er(k), er(add(k, 1))))
        V.cut(rem, 'x=', lambda m, k, env: sub(add(mul(rad(k), K.cos(ang(m))), cx), x0))
        V.cut(rem, 'y=', lambda m, k, env: sub(add(mul(rad(k), K.sin(ang(m))), cy), y0))
        V.cut(B2R + '.setup_box', '.dx', lambda env: dx)
        V.cut(B2R + '.setup_box', '.dy', lambda env: dy)
        SH, SW = ghost(V, 'SH', lambda m, k: mul(cell(m, k), SW(k)), 2), ghost(V, 'SW', W, 1)
        SW.cut(V, rem, 'rbin_weights')
        SH.cut(V, rem, 'f_polar_highres=')
        positive_weights(V, SW, mul(nr, br))

        V.run(go, [], name='Box2Ring', post=lambda r: averages(V, r, np_, nr, bp, br, SH, SW))


# ------------------------------------------------------------------ HEALPix maps
def rigid(V, fn, nargs):
    """the contract of a rotation of the sphere (C11) as far as it is needed here: a map of directions to directions, applied to every
    element of the arrays.  Returns the maps, for the specification."""
    P, T = [z3.Function(fn + '_' + s, *([K.R] * (nargs + 3))) for s in ('phi', 'theta')]

    def ax(top):
        def g(p, x):
            p.add(x >= 0)
            p.add(x <= top())
        return g
    solve.AX[fn + '_phi'] = ax(lambda: 2 * K.PI_T)
    solve.AX[fn + '_theta'] = ax(lambda: K.PI_T)
    names = {'usphere_shift': ('phi_start', 'theta_start', 'phi_end', 'theta_end'), 'usphere_spin': ('phi_center', 'theta_center', 'alpha')}[fn]
    tops = {'usphere_shift': (2, 1, 2, 1), 'usphere_spin': (2, 1, 2)}[fn]

    def val(F):
        return lambda phi, theta, *a: Sym(F(*[K.lift(K.toreal_s(strip(q))) for q in (phi, theta) + a]))

    def stub(V, env):
        a = [env[n] for n in names]
        for q, n, t in zip(a, names, tops):
            V.require('%s in range' % n, land(cmp('<=', 0, strip(q)), cmp('<=', strip(q), mul(t, K.PI()))))
        phi, theta = env['phi'], env['theta']

        def el(F):
            def g(p, t):
                b = K.bor(K.badof(p), K.badof(t))
                r = val(F)(p, t, *a)
                return r if b is None else Sym(r.t, b)
            return A.elementwise(g, 'f', phi, theta)
        return el(P), el(T)
    V.stub_with('magpie.coords.usphere.' + fn, stub)
    return lambda *a: (val(P)(*a), val(T)(*a))


def pixel_of(ns, phi, theta):
    return Sym(npf.ANG2PIX(K.lift(ns), K.lift(K.toreal_s(strip(theta))), K.lift(K.toreal_s(strip(phi)))))


H2R = 'magpie.densegrid.heal2ring.Heal2Ring'
for case in ('default', 'full'):
    @task('C28', name='Heal2Ring._remap[%s]' % case)
    def t(V, case=case):
        from .k_radial import cap_areas
        nb, na, ns = [V.int(q, 1) for q in ('nbeta', 'nalpha', 'nside')]
        V.assume(npf.hp_isnsideok(ns))
        a0, a1 = V.real('a0'), V.real('a1')
        V.assume(land(cmp('<=', 0, a0), cmp('<', a0, a1), cmp('<=', a1, K.PI())))
        npix = mul(12, mul(ns, ns))
        f = V.array('f', npix)
        kw = {}
        b0, b1, cp, ct, sh, bb, ba = Fraction(0), TWOPI(), Fraction(0), Fraction(0), Fraction(0), 2, 2
        if case == 'full':
            b0, b1, cp, ct, sh = [V.real(q) for q in ('b0', 'b1', 'cp', 'ct', 'shift')]
            bb, ba = V.int('bb', 1), V.int('ba', 1)
            V.assume(land(cmp('<=', 0, b0), cmp('<', b0, b1), cmp('<=', b1, TWOPI()), cmp('<', 0, sh), cmp('<=', sh, TWOPI()),
                          cmp('<=', 0, cp), cmp('<=', cp, TWOPI()), cmp('<=', 0, ct), cmp('<=', ct, K.PI())))
            kw = dict(beta_min=b0, beta_max=b1, center=[cp, ct], rebin_alpha=ba, rebin_beta=bb, beta_shift=sh)
        shift, spin = rigid(V, 'usphere_shift', 4), rigid(V, 'usphere_spin', 3)
        ea, ha = uniform(a0, a1, mul(na, ba))
        eb, hb = uniform(b0, b1, mul(nb, bb))
        cap_areas(V, ea, hb, mul(na, ba), None)
        F = z3.Function('USAREA', K.R, K.R, K.R)

        def go():
            o = V.call(H2R, [])
            method(V, o, 'setup_map', [ns])
            method(V, o, 'setup_polar_cap', [a0, a1, na, nb], kw)
            return method(V, o, '_remap', [f])

        def cell(m, k):
            p, t = mul(HALF, add(eb(m), eb(add(m, 1)))), mul(HALF, add(ea(k), ea(add(k, 1))))
            if case == 'full':
                p, t = spin(p, t, Fraction(0), Fraction(0), sh)
            p, t = shift(p, t, Fraction(0), Fraction(0), cp, ct)
            return f.at(pixel_of(ns, p, t))
        setup, rem = H2R + '.setup_polar_cap', H2R + '._remap'
        V.cut(setup, '.rebin_alpha_edges', lambda k, env: ea(k))
        V.cut(setup, '.rebin_beta_edges', lambda k, env: eb(k))
        W = lambda k: Sym(F(K.lift(ea(k)), K.lift(ea(add(k, 1)))))
        SH, SW = ghost(V, 'SH', lambda m, k: mul(cell(m, k), SW(k)), 2), ghost(V, 'SW', W, 1)
        SW.cut(V, rem, 'area')
        SH.cut(V, rem, 'f_polar_highres=')
        positive_weights(V, SW, mul(na, ba))
        V.run(go, [], name='Heal2Ring', post=lambda r: averages(V, r, nb, na, bb, ba, SH, SW))


H2P = 'magpie.densegrid.heal2polar.Heal2Polar'
for case in ('default', 'full'):
    @task('C28', name='Heal2Polar._remap[%s]' % case)
    def t(V, case=case):
        from .k_radial import cap_areas
        ny, nx, ns = [V.int(q, 1) for q in ('ny', 'nx', 'nside')]
        V.assume(npf.hp_isnsideok(ns))
        lx = V.real('lx')
        V.assume(land(cmp('<', 0, lx), cmp('<=', lx, TWOPI())))
        npix = mul(12, mul(ns, ns))
        f = V.array('f', npix)
        kw = {}
        cp, ct, sh, by, bx = Fraction(0), Fraction(0), Fraction(0), 2, 2
        if case == 'full':
            cp, ct, sh, ly = [V.real(q) for q in ('cp', 'ct', 'alpha', 'ly')]
            by, bx = V.int('by', 1), V.int('bx', 1)
            V.assume(land(cmp('<', 0, ly), cmp('<=', ly, K.PI()), cmp('<', 0, sh), cmp('<=', sh, TWOPI()),
                          cmp('<=', 0, cp), cmp('<=', cp, TWOPI()), cmp('<=', 0, ct), cmp('<=', ct, K.PI())))
            kw = dict(alpha=sh, y_length=ly, y_grid=ny, center=[cp, ct], rebin_x=bx, rebin_y=by)
        else:
            ny, ly = nx, ite(cmp('>', lx, K.PI()), K.PI(), lx)
        shift, spin = rigid(V, 'usphere_shift', 4), rigid(V, 'usphere_spin', 3)
        ex, hx = uniform(mul(-1, mul(HALF, lx)), mul(HALF, lx), mul(nx, bx))
        ey, hy = uniform(mul(-1, mul(HALF, ly)), mul(HALF, ly), mul(ny, by))
        et = lambda k: add(ey(k), mul(HALF, K.PI()))
        cap_areas(V, et, hx, mul(ny, by), None)
        F = z3.Function('USAREA', K.R, K.R, K.R)

        def go():
            o = V.call(H2P, [])
            method(V, o, 'setup_map', [ns])
            method(V, o, 'setup_box', [lx, nx], kw)
            return method(V, o, '_remap', [f])

        def cell(m, k):
            p, t = mul(HALF, add(ex(k), ex(add(k, 1)))), sub(mul(HALF, K.PI()), mul(HALF, add(ey(m), ey(add(m, 1)))))
            if case == 'full':
                p, t = spin(p, t, Fraction(0), mul(HALF, K.PI()), sh)
            p, t = shift(p, t, Fraction(0), mul(HALF, K.PI()), cp, ct)
            return f.at(pixel_of(ns, p, t))
        setup, rem = H2P + '.setup_box', H2P + '._remap'
        V.cut(setup, '.rebin_xedges', lambda k, env: ex(k))
        V.cut(setup, '.rebin_yedges', lambda k, env: ey(k))
        W = lambda m: Sym(F(K.lift(et(m)), K.lift(et(add(m, 1)))))
        SH, SW = ghost(V, 'SH', lambda m, k: mul(cell(m, k), SW(m)), 2), ghost(V, 'SW', W, 1)
        SW.cut(V, rem, 'area')
        SH.cut(V, rem, 'f_box_highres=')
        positive_weights(V, SW, mul(ny, by))
        V.run(go, [], name='Heal2Polar', post=lambda r: averages(V, r, ny, nx, by, bx, SH, SW, rows=True))


# ------------------------------------------------------------------ weights
def average_of(V, cls, nd):
    """the contract of _remap (proved above): the average of the given map over the sub-pixels, with positive weights.
    Returns the sum of the weights, and the sum of a map, at a pixel."""
    bp, br = V.int('bp', 1), V.int('br', 1)
    IN = z3.Function('inside', K.I, K.I, K.I, K.I, K.B)
    AT = [z3.Function('source%d' % k, K.I, K.I, K.I, K.I, K.I) for k in range(nd)]
    SW = z3.Function('subweight', K.I, K.I, K.I, K.I, K.R)
    tot = z3.Function('total', K.I, K.I, K.R)

    def N(g, i, j):
        def term(a, b):
            q = [K.lift(x) for x in (i, j, a, b)]
            return mul(ite(Sym(IN(*q)), K.toreal_s(g(tuple(Sym(F(*q)) for F in AT))), Fraction(0)), Sym(SW(*q)))
        return npf.sum_range(br, lambda b: npf.sum_range(bp, lambda a: term(a, b)))
    S = lambda i, j: Sym(tot(K.lift(i), K.lift(j)))
    return N, S


def weighted(prop, cls, dims, nd):
    for ws in (False, True):
        @task(prop, name='%s.remap[%s]' % (cls.split('.')[-1], 'w' if ws else 'plain'))
        def t(V, ws=ws):
            n1, n2 = V.int('n1', 1), V.int('n2', 1)
            ns = [V.int('m%d' % k, 1) for k in range(nd)]
            f = V.array('f', *ns)
            w = V.array('w', *ns) if ws else None
            N, S = average_of(V, cls, nd)

            def stub(V, env):
                g = env['f']
                V.require('a map on the input grid', g.ndim == nd)
                if g.ndim == nd:
                    V.require('its size', land(*[cmp('==', a, b) for a, b in zip(g.shape(), ns)]))

                h = g.fn()

                def el(idx):
                    K.CTX.fact(cmp('>', S(*idx), 0), guarded=False)
                    return K.div(N(h, *idx), S(*idx))
                return Arr(Buf([n1, n2], el, 'f'))
            V.stub_with(cls + '._remap', stub, expected=True)
            V.functions.add(cls + '.remap')

            def go():
                o = V.call(cls, [])
                return method(V, o, 'remap', [f], {'w': w} if ws else {})

            def post(r):
                if not V.shape('the averages', r, [n1, n2], 'f'):
                    return
                V.ctx.plain_sums = True
                with V.forall(n1, n2) as (i, j):
                    if not ws:
                        V.same('the average of f', r.at(i, j), K.div(N(f.fn(), i, j), S(i, j)))
                        return
                    fw = ew(lambda a, b: mul(a, b), f, w)
                    num, den, s = N(fw.fn(), i, j), N(w.fn(), i, j), S(i, j)
                    with V.when(cmp('!=', den, 0)):
                        got = r.at(i, j)
                        pos = V.lemma('the weights are positive', cmp('>', s, 0))
                        nz = V.known_fact(cmp('!=', den, 0))
                        V.algebra('ratio of the two averages', cmp('==', strip(got), strip(K.div(num, den))), pos, nz, opaque=[num, den, s])
                        V.algebra('the second average is not zero', cmp('!=', strip(K.div(den, s)), 0), pos, nz, opaque=[num, den, s])
                        V.same('ratio of the averages of f w and w', got, strip(K.div(num, den)))
            V.run(go, [], name=cls.split('.')[-1] + '.remap', post=post)


weighted('C26', B2R, None, 2)
weighted('C28', H2R, None, 1)
weighted('C28', H2P, None, 1)
weighted('C28', 'magpie.densegrid.heal2ortho.Heal2Ortho', None, 1)


def in_bound(V, whole):
    n1, n2, ny, nx = [V.int(q, 1) for q in ('n1', 'n2', 'ny', 'nx')]
    bp, br = V.int('bp', 1), V.int('br', 1)
    IN = z3.Function('inside', K.I, K.I, K.I, K.I, K.B)
    W = z3.Function('subweight', K.I, K.I, K.I, K.I, K.R)
    tot = z3.Function('total', K.I, K.I, K.R)
    AT = [z3.Function('source%d' % k, K.I, K.I, K.I, K.I, K.I) for k in range(2)]
    F = lambda f, *ix: Sym(f(*[K.lift(x) for x in ix]))
    sub_ = lambda a, b: land(cmp('<=', 0, a), cmp('<', a, bp), cmp('<=', 0, b), cmp('<', b, br))
    S = lambda i, j: F(tot, i, j)
    double = lambda t: npf.sum_range(br, lambda b: npf.sum_range(bp, lambda a: t(a, b)))

    def stub(V, env):
        g = env['f']
        V.require('a map of ones on the box', g.ndim == 2)
        V.require('its size', land(*[cmp('==', a, b) for a, b in zip(g.shape(), (ny, nx))]))
        h = g.fn()

        def el(ix):
            K.CTX.fact(cmp('>', S(*ix), 0), guarded=False)
            return K.div(double(lambda a, b: mul(ite(F(IN, *(ix + (a, b))), K.toreal_s(h(tuple(F(q, *(ix + (a, b))) for q in AT))), Fraction(0)), F(W, *(ix + (a, b))))), S(*ix))
        return Arr(Buf([n1, n2], lambda ix: el(tuple(ix)), 'f'))
    V.stub_with(B2R + '.remap', stub, expected=True)
    V.functions.add(B2R + '.get_mask_in_bound')
    x2d, r2d = V.array('x2d', ny, nx), V.array('r2d', n1, n2)

    def go():
        o = V.call(B2R, [])
        o.attrs['x2d'], o.attrs['r2d'] = x2d, r2d
        method(V, o, 'get_mask_in_bound', [], {'verbose': False})
        return o.attrs['mask_in_bound']

    def post(r):
        if not V.shape('the mask', r, [n1, n2], 'f'):
            return
        V.ctx.plain_sums = True
        with V.forall(n1, n2) as (i, j):
            got = r.at(i, j)
            w = lambda a, b: F(W, i, j, a, b)
            ins = lambda a, b: F(IN, i, j, a, b)
            n, d = double(lambda a, b: ite(ins(a, b), w(a, b), Fraction(0))), double(lambda a, b: ite(ins(a, b), Fraction(0), w(a, b)))
            s, m = S(i, j), strip(got)
            pos = V.lemma('the weights are positive', cmp('>', s, 0))
            V.defined('the mask', got)
            N = sums_in(K.lift(m))
            if len(N) != 1:
                V.ensure('the mask is an average', False)
                return
            V.forall_fact(2, lambda ix: implies(sub_(*ix), cmp('>', w(*ix), 0)), trig=['subweight'])
            K.CTX.fact(cmp('==', s, double(w)))
            total = V.known_fact(cmp('==', s, double(w)))
            if whole:
                V.forall_fact(2, lambda ix: implies(sub_(*ix), ins(*ix)), trig=['inside'])
                q = match(V, 'the sum', N[0], double(w).t, lambda b, a: [V.lemma('this one is inside', ins(a, b))])
                V.derive('the sum is the sum of the weights', cmp('==', Sym(N[0]), s), q, total, opaque=[Sym(N[0]), s, double(w)])
                V.ensure('1 where all sub-pixels lie in the box', cmp('==', m, 1))
                return
            # a sub-pixel outside
            a0, b0 = V.int('a0'), V.int('b0')
            with V.when(land(sub_(a0, b0), lnot(ins(a0, b0)))):
                K.CTX.index_term(a0)
                K.CTX.index_term(b0)
                wi, wo = lambda a, b: ite(ins(a, b), w(a, b), Fraction(0)), lambda a, b: ite(ins(a, b), Fraction(0), w(a, b))
                inner = lambda f, b: npf.sum_range(bp, lambda a: f(a, b))
                n, d = double(wi), double(wo)
                q = match(V, 'the sum', N[0], n.t)

                def split(b, same):
                    r = raw_sum(V, 0, bp, lambda a: add(wi(a, b), wo(a, b)))
                    e = sums_equal(V, 'the weights of a row', inner(w, b).t, r)
                    f = V.known_fact(cmp('==', Sym(r), add(inner(wi, b), inner(wo, b))))
                    V.derive('a row', cmp('==', inner(w, b), add(inner(wi, b), inner(wo, b))), e, f, opaque=[inner(w, b), inner(wi, b), inner(wo, b), Sym(r)])
                R = raw_sum(V, 0, br, lambda b: add(inner(wi, b), inner(wo, b)))
                e = sums_equal(V, 'all weights', double(w).t, R, prove=split)
                f = V.known_fact(cmp('==', Sym(R), add(n, d)))
                # those outside weigh something
                def row(b):
                    ok, nn = sum_nonneg(V, bp, lambda a: wo(a, b))
                    x = V.lemma('no weight is negative', ok)
                    return V.lemma('a row outside is not negative', cmp('>=', inner(wo, b), 0))
                ok, here = sum_positive(V, bp, lambda a: wo(a, b0), a0)
                V.lemma('no weight is negative', ok)
                V.lemma('the weight outside', cmp('>', wo(a0, b0), 0))
                V.lemma('the row outside', here)
                k = K.CTX.fresh('row', K.I)
                with V.when(land(cmp('<=', 0, k), cmp('<', k, br))):
                    row(k)
                V.forall_fact(1, lambda ix: implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], br)), cmp('>=', inner(wo, ix[0]), 0)))
                ok, here = sum_positive(V, br, lambda b: inner(wo, b), b0)
                V.lemma('no row is negative', ok)
                g = V.lemma('something lies outside', here)
                V.derive('the sum is less than the weights', cmp('<', Sym(N[0]), s), q, e, f, total, g, opaque=[Sym(N[0]), s, n, d, double(w), Sym(R)])
                V.algebra('less than 1', cmp('<', m, 1), V.known_fact(cmp('<', Sym(N[0]), s)), pos, opaque=[Sym(N[0]), s])
                V.ensure('less than 1 where a sub-pixel lies outside', cmp('<', m, 1))
    V.run(go, [], name='Box2Ring.get_mask_in_bound', post=post)


for whole in (True, False):
    task('C26', name='Box2Ring.get_mask_in_bound[%s]' % ('inside' if whole else 'outside'))(lambda V, whole=whole: in_bound(V, whole))


# ------------------------------------------------------------------ set up
def edges(V, o, spec):
    """the grid attributes: spec = {name: (first, last, number)}; pairs = the 2D arrays"""
    grids, pairs = spec
    mids = {}
    for nm, (en, mn, a, b, n) in sorted(grids.items()):
        e, h = uniform(a, b, n)
        mids[nm] = lambda k, e=e: mul(HALF, add(e(k), e(add(k, 1))))
        for at, f, m in ((en, e, add(n, 1)), (mn, mids[nm], n)):
            x = o.attrs.get(at)
            if V.shape(at, x, [m], 'f'):
                with V.forall(m) as (k,):
                    got = x.at(k)
                    V.defined(at, got)
                    V.ensure('%s: value' % at, cmp('==', strip(got), strip(f(k))))
    for at, which, (u, v) in pairs:
        x = o.attrs.get(at)
        n1, n2 = grids[v][4], grids[u][4]
        if V.shape(at, x, [n1, n2], 'f'):
            with V.forall(n1, n2) as (i, j):
                k, n = (j, n2) if which == 0 else (i, n1)
                got = x.at(i, j)
                V.defined(at, got)
                w = strip(mids[u if which == 0 else v](k))
                V.ensure('%s: value' % at, cmp('==', strip(got), w))


def setups(prop, cls, meth, make, tag=''):
    @task(prop, name='%s.%s%s' % (cls.split('.')[-1], meth, tag))
    def t(V):
        args, kw, ok, spec = make(V)
        V.stub_with(cls + '._setup_pix', lambda V, env: None)
        V.functions.add(cls + '.' + meth)

        def go():
            o = V.call(cls, [])
            method(V, o, meth, args, kw)
            return o

        def post(o):
            V.ensure('accepts only consistent arguments', ok)
            with V.when(ok):
                edges(V, o, spec)
        V.run(go, [], name='%s.%s' % (cls.split('.')[-1], meth), raises=lambda e: land(e.kind in ('AssertionError', 'ValueError'), lnot(ok)), post=post)


def box_args(V):
    x0, x1, y0, y1 = [V.real(q) for q in ('x0', 'x1', 'y0', 'y1')]
    nx, ny = V.int('nx'), V.int('ny')
    return [x0, x1, nx, y0, y1, ny], {}, land(cmp('>', nx, 0), cmp('>', ny, 0)), (
        dict(x=('xedges', 'xmid', x0, x1, nx), y=('yedges', 'ymid', y0, y1, ny)), [('x2d', 0, ('x', 'y')), ('y2d', 1, ('x', 'y'))])


def ring_args(names):
    (ae, am, be, bm, a2, b2, kp, kb) = names

    def make(V, center=2):
        a0, a1, b0, b1, sh = [V.real(q) for q in ('a0', 'a1', 'b0', 'b1', 'shift')]
        na, nb = V.int('na'), V.int('nb')
        ra, rb = V.int('ra', 1), V.int('rb', 1)
        c = [V.real('c%d' % k) for k in range(center)]
        ok = land(cmp('>=', a0, 0), cmp('<', a0, a1), cmp('>', na, 0), cmp('>=', b0, 0), cmp('<', b0, b1), cmp('<=', b1, TWOPI()), cmp('>', nb, 0), center == 2)
        kw = {kp[0]: b0, kp[1]: b1, 'center': c, kp[2]: sh, kb[0]: ra, kb[1]: rb}
        return [a0, a1, na, nb], kw, ok, (dict(a=(ae, am, a0, a1, na), b=(be, bm, b0, b1, nb)), [(a2, 0, ('a', 'b')), (b2, 1, ('a', 'b'))])
    return make


POLAR = ring_args(('redges', 'rmid', 'pedges', 'pmid', 'r2d', 'p2d', ('pmin', 'pmax', 'phi_shift'), ('rebin_r', 'rebin_p')))
CAP = ring_args(('alpha_edges', 'alpha_mid', 'beta_edges', 'beta_mid', 'alpha2d', 'beta2d', ('beta_min', 'beta_max', 'beta_shift'), ('rebin_alpha', 'rebin_beta')))


def picture(kind, full):
    def make(V, center=2):
        lx = V.real('lx')
        nx = V.int('nx')
        c = [V.real('c%d' % k) for k in range(center)]
        ok = land(cmp('>', nx, 0), center == 2)
        kw = {'center': c}
        if kind == 'polar':
            ok = land(ok, cmp('>=', lx, 0), cmp('<=', lx, TWOPI()))
            kw['alpha'] = V.real('alpha')
        if full:
            ly, ny = V.real('ly'), V.int('ny', None if kind == 'polar' else 1)
            kw.update(y_length=ly, y_grid=ny, rebin_x=V.int('rx', 1), rebin_y=V.int('ry', 1))
            ok = land(ok, cmp('>', ny, 0)) if kind != 'polar' else land(ok, cmp('>', ny, 0), cmp('>=', ly, 0), cmp('<=', ly, K.PI()))
        else:
            ly, ny = (ite(cmp('>', lx, K.PI()), K.PI(), lx) if kind == 'polar' else lx), nx
        h = lambda l: (mul(-1, mul(HALF, l)), mul(HALF, l))
        return [lx, nx], kw, ok, (dict(x=('xedges', 'xmid') + h(lx) + (nx,), y=('yedges', 'ymid') + h(ly) + (ny,)), [('x2d', 0, ('x', 'y')), ('y2d', 1, ('x', 'y'))])
    return make


H2O = 'magpie.densegrid.heal2ortho.Heal2Ortho'
setups('C26', B2R, 'setup_box', box_args)
for n, tag in ((2, ''), (1, '[short center]'), (3, '[long center]')):
    setups('C26', B2R, 'setup_polar', lambda V, n=n: POLAR(V, n), tag)
    setups('C28', H2R, 'setup_polar_cap', lambda V, n=n: CAP(V, n), tag)
    setups('C28', H2P, 'setup_box', lambda V, n=n: picture('polar', True)(V, n), '[full]' + tag)
setups('C28', H2P, 'setup_box', picture('polar', False), '[default]')
for full in (False, True):
    setups('C28', H2O, 'setup_box', picture('ortho', full), '[%s]' % ('full' if full else 'default'))
    setups('C28', H2O, 'setup_box', lambda V, full=full: picture('ortho', full)(V, 1), '[%s][short center]' % ('full' if full else 'default'))


for case in ('default', 'full'):
    @task('C28', name='Heal2Ortho._remap[%s]' % case)
    def t(V, case=case):
        from .k_coords import spec_c2s
        ny, nx, ns = [V.int(q, 1) for q in ('ny', 'nx', 'nside')]
        V.assume(npf.hp_isnsideok(ns))
        lx = V.real('lx')
        f = V.array('f', mul(12, mul(ns, ns)))
        kw = {}
        cp, ct, rad, by, bx, ly = Fraction(0), Fraction(0), Fraction(1), 2, 2, lx
        V.assume(cmp('<', 0, lx))
        if case == 'full':
            cp, ct, rad, ly = [V.real(q) for q in ('cp', 'ct', 'radius', 'ly')]
            by, bx = V.int('by', 1), V.int('bx', 1)
            V.assume(land(cmp('<', 0, ly), cmp('<', 0, rad), cmp('<=', 0, cp), cmp('<=', cp, TWOPI()), cmp('<=', 0, ct), cmp('<=', ct, K.PI())))
            kw = dict(y_length=ly, y_grid=ny, center=[cp, ct], rebin_x=bx, rebin_y=by, radius=rad)
        else:
            ny = nx
        o_ = {}
        shift = rigid(V, 'usphere_shift', 4)
        V.use('magpie.coords.conversions.ortho2cart', 'magpie.coords.conversions.cart2sphere')
        ex, hx = uniform(mul(-1, mul(HALF, lx)), mul(HALF, lx), mul(nx, bx))
        ey, hy = uniform(mul(-1, mul(HALF, ly)), mul(HALF, ly), mul(ny, by))
        cx, cy = uniform(mul(-1, mul(HALF, lx)), mul(HALF, lx), nx)[0], uniform(mul(-1, mul(HALF, ly)), mul(HALF, ly), ny)[0]
        half = lambda e, k: mul(HALF, add(e(k), e(add(k, 1))))

        def go():
            o = V.call(H2O, [])
            method(V, o, 'setup_map', [ns])
            method(V, o, 'setup_box', [lx, nx], kw)
            o_.update(x2d=o.attrs['x2d'], y2d=o.attrs['y2d'])
            return method(V, o, '_remap', [f])

        def rho(x, y):
            return add(mul(x, x), mul(y, y))

        def cell(m, k):
            x, y = half(ex, k), half(ey, m)
            q = rho(x, y)
            z = ite(cmp('<', q, mul(rad, rad)), strip(K.sqrt(sub(mul(rad, rad), q))), Fraction(0))
            r, p, t = spec_c2s(x, y, z, Fraction(0), Fraction(0), Fraction(0))
            p, t = shift(p, t, mul(Fraction(3, 2), K.PI()), Fraction(0), cp, ct)
            return f.at(pixel_of(ns, p, t))
        setup, rem = H2O + '.setup_box', H2O + '._remap'
        V.cut(setup, '.rebin_xedges', lambda k, env: ex(k))
        V.cut(setup, '.rebin_yedges', lambda k, env: ey(k))
        on = lambda m, k: ite(cmp('<', rho(half(ex, k), half(ey, m)), mul(rad, rad)), Fraction(1), Fraction(0))
        SW = ghost(V, 'SW2', on, 2)
        SH = ghost(V, 'SH', lambda m, k: mul(cell(m, k), SW(m, k)), 2)
        pixels = H2O + '._setup_pix'
        zed = lambda m, k: ite(cmp('<', rho(half(ex, k), half(ey, m)), mul(rad, rad)), strip(K.sqrt(sub(mul(rad, rad), rho(half(ex, k), half(ey, m))))), Fraction(0))
        V.cut(pixels, 'xx', lambda *a: half(ex, a[-2]))
        V.cut(pixels, 'yy', lambda *a: half(ey, a[-3]))
        V.cut(pixels, 'zz', lambda *a: zed(*a[:-1]))
        SW.cut(V, rem, 'weights')
        SH.cut(V, rem, 'f_box_highres=')

        V.cut(setup, '.x2d', lambda i, j, env: half(cx, j))
        V.cut(setup, '.y2d', lambda i, j, env: half(cy, i))

        def post(r):
            if not V.shape('the averages', r, [ny, nx], 'f'):
                return
            V.ctx.plain_sums = True
            with V.forall(ny, nx) as (i, j):
                got = r.at(i, j)
                onc = cmp('<', rho(half(cx, j), half(cy, i)), mul(rad, rad))
                with V.when(lnot(onc)):
                    V.ensure('NaN where the pixel center is off the sphere', Sym(K.badof(got)) if K.badof(got) is not None else False)
                num = npf.sum_range(bx, lambda b: npf.sum_range(by, lambda a: SH(add(mul(i, by), a), add(mul(j, bx), b))))
                den = npf.sum_range(bx, lambda b: npf.sum_range(by, lambda a: SW(add(mul(i, by), a), add(mul(j, bx), b))))
                spec = strip(K.div(num, den))
                with V.when(land(onc, cmp('!=', den, 0))):
                    nz = V.known_fact(cmp('!=', den, 0))
                    if isinstance(bx, int):
                        for a in range(by):
                            digit(V, i, ny, a, by)
                        for b in range(bx):
                            digit(V, j, nx, b, bx)
                        x, eqs = rename2(V, got, num, den)
                    else:
                        x, eqs = [num, den], []
                        pa, pb = V.known_fact(cmp('>=', K.toreal_s(by), 1)), V.known_fact(cmp('>=', K.toreal_s(bx), 1))
                        eqs = [pa, pb]
                        x += [K.toreal_s(by), K.toreal_s(bx)]
                        for q in sums_in(got.t) + sums_in(z3.simplify(got.bad)):
                            if any(q.eq(y.t) for y in x):
                                continue
                            w_ = 'weights' in str(q)
                            e = match(V, 'sum of the weights' if w_ else 'sum over the sub-pixels', q, (den if w_ else num).t,
                                      lambda b, a: (digit(V, j, nx, b, bx), digit(V, i, ny, a, by)))
                            if e is not None:
                                eqs.append(e)
                            x.append(Sym(q))
                    V.lemma('the pixel center', land(cmp('==', o_['x2d'].at(i, j), half(cx, j)), cmp('==', o_['y2d'].at(i, j), half(cy, i))))
                    t, facts = K.lift(strip(got)), []
                    for ch in (t.children() if z3.is_mul(t) else [t]):
                        if not z3.is_app_of(ch, z3.Z3_OP_ITE):
                            continue
                        if z3.is_rational_value(ch.arg(1)) and z3.is_rational_value(ch.arg(2)):
                            facts.append(V.lemma('the center is on the sphere', Sym(ch == 1)))
                        else:
                            den_ = [q for q in solve_divisors(ch.arg(1))]
                            for q in den_:
                                facts.append(V.algebra('the sum of the weights is not zero', cmp('!=', Sym(q), 0), nz, *eqs, opaque=x))
                            c = V.derive('some sub-pixel is on the sphere', Sym(ch.arg(0)), *facts)
                            facts.append(V.derive('the average', Sym(ch == ch.arg(1)), c))
                    V.defined('the average', got)
                    V.algebra('ratio of the sums', cmp('==', strip(got), spec), nz, *(facts + eqs), opaque=x + [Sym(ch) for ch in t.children() if z3.is_app_of(ch, z3.Z3_OP_ITE)])
                    V.same('average over the sub-pixels on the sphere', got, spec)
        V.run(go, [], name='Heal2Ortho', post=post)
