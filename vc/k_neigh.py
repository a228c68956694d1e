"""C20: the neighbours of a pixel.

In the star coordinates (u, v) the pattern consists of twelve base pixels, squares of nside times nside pixels.
The contract is stated with the corners of the base pixels on the sphere alone: pixels of one base pixel touch
when their places differ by at most one in both directions; pixels of two base pixels touch along the edge that
the two share (found by its end points on the sphere), or at a corner that they share.
"""
import itertools
import z3
from .verify import *
from . import core as K
from .k_pixel import IDX, quotient_lemma

# base pixels: (first star index, second star index) in units of nside
PIECES = [('N%d' % k, k, k + 1) for k in range(4)] + [('E%d' % k, k, k) for k in range(5)] + [('S%d' % k, k + 1, k) for k in range(4)]
FACE = lambda nm: 'E0' if nm == 'E4' else nm


def vertex(u, v):
    """the point of the sphere at star coordinates (u, v) in units of nside, a corner of a base pixel"""
    y = v - u                  # height in units of pi/4
    if abs(y) == 2:
        return ('pole', y)
    return ((u + v - 1) % 8, y)       # x in units of pi/4


def edges(a, b):
    """edge: (is the first index fixed, at the upper end, end points in the order of the other index)"""
    return [(True, False, vertex(a, b), vertex(a, b + 1)), (True, True, vertex(a + 1, b), vertex(a + 1, b + 1)),
            (False, False, vertex(a, b), vertex(a + 1, b)), (False, True, vertex(a, b + 1), vertex(a + 1, b + 1))]


def corners(a, b):
    return [(al, be, vertex(a + al, b + be)) for al in (0, 1) for be in (0, 1)]


def end(r, n, up):
    return cmp('==', r, sub(n, 1)) if up else cmp('==', r, 0)


def near(x):
    return land(cmp('<=', x, 1), cmp('>=', x, -1))


def touch(A, p, B, q, ns):
    """do pixel p = (r, t) of piece A and pixel q of piece B share a corner on the sphere"""
    (na, a, b), (nb, c, d) = A, B
    if FACE(na) == FACE(nb):
        return land(near(sub(p[0], q[0])), near(sub(p[1], q[1])))
    out = []
    for f1, u1, s1, e1 in edges(a, b):
        for f2, u2, s2, e2 in edges(c, d):
            if (s1, e1) == (s2, e2) or (s1, e1) == (e2, s2):
                x1, x2 = (p[1] if f1 else p[0]), (q[1] if f2 else q[0])
                dist = sub(x1, x2) if (s1, e1) == (s2, e2) else sub(add(x1, x2), sub(ns, 1))
                out.append(land(end(p[0] if f1 else p[1], ns, u1), end(q[0] if f2 else q[1], ns, u2), near(dist)))
    for al, be, v in corners(a, b):
        for al2, be2, w in corners(c, d):
            if v == w:
                out.append(land(end(p[0], ns, al), end(p[1], ns, be), end(q[0], ns, al2), end(q[1], ns, be2)))
    return lor(*out) if out else False


def inside(piece, p, ns):
    nm, a, b = piece
    c = land(cmp('>=', p[0], 0), cmp('<', p[0], ns), cmp('>=', p[1], 0), cmp('<', p[1], ns))
    if nm == 'E0':
        c = land(c, cmp('>=', add(p[0], p[1]), sub(ns, 1)))
    if nm == 'E4':
        c = land(c, cmp('<', add(p[0], p[1]), sub(ns, 1)))
    return c


def local(piece, s, ns):
    return sub(s[0], mul(piece[1], ns)), sub(s[1], mul(piece[2], ns))


def columns(V, r):
    """the pairs of a result"""
    from .npf import ColumnOf
    a, b = r
    if isinstance(a, ColumnOf) and isinstance(b, ColumnOf) and a.cols is b.cols and (a.k, b.k) == (0, 1):
        return [tuple(c) for c in a.cols.cols]
    raise Unsupported('neighbours that are not the distinct columns of an array')


def known_floors(V, quot, ns, a, r, v, what):
    """quotients of the star index v = a nside + r"""
    quot(v, ns, a, what=what)
    w = sub(add(v, 1), ns)
    with V.when(cmp('==', r, sub(ns, 1))):
        quot(w, ns, a, what=what + ', at the end')
    with V.when(cmp('<', r, sub(ns, 1))):
        quot(w, ns, a - 1, what=what + ', before the end')


for piece in PIECES:
    @task('C20', name='neighbours of the pixels of %s' % piece[0], limit=30.)
    def t(V, piece=piece):
        ns = V.int('nside', 1)
        r, s = V.int('r'), V.int('t')
        V.assume(inside(piece, (r, s), ns))
        i, j = V.int('istar'), V.int('jstar')
        V.assume(land(cmp('==', i, add(mul(piece[1], ns), r)), cmp('==', j, add(mul(piece[2], ns), s))))
        quot = quotient_lemma(V)
        known_floors(V, quot, ns, piece[1], r, i, 'istar')
        known_floors(V, quot, ns, piece[2], s, j, 'jstar')

        def post(res):
            V.ensure('2 values', len(res) == 2)
            cols = columns(V, res)
            for c in cols:
                for x in c:
                    V.defined('is a number', x)
            cols = [(strip(c[0]), strip(c[1])) for c in cols]
            # every result is a pixel and a neighbour
            for n, c in enumerate(cols):
                alts = []
                for B in PIECES:
                    q = local(B, c, ns)
                    tc = touch(piece, (r, s), B, q, ns)
                    if tc is False:
                        continue
                    alts.append(land(inside(B, q, ns), tc))
                V.ensure('result %d is a pixel that touches' % n, lor(*alts))
                V.ensure('result %d is not the pixel itself' % n, lor(cmp('!=', c[0], i), cmp('!=', c[1], j)))
            # every neighbour is a result
            for B in PIECES:
                q = (K.CTX.fresh('q', K.I), K.CTX.fresh('q', K.I))
                tc = touch(piece, (r, s), B, q, ns)
                if tc is False:
                    continue
                qs = (add(mul(B[1], ns), q[0]), add(mul(B[2], ns), q[1]))
                with V.when(land(inside(B, q, ns), tc, lor(cmp('!=', qs[0], i), cmp('!=', qs[1], j)))):
                    V.ensure('the neighbours in %s are among the results' % B[0], lor(*[land(cmp('==', c[0], qs[0]), cmp('==', c[1], qs[1])) for c in cols]))
        V.run(IDX + 'healpix_ijs_neighbours', [i, j, ns], post=post)


@task('C20', name='touching is symmetric')
def t(V):
    ns = V.int('nside', 1)
    p, q = (V.int('r'), V.int('t')), (V.int('r2'), V.int('t2'))

    def post(_):
        for A in PIECES:
            for B in PIECES:
                a, b = touch(A, p, B, q, ns), touch(B, q, A, p, ns)
                V.ensure('%s and %s' % (A[0], B[0]), cmp('==', a, b) if a is not b else True)
    V.run(lambda: None, [], name='symmetric', post=post)


@task('C20', 'C19', name='the base pixels hold exactly the pixels')
def t(V):
    from .k_index import in_pattern, regions, star_region
    ns = V.int('nside', 1)

    def post(_):
        i, k, jj = V.int('ring'), V.int('quadrant'), V.int('place')
        with V.when(in_pattern(ns, i, k, jj)):
            for nm, c, m in regions(ns, i):
                with V.when(c):
                    for kk in range(4):
                        with V.when(cmp('==', k, kk)):
                            s = star_region(ns, i, kk, jj, nm, m)
                            V.lemma('place', land(cmp('>=', jj, 0), cmp('<', jj, m), cmp('<=', m, ns)))
                            V.ensure('a pixel is in a base pixel (%s)' % nm, lor(*[inside(B, local(B, s, ns), ns) for B in PIECES]))
        r, t = V.int('r'), V.int('t')
        for B in PIECES:
            with V.when(inside(B, (r, t), ns)):
                s = (add(mul(B[1], ns), r), add(mul(B[2], ns), t))
                i = sub(mul(2, ns), sub(s[1], s[0]))
                for nm, c, m in regions(ns, i):
                    with V.when(c):
                        if V.dead():
                            continue
                        alts = []
                        for kk in range(4):
                            base = star_region(ns, i, kk, 0, nm, m)
                            jj = sub(s[0], base[0])
                            got = star_region(ns, i, kk, jj, nm, m)
                            alts.append(land(cmp('>=', jj, 0), cmp('<', jj, m), cmp('==', got[0], s[0]), cmp('==', got[1], s[1])))
                        V.ensure('a place of %s is a pixel (%s)' % (B[0], nm), land(cmp('>=', i, 1), cmp('<', i, mul(4, ns)), lor(*alts)))
    V.run(lambda: None, [], name='base pixels', post=post)
