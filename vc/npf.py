"""numpy, healpy, scipy and builtin functions, as the verifier understands them.

These are assumed contracts on dependencies (listed in the evidence as trusted): each function here says
what the library function returns, over the reals.
"""
from fractions import Fraction
import z3
from . import core as K
from . import arr as A
from .core import Sym, Unsupported, PyRaise, ite, cmp, land, lor, lnot, add, sub, mul
from .arr import Arr, Buf, Sel, Sl

PROG = None
USED = set()


class Ext(object):
    """an external module"""
    def __init__(self, name, table):
        self.name = name
        self.table = table

    def __repr__(self):
        return '<external %s>' % self.name


def external(name):
    if name in EXTERNALS:
        return EXTERNALS[name]
    return Ext(name, {})


# ------------------------------------------------------------------ helpers
def lift1(f, v, dtype=None):
    if isinstance(v, (list, tuple)):
        v = array(v)
    if isinstance(v, (Arr, Sel)):
        return A.elementwise(f, dtype or v.dtype, v)
    if v is None or not K.is_scalar(v):
        raise PyRaise('TypeError', 'bad operand') if v is None else Unsupported('operand %r' % (type(v),))
    return f(v)


def ufunc(f, dtype='f'):
    def g(*args, **kw):
        if kw:
            raise Unsupported('keyword of a ufunc')
        args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
        if any(isinstance(a, (Arr, Sel)) for a in args):
            dt = dtype
            if dt == 'same':
                dt = 'f' if any(A.dtype_of(a) == 'f' for a in args) else 'i'
            return A.elementwise(f, dt, *args)
        return f(*args)
    return g


def real(f):
    return lambda *xs: f(*[K.toreal_s(x) if not K.isreal(x) else x for x in xs])


def generic(n, body):
    """values of body(k) for 0 <= k < n, by execution at an arbitrary index"""
    c = K.CTX
    k = z3.Const(c.name('k'), K.I)
    sk = Sym(k)
    rng = land(cmp('<=', 0, sk), cmp('<', sk, n))
    with c.under(rng):
        c.bound.append(k)
        try:
            outs = K.explore(lambda: body(sk))
        finally:
            c.bound.pop()
        ok = []
        for o in outs:
            if o.kind == 'raise':
                c.oblige('no exception (%s) for any item' % o.value.kind, lnot(Sym(K.zand(*o.path))) if o.path else False, 'noraise')
            else:
                ok.append(o)
        if not ok:
            if isinstance(n, int) and n == 0:
                return lambda j: None
            raise Unsupported('no value for an arbitrary item')
        v = merge([(K.zand(*o.path), o.value) for o in ok])
    return lambda j: subst_value(v, k, j)


def merge(cases):
    """one value from the values on disjoint, exhaustive paths"""
    v = cases[-1][1]
    for p, x in reversed(cases[:-1]):
        v = merge2(p, x, v)
    return v


def merge2(p, x, y):
    if x is y:
        return x
    if K.is_scalar(x) and K.is_scalar(y):
        return ite(Sym(p), x, y)
    if isinstance(x, Arr) and isinstance(y, Arr):
        if x.ndim == y.ndim and all(A.axis_eq(a, b) for a, b in zip(x.axes, y.axes)):
            f, g = x.fn(), y.fn()
            dt = x.dtype if x.dtype == y.dtype else 'f'
            return Arr(Buf(x.dims, lambda idx: ite(Sym(p), f(idx), g(idx)), dt), list(x.axes))
        raise Unsupported('arrays of different shapes on different paths')
    if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
        return type(x)(merge2(p, a, b) for a, b in zip(x, y))
    if x is None and y is None:
        return None
    if isinstance(x, str) and x == y:
        return x
    raise Unsupported('values %s and %s on different paths' % (type(x).__name__, type(y).__name__))


class binding(object):
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        K.CTX.bound.append(self.k)

    def __exit__(self, *a):
        K.CTX.bound.pop()


def subst_value(v, k, j):
    jt = K.lift(j)
    if jt.eq(k):
        return v
    if isinstance(v, Sym):
        return K.subst_s(v, [(k, jt)])
    if K.is_scalar(v) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (tuple, list)):
        return type(v)(subst_value(x, k, j) for x in v)
    if isinstance(v, Arr):
        f = v.fn()

        def fn(idx):
            with binding(k):
                r = f(idx)
            return K.subst_s(r, [(k, jt)])
        axes = [tuple(K.subst_s(d, [(k, jt)]) for d in ax) for ax in v.axes]
        return Arr(Buf([d for ax in axes for d in ax], fn, v.dtype), axes)
    raise Unsupported('item %r' % (type(v),))


def append_lists(a, b):
    from .interp import SymList
    c = K.CTX
    na = a.n if isinstance(a, SymList) else len(a)
    nb = b.n if isinstance(b, SymList) else len(b)
    if isinstance(a, SymList) and isinstance(b, list) and len(b) == 1 and K.is_scalar(b[0]):
        # one more item of the same form
        x = a.at(na)
        if K.is_scalar(x) and K.badof(x) is None and K.badof(b[0]) is None and K.isreal(x) == K.isreal(b[0]) and c.proves(cmp('==', x, b[0])):
            c.oblige('the appended item continues the list', cmp('==', x, b[0]), 'lemma')
            return SymList(add(na, 1), a.at)
    f = a.at if isinstance(a, SymList) else (lambda j: choose(a, j))
    g = b.at if isinstance(b, SymList) else (lambda j: choose(b, j) if len(b) > 1 else b[0])
    return SymList(add(na, nb), lambda j: merge2(K.tobool(cmp('<', j, na)), f(j), g(sub(j, na))))


def choose(items, i):
    i = A.norm_index(i, len(items))
    v = items[-1]
    for k in range(len(items) - 2, -1, -1):
        v = merge2(K.tobool(cmp('==', i, k)), items[k], v)
    return v


def scal(v):
    """0-d arrays are scalars"""
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at()
    return v


def intdim(n):
    if isinstance(n, bool):
        n = int(n)
    n = scal(n)
    if isinstance(n, Fraction) or isinstance(n, Sym) and K.isreal(n):
        raise PyRaise('TypeError', 'an integer is required')
    if isinstance(n, int) and n < 0:
        raise PyRaise('ValueError', 'negative dimensions are not allowed')
    if isinstance(n, Sym):
        if not K.CTX.entails(n.t >= 0):
            K.CTX.oblige('size %s is not negative' % A.short(n), cmp('>=', n, 0), 'bounds')
            K.CTX.assume(cmp('>=', n, 0))
    return n


def shape_axes(shape):
    if isinstance(shape, (list, tuple)):
        if isinstance(shape, ShapeOf):
            return [tuple(ax) for ax in shape.axes]
        return [(intdim(d),) for d in shape]
    if isinstance(shape, Arr):
        d = A.prod(shape.axes[0])
        return [(intdim(A.getitem(shape, k)),) for k in range(d)]
    return [(intdim(shape),)]


class ShapeOf(tuple):
    """a shape that remembers the digits of the axes"""
    def __new__(cls, a):
        t = tuple.__new__(cls, a.shape())
        t.axes = [tuple(ax) for ax in a.axes]
        return t


def filled(shape, v, dtype):
    axes = shape_axes(shape)
    dims = [d for ax in axes for d in ax]
    if not axes:
        return v
    return Arr(Buf(dims, lambda idx: v, dtype), axes)


def dt_of(dtype, default='f'):
    if dtype is None:
        return default
    nm = getattr(dtype, '__name__', dtype)
    if nm in ('float', 'float64', 'double', 'f8', 'f', 'd', 'float_'):
        return 'f'
    if nm in ('int', 'int64', 'int32', 'intp', 'i8', 'i', 'integer'):
        return 'i'
    if nm in ('bool', 'bool_', '?'):
        return 'b'
    if nm in ('object', 'O'):
        return 'o'
    raise Unsupported('dtype %s' % (nm,))


def cast(v, dt):
    if isinstance(v, (Arr, Sel)):
        if v.dtype == dt:
            return A.copy(v)
        return A.elementwise(lambda x: convert(x, dt), dt, v)
    return convert(v, dt)


def convert(x, dt):
    if dt == 'i':
        b = K.badof(x)
        if b is not None:
            c = K.CTX
            r = K.trunc_int(Sym(x.t))
            return Sym(K.lift(r), b)
        return K.trunc_int(x)
    return A.coerce(x, dt)


# ------------------------------------------------------------------ construction
def array(v, dtype=None, copy=True, **kw):
    from .interp import SymList, Ragged
    if isinstance(v, (Arr, Sel)):
        r = A.copy(v)
        return r if dtype is None else cast(r, dt_of(dtype))
    if isinstance(v, SymList):
        return stack_symlist(v)
    if isinstance(v, (list, tuple)):
        r = stack(list(v))
        return r if dtype is None else cast(r, dt_of(dtype))
    if K.is_scalar(v):
        return v
    raise Unsupported('array of %r' % (type(v),))


def asarray(v, dtype=None, **kw):
    if isinstance(v, (Arr, Sel)) and (dtype is None or dt_of(dtype) == v.dtype):
        return v
    return array(v, dtype)


def stack_symlist(v):
    n = v.n
    c = K.CTX
    k = z3.Const(c.name('k'), K.I)
    with c.under(land(cmp('<=', 0, Sym(k)), cmp('<', Sym(k), n))), binding(k):
        s = v.at(Sym(k))
    if isinstance(s, (list, tuple)):
        items = [SymItem(v, p) for p in range(len(s))]
        parts = [stack_symlist(i) for i in items]
        w = stack(parts)
        # axes: (p, k, ...) -> (k, p, ...)
        order = [1, 0] + list(range(2, w.ndim))
        return A.copy(A.transpose(w, order))
    if K.is_scalar(s):
        dt = A.dtype_of(s)
        return Arr(Buf([n], lambda idx: A.coerce(v.at(idx[0]), dt), dt))
    if isinstance(s, Arr):
        for d in s.dims:
            if isinstance(d, Sym) and K.mentions(d.t, set([k.get_id()])):
                raise PyRaise('ValueError', 'inhomogeneous shape')
        axes = [(n,)] + list(s.axes)
        return Arr(Buf([n] + s.dims, lambda idx: v.at(idx[0]).fn()(tuple(idx[1:])), s.dtype), axes)
    raise Unsupported('array of a list of %r' % (type(s),))


class SymItem(object):
    def __init__(self, v, p):
        self.n = v.n
        self.at = lambda j: v.at(j)[p]


def stack(items):
    if not items:
        return Arr(Buf([0], lambda idx: Fraction(0), 'f'))
    items = [array(x) if isinstance(x, (list, tuple)) else x for x in items]
    from .interp import SymList
    items = [stack_symlist(x) if isinstance(x, SymList) else x for x in items]
    if any(x is None for x in items):
        raise Unsupported('array of None')
    if all(K.is_scalar(x) for x in items):
        dts = [A.dtype_of(x) for x in items]
        dt = 'f' if 'f' in dts else ('i' if 'i' in dts else 'b')
        vals = [A.coerce(x, dt) for x in items]
        return Arr(Buf([len(vals)], lambda idx: pick(vals, idx[0]), dt))
    if any(isinstance(x, Sel) for x in items):
        if all(isinstance(x, Sel) for x in items):
            raise Unsupported('array of selections')
        raise Unsupported('array of selections')
    if not all(isinstance(x, Arr) for x in items):
        raise Unsupported('array of mixed items')
    a0 = items[0]
    for a in items[1:]:
        if a.ndim != a0.ndim:
            raise PyRaise('ValueError', 'inhomogeneous shape')
        for x, y in zip(a.axes, a0.axes):
            if not A.axis_eq(x, y):
                A.raise_shape(x, y)
    dts = [a.dtype for a in items]
    dt = 'f' if 'f' in dts else dts[0]
    fns = [a.fn() for a in items]

    def fn(idx):
        k = idx[0]
        rest = tuple(idx[1:])
        if isinstance(k, int):
            return A.coerce(fns[k](rest), dt)
        return A.coerce(pick([f(rest) for f in fns], k), dt)
    return Arr(Buf([len(items)] + a0.dims, fn, dt), [(len(items),)] + list(a0.axes))


def pick(vals, k):
    if isinstance(k, int):
        return vals[k]
    v = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        v = ite(cmp('==', k, i), vals[i], v)
    return v


def np_stack(items, axis=0):
    items = list(items)
    r = stack(items)
    if axis == 0:
        return r
    n = r.ndim
    if axis < 0:
        axis += n
    order = list(range(1, n))
    order.insert(axis, 0)
    return A.copy(A.transpose(r, order))


def zeros(shape, dtype=None, **kw):
    dt = dt_of(dtype)
    return filled(shape, Fraction(0) if dt == 'f' else (None if dt == 'o' else (False if dt == 'b' else 0)), dt)


def ones(shape, dtype=None, **kw):
    dt = dt_of(dtype)
    return filled(shape, Fraction(1) if dt == 'f' else (True if dt == 'b' else 1), dt)


def full(shape, v, dtype=None):
    dt = A.dtype_of(v) if dtype is None else dt_of(dtype)
    return filled(shape, A.coerce(v, dt), dt)


def empty(shape, dtype=None, **kw):
    dt = dt_of(dtype)
    axes = shape_axes(shape)
    dims = [d for ax in axes for d in ax]
    if dt == 'o':
        return Arr(Buf(dims, lambda idx: None, dt), axes)
    so = K.R if dt == 'f' else (K.I if dt == 'i' else K.B)
    F = K.CTX.fresh_fun('garbage', *([K.I] * len(dims) + [so]))
    bad = z3.BoolVal(True)
    return Arr(Buf(dims, lambda idx: Sym(F(*[K.lift(i) for i in idx]), bad), dt), axes)


def like(maker, default=None):
    def f(a, *args, **kw):
        dtype = kw.pop('dtype', None)
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(a, Sel):
            v = {'zeros': 0, 'ones': 1}.get(maker.__name__)
            if v is None:
                v = args[0] if maker is full else None
            dt = dt_of(dtype, a.dtype)
            return Sel(a.where, lambda idx: A.coerce(v, dt), dt)
        if not isinstance(a, Arr):
            dt = dt_of(dtype, A.dtype_of(a))
            r = maker((), *args, dtype=dt)
            return r
        dt = {'f': 'float', 'i': 'int', 'b': 'bool', 'o': 'object'}[dt_of(dtype, a.dtype)]
        return maker(ShapeOf(a), *args, dtype=dt)
    return f


def shape_of(v):
    if isinstance(v, (list, tuple)):
        v = array(v)
    if isinstance(v, Arr):
        return ShapeOf(v)
    if isinstance(v, Sel):
        return (v.where.count(),)
    if K.is_scalar(v):
        return ()
    raise Unsupported('shape of %r' % (type(v),))


def length(v):
    from .interp import SymList, Range, Ragged
    if isinstance(v, (list, tuple, str, dict)):
        return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise('TypeError', 'len() of unsized object')
        return A.prod(v.axes[0])
    if isinstance(v, Sel):
        return v.where.count()
    if isinstance(v, A.SubIdx):
        return v.where.count()
    if isinstance(v, SymList):
        return v.n
    if isinstance(v, Range):
        return v.length()
    if v is None or K.is_scalar(v):
        raise PyRaise('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (type(v),))


def linspace(a, b, num=50, endpoint=True, retstep=False, **kw):
    n = intdim(num)
    a, b = K.toreal_s(scal(a)), K.toreal_s(scal(b))
    if kw:
        raise Unsupported('linspace arguments')
    div = sub(n, 1) if K.CTX is not None and endpoint is not False else n
    d = sub(b, a)
    if isinstance(div, int):
        step = K.div(d, div) if div else Fraction(0)
    else:
        dt = K.toreal(K.lift(div))
        step = Sym(K.lift(d) / dt, K.badof(d)) if isinstance(d, Sym) or not d == 0 else Fraction(0)
        step = ite(cmp('==', div, 0), Fraction(0), step)

    def fn(idx):
        return add(a, mul(K.toreal_s(idx[0]), step))
    r = Arr(Buf([n], fn, 'f'))
    if retstep is True:
        return r, step
    return r


def logspace(a, b, num=50, **kw):
    e = linspace(a, b, num)
    f = e.fn()
    return Arr(Buf(e.dims, lambda idx: K.power(10, f(idx)), 'f'))


def arange(*args, **kw):
    if kw:
        raise Unsupported('arange arguments')
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    if K.isreal(start) or K.isreal(stop) or K.isreal(step) or step != 1:
        if all(isinstance(x, int) for x in (start, stop, step)):
            return array(list(range(start, stop, step)))
        raise Unsupported('arange of reals')
    n = sub(stop, start)
    n = max(n, 0) if isinstance(n, int) else (n if K.CTX.entails(n.t >= 0) else K.maxv(n, 0))
    return Arr(Buf([n], lambda idx: add(start, idx[0]), 'i'))


def meshgrid(*xs, **kw):
    indexing = kw.pop('indexing', 'xy')
    sparse = kw.pop('sparse', False)
    if kw or sparse:
        raise Unsupported('meshgrid arguments')
    xs = [array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    xs = [A.positional(x) if isinstance(x, Sel) else x for x in xs]
    for x in xs:
        if not isinstance(x, Arr) or x.ndim != 1:
            raise Unsupported('meshgrid of %r' % (x,))
    order = list(range(len(xs)))
    if indexing == 'xy' and len(xs) > 1:
        order[0], order[1] = 1, 0
    axes = [tuple(xs[o].axes[0]) for o in order]
    starts, p = {}, 0
    for o in order:
        starts[o] = p
        p += len(xs[o].axes[0])
    out = []
    for k, x in enumerate(xs):
        f, s, n = x.fn(), starts[k], len(x.axes[0])
        out.append(Arr(Buf([d for ax in axes for d in ax], lambda idx, f=f, s=s, n=n: f(tuple(idx[s:s + n])), x.dtype), list(axes)))
    return out


def concatenate(items, axis=0, **kw):
    from .interp import SymList, Ragged
    if isinstance(items, SymList):
        return concat_symlist(items)
    items = [array(x) if isinstance(x, (list, tuple)) else x for x in items]
    items = [A.positional(x) if isinstance(x, Sel) else x for x in items]
    if kw or not all(isinstance(x, Arr) for x in items):
        raise Unsupported('concatenate')
    nd = items[0].ndim
    if any(x.ndim != nd for x in items):
        raise PyRaise('ValueError', 'dimensions differ')
    if axis < 0:
        axis += nd
    for x in items:
        if len(x.axes[axis]) != 1:
            if len(items) == 1:
                return A.copy(items[0])
            raise Unsupported('concatenate a flattened axis')
    pos = sum(len(items[0].axes[k]) for k in range(axis))
    for x in items[1:]:
        for k in range(nd):
            if k != axis and not A.axis_eq(x.axes[k], items[0].axes[k]):
                A.raise_shape(x.axes[k], items[0].axes[k])
    offs, tot = [], 0
    for x in items:
        offs.append(tot)
        tot = add(tot, x.axes[axis][0])
    dts = [x.dtype for x in items]
    dt = 'f' if 'f' in dts else dts[0]
    fns = [x.fn() for x in items]

    def fn(idx):
        i = idx[pos]
        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            k = max(q for q in range(len(offs)) if offs[q] <= i and (q + 1 == len(offs) or i < offs[q + 1]))
            return A.coerce(fns[k](idx[:pos] + (i - offs[k],) + idx[pos + 1:]), dt)
        v = None
        for k in range(len(fns) - 1, -1, -1):
            x = A.coerce(fns[k](tuple(idx[:pos]) + (sub(i, offs[k]),) + tuple(idx[pos + 1:])), dt)
            v = x if v is None else ite(cmp('<', i, offs[k + 1]), x, v)
        return v
    axes = list(items[0].axes)
    axes[axis] = (tot,)
    return Arr(Buf([d for ax in axes for d in ax], fn, dt), axes)


def concat_symlist(v):
    from .interp import Ragged
    c = K.CTX
    k = z3.Const(c.name('k'), K.I)
    with c.under(land(cmp('<=', 0, Sym(k)), cmp('<', Sym(k), v.n))), binding(k):
        s = v.at(Sym(k))
    if not isinstance(s, Arr) or s.ndim != 1:
        raise Unsupported('concatenation of a list of %r' % (s,))

    def ln(i):
        return A.prod(v.at(i).axes[0])
    return Ragged(v.n, ln, lambda i, j: v.at(i).at(j), s.dtype)


# ------------------------------------------------------------------ reductions
_depth = [0]


def sum_range(n, body, dtype='f'):
    """sum of body(k) for 0 <= k < n"""
    if isinstance(n, int) and n <= 16:
        r = Fraction(0) if dtype == 'f' else 0
        for k in range(n):
            r = add(r, body(k))
        return r
    return sum_between(0, n, body, dtype)


def sum_between(lo, hi, body, dtype='f'):
    c = K.CTX
    k = z3.Const(c.name('kappa'), K.I)
    d = _depth[0]
    _depth[0] += 1
    try:
        with binding(k), c.under(land(cmp('<=', lo, Sym(k)), cmp('<', Sym(k), hi))):
            b = body(Sym(k))
    finally:
        _depth[0] -= 1
    bad = K.badof(b)
    t = K.toreal(K.toint(K.lift(b)))
    r = sum_term(K.lift(lo), K.lift(hi), t, k)
    if bad is not None and not K.mentions(bad, set([k.get_id()])):
        return Sym(r, z3.And(K.lift(lo) < K.lift(hi), bad))
    if bad is not None:
        # NaN when an item is
        x = c.fresh('nan', K.B)
        w = c.fresh('wit', K.I)
        c.fact(K.implies(x, land(cmp('<=', lo, w), cmp('<', w, hi), Sym(z3.substitute(bad, (k, w.t))))), guarded=False)
        kk = k
        def uni(ix):
            return K.implies(land(cmp('<=', lo, ix[0]), cmp('<', ix[0], hi), Sym(z3.substitute(bad, (kk, K.lift(ix[0]))))), x)
        c.universal(1, uni, 'nan')
        return Sym(r, x.t)
    return K.mk(r)


def sum_term(lo, hi, t, k):
    """normalised sum: additions split, factors free of k taken out"""
    from . import solve
    ki = set([k.get_id()])
    if not K.mentions(t, ki):
        n = z3.If(lo <= hi, z3.ToReal(hi - lo), z3.RealVal(0))
        if K.CTX.entails(lo <= hi):
            n = K.toreal(z3.simplify(hi - lo))
        return t * n
    if z3.is_add(t):
        out = None
        for x in t.children():
            y = sum_term(lo, hi, x, k)
            out = y if out is None else out + y
        return out
    if z3.is_sub(t):
        ch = t.children()
        out = sum_term(lo, hi, ch[0], k)
        for x in ch[1:]:
            out = out - sum_term(lo, hi, x, k)
        return out
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return -sum_term(lo, hi, t.arg(0), k)
    if z3.is_mul(t):
        inn, outn = [], []
        for x in flat_mul(t):
            (inn if K.mentions(x, ki) else outn).append(x)
        # distribute over additions inside a product
        if len(inn) == 1 and outn:
            r = sum_term(lo, hi, inn[0], k)
            for x in outn:
                r = x * r
            return r
        if outn:
            p = inn[0]
            for x in inn[1:]:
                p = p * x
            r = sum_term(lo, hi, p, k)
            for x in outn:
                r = x * r
            return r
    if z3.is_div(t) and not K.mentions(t.arg(1), ki):
        return sum_term(lo, hi, t.arg(0), k) / t.arg(1)
    if z3.is_app_of(t, z3.Z3_OP_ITE) and not K.mentions(t.arg(0), ki):
        return z3.If(t.arg(0), sum_term(lo, hi, t.arg(1), k), sum_term(lo, hi, t.arg(2), k))
    # canonical binder, so that equal sums are the same term
    kk = z3.Const('kappa@', K.I)
    t = z3.substitute(t, (k, kk))
    if z3.is_mul(t):
        fs = sorted(flat_mul(t), key=lambda x: (x.decl().name(), x.hash(), x.sexpr() if x.num_args() < 3 else ''))
        t = fs[0]
        for x in fs[1:]:
            t = t * x
    return solve.SUM(lo, hi, z3.Lambda([kk], t))


def flat_mul(t):
    out = []
    for x in t.children():
        if z3.is_mul(x):
            out.extend(flat_mul(x))
        else:
            out.append(x)
    return out


def reduce_axes(a, axis):
    if isinstance(axis, Sym):
        raise Unsupported('symbolic axis')
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [x % a.ndim for x in axis]
    if not -a.ndim <= axis < a.ndim:
        raise PyRaise('AxisError', 'axis out of bounds')
    return [axis % a.ndim]


def reduced(a, axis, red, dtype):
    """reduces digits of the given axes by red(dims, f)"""
    ax = reduce_axes(a, axis)
    f = a.fn()
    keep, out = [], []
    pos = 0
    kp, rp, rd = [], [], []
    for k, g in enumerate(a.axes):
        ps = list(range(pos, pos + len(g)))
        pos += len(g)
        if k in ax:
            rp += ps
            rd += list(g)
        else:
            keep.append(tuple(g))
            kp += ps
    n = pos

    def at(kidx):
        def g(ridx):
            full = [None] * n
            for p, v in zip(kp, kidx):
                full[p] = v
            for p, v in zip(rp, ridx):
                full[p] = v
            return f(tuple(full))
        return red(rd, g)
    if not keep:
        return at(())
    return Arr(Buf([d for g in keep for d in g], at, dtype), keep)


def sum_digits(dims, g, dtype='f'):
    def rec(ds, pre):
        if not ds:
            return g(tuple(pre))
        return sum_range(ds[0], lambda k: rec(ds[1:], pre + [k]), dtype)
    return rec(list(dims), [])


def np_sum(a, axis=None, **kw):
    if kw:
        raise Unsupported('sum arguments')
    from .interp import SymList
    if isinstance(a, (list, tuple, SymList)):
        a = array(a)
    if isinstance(a, Sel):
        w = a.where
        return sum_digits(w.dims(), lambda idx: ite(w.mask(idx), A.coerce(a.f(idx), 'f'), Fraction(0)))
    if not isinstance(a, Arr):
        return a
    dt = 'f' if a.dtype == 'f' else 'i'
    if dt == 'i':
        r = reduced(a, axis, lambda d, g: sum_digits(d, lambda i: K.toreal_s(K.mk(K.toint(K.lift(g(i))))), 'f'), 'f')
        if isinstance(r, Arr):
            f = r.fn()
            return Arr(Buf(r.dims, lambda idx: to_int_exact(f(idx)), 'i'), list(r.axes))
        return to_int_exact(r)
    return reduced(a, axis, lambda d, g: sum_digits(d, g), 'f')


def to_int_exact(v):
    if K.conc(v):
        return int(v)
    c = K.CTX
    return Sym(z3.ToInt(v.t), v.bad)


def np_mean(a, axis=None, **kw):
    if kw:
        raise Unsupported('mean arguments')
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, Sel):
        return K.div(np_sum(a), K.toreal_s(a.where.count()))
    if not isinstance(a, Arr):
        return a
    ax = reduce_axes(a, axis)
    n = A.prod([d for k in ax for d in a.axes[k]])
    s = np_sum(a, axis)
    return PROG.binary('/', s, n)


def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis)
    return PROG.binary('/', np_sum(PROG.binary('*', a, weights), axis), np_sum(weights, axis))


def np_prod(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = mul(r, x)
        return r
    raise Unsupported('prod')


def np_cumsum(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, Sel):
        a = A.positional(a)
    if kw or not isinstance(a, Arr):
        raise Unsupported('cumsum')
    if a.ndim == 1 and len(a.axes[0]) == 1:
        f = a.fn()
        return Arr(Buf(a.dims, lambda idx: sum_between(0, add(idx[0], 1), lambda k: f((k,))), 'f'))
    raise Unsupported('cumsum of several axes')


def extreme(a, which):
    """(value, witness) of the maximum or minimum of all items"""
    c = K.CTX
    op = '<=' if which == 'max' else '>='
    if isinstance(a, Sel):
        dims, f, mask = a.where.dims(), a.f, a.where.mask
        c.oblige('%s of a non-empty selection' % which, cmp('>=', a.where.count(), 1), 'bounds')
    else:
        dims, f, mask = a.dims, a.fn(), (lambda idx: True)
        if not isinstance(a.size(), int):
            c.oblige('%s of a non-empty array' % which, cmp('>=', a.size(), 1), 'bounds')
            c.assume(cmp('>=', a.size(), 1))
        elif a.size() == 0:
            raise PyRaise('ValueError', 'zero-size array')
        if all(isinstance(d, int) for d in dims) and a.size() <= 16:
            import itertools
            r = None
            for pt in itertools.product(*[range(d) for d in dims]):
                v = f(pt)
                r = v if r is None else (K.maxv(r, v) if which == 'max' else K.minv(r, v))
            return r, None
    w = [c.fresh('arg' + which, K.I) for _ in dims]
    m = f(tuple(w))
    c.fact(land(A.inrange(w, dims), mask(tuple(w))))
    bad = c.fresh('nan', K.B) if K.badof(m) is not None else None

    def uni(ix):
        v = f(tuple(ix))
        return K.implies(land(A.inrange(ix, dims), mask(tuple(ix))), lor(cmp(op, v, m), *( [Sym(v.bad)] if K.badof(v) is not None else [])))
    c.universal(len(dims), uni, which)
    return m, w


def np_max(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if axis is not None and not (isinstance(a, Arr) and a.ndim == 1) or kw:
        raise Unsupported('max along an axis')
    if K.is_scalar(a):
        return a
    return extreme(a, 'max')[0]


def np_min(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if axis is not None and not (isinstance(a, Arr) and a.ndim == 1) or kw:
        raise Unsupported('min along an axis')
    if K.is_scalar(a):
        return a
    return extreme(a, 'min')[0]


def np_arg(which):
    def f(a, axis=None):
        if not isinstance(a, Arr) or a.ndim != 1:
            raise Unsupported('arg' + which)
        n = a.dims[0]
        g = a.fn()
        if isinstance(n, int) and n <= 16:
            best, arg = g((0,)), 0
            for k in range(1, n):
                v = g((k,))
                c = cmp('<' if which == 'min' else '>', v, best)
                best, arg = ite(c, v, best), ite(c, k, arg)
            return arg
        m, w = extreme(a, which)
        c = K.CTX
        w = w[0]

        def uni(ix):
            return K.implies(land(cmp('<=', 0, ix[0]), cmp('<', ix[0], w)), cmp('!=', g((ix[0],)), m))
        c.universal(1, uni, 'first')
        return w
    return f


def np_argsort(a, **kw):
    if not isinstance(a, Arr) or a.ndim != 1 or (kw and set(kw) != {'kind'}):
        raise Unsupported('argsort')
    c = K.CTX
    n = a.dims[0]
    g = a.fn()
    S = c.fresh_fun('perm', K.I, K.I)
    T = c.fresh_fun('iperm', K.I, K.I)
    sn, tn = S(z3.IntVal(0)).decl().name(), T(z3.IntVal(0)).decl().name()
    s = lambda i: Sym(S(K.lift(i)))
    t = lambda i: Sym(T(K.lift(i)))

    def u1(ix):
        i = ix[-1]
        r = land(cmp('<=', 0, i), cmp('<', i, n))
        return K.implies(r, land(s(i) >= 0, cmp('<', s(i), n), cmp('==', t(s(i)), i), t(i) >= 0, cmp('<', t(i), n), cmp('==', s(t(i)), i)))
    c.universal(1, u1, 'perm', trig=[sn, tn])

    def u2(ix):
        i, j = ix
        return K.implies(land(cmp('<=', 0, i), cmp('<', i, j), cmp('<', j, n)), cmp('<=', g((s(i),)), g((s(j),))))
    c.universal(2, u2, 'sorted', trig=[sn], pair=True)
    return Arr(Buf([n], lambda idx: s(idx[0]), 'i'))


def np_any(a, axis=None, **kw):
    return quantifier(a, axis, True)


def np_all(a, axis=None, **kw):
    return quantifier(a, axis, False)


def quantifier(a, axis, ex):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if axis is not None:
        raise Unsupported('any/all along an axis')
    if isinstance(a, Sel):
        f, mask, dims = a.f, a.where.mask, a.where.dims()
    elif isinstance(a, Arr):
        f, mask, dims = a.fn(), (lambda idx: True), a.dims
    else:
        return K.mk(K.tobool(a))
    g = lambda idx: K.mk(K.tobool(f(idx)))
    return quant(dims, mask, g, ex)


def quant(dims, mask, g, ex):
    c = K.CTX
    n = A.prod(dims)
    if isinstance(n, int) and n <= 16:
        import itertools
        vs = [(mask(pt), g(pt)) for pt in itertools.product(*[range(d) for d in dims])]
        return lor(*[land(m, v) for m, v in vs]) if ex else land(*[K.implies(m, v) for m, v in vs])
    b = c.fresh('q', K.B)
    w = [c.fresh('wit', K.I) for _ in dims]
    inr = land(A.inrange(w, dims), mask(tuple(w)))
    if ex:
        c.fact(K.implies(b, land(inr, g(tuple(w)))), guarded=False)
        c.universal(len(dims), lambda ix: K.implies(land(A.inrange(ix, dims), mask(tuple(ix)), g(tuple(ix))), b), 'any')
    else:
        c.fact(lor(b, land(inr, lnot(g(tuple(w))))), guarded=False)
        c.universal(len(dims), lambda ix: K.implies(land(b, A.inrange(ix, dims), mask(tuple(ix))), g(tuple(ix))), 'all')
    return b


def py_all(v):
    return py_quant(v, False)


def py_any(v):
    return py_quant(v, True)


def py_quant(v, ex):
    from .interp import SymList
    if isinstance(v, SymList):
        r = quant([v.n], lambda idx: True, lambda idx: K.mk(K.tobool(v.at(idx[0]))), ex)
    elif isinstance(v, (list, tuple)):
        cs = [K.mk(K.tobool(x)) for x in v]
        r = (lor(*cs) if ex else land(*cs)) if cs else (not ex)
    elif isinstance(v, Arr) and v.ndim == 1 or isinstance(v, Sel):
        r = quantifier(v, None, ex)
    else:
        raise Unsupported('any/all of %r' % (type(v),))
    return Sym(r.t, None, True) if isinstance(r, Sym) else bool(r)


# ------------------------------------------------------------------ selection
def np_where(cond, *xy):
    if not xy:
        if isinstance(cond, (list, tuple)):
            cond = array(cond)
        if isinstance(cond, (Arr, Sel)):
            if cond.dtype != 'b':
                cond = A.elementwise(lambda x: K.mk(K.tobool(x)), 'b', cond)
            return A.where_of(cond)
        if K.is_scalar(cond):
            raise Unsupported('where of a scalar')
        raise Unsupported('where of %r' % (type(cond),))
    x, y = [array(v) if isinstance(v, (list, tuple)) else v for v in xy]
    dt = 'f' if 'f' in (A.dtype_of(x), A.dtype_of(y)) else A.dtype_of(x)
    if isinstance(cond, (Arr, Sel)) or isinstance(x, (Arr, Sel)) or isinstance(y, (Arr, Sel)):
        return A.elementwise(lambda c, a, b: ite(c, A.coerce(a, dt), A.coerce(b, dt)), dt, cond, x, y)
    return ite(cond, A.coerce(x, dt), A.coerce(y, dt))


def isscalar(v):
    return K.is_scalar(v) or isinstance(v, str)


def np_isfinite(v):
    return lift1(lambda x: K.mk(z3.Not(K.badof(x))) if K.badof(x) is not None else True, v, 'b')


def np_isnan(v):
    return lift1(lambda x: K.mk(K.badof(x)) if K.badof(x) is not None else False, v, 'b')


def np_nan_to_num(v, nan=Fraction(0), **kw):
    if kw:
        raise Unsupported('nan_to_num')
    return lift1(lambda x: ite(Sym(K.badof(x)), nan, Sym(x.t)) if K.badof(x) is not None else x, v)


def np_round(v, decimals=0):
    if decimals != 0:
        raise Unsupported('round')

    def f(x):
        if not K.isreal(x):
            return x
        fl = K.floor_int(x)
        fr = sub(x, K.toreal_s(fl))
        h = Fraction(1, 2)
        even = cmp('==', K.mod(fl, 2), 0)
        r = ite(cmp('<', fr, h), fl, ite(cmp('>', fr, h), add(fl, 1), ite(even, fl, add(fl, 1))))
        return K.toreal_s(r)
    return lift1(f, v)


def np_clip(v, lo, hi):
    r = v
    if lo is not None:
        r = ufunc(K.maxv, 'same')(r, lo)
    if hi is not None:
        r = ufunc(K.minv, 'same')(r, hi)
    return r


# ------------------------------------------------------------------ linear algebra
def np_cross(u, v, **kw):
    u, v = array(u), array(v)
    if u.dims != [3] or v.dims != [3]:
        raise Unsupported('cross of other than 3-vectors')
    a, b = [u.at(k) for k in range(3)], [v.at(k) for k in range(3)]
    return array([sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))])


def np_dot(a, b):
    a, b = asarray(a), asarray(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return PROG.binary('*', a, b)
    fa, fb = a.fn(), b.fn()
    if a.ndim == 1 and b.ndim == 1:
        if not A.peq(a.dims[0], b.dims[0]):
            A.raise_shape(a.axes[0], b.axes[0])
        return sum_range(a.dims[0], lambda k: mul(fa((k,)), fb((k,))))
    if a.ndim == 2 and b.ndim == 1:
        return Arr(Buf([a.dims[0]], lambda i: sum_range(a.dims[1], lambda k: mul(fa((i[0], k)), fb((k,)))), 'f'))
    if a.ndim == 2 and b.ndim == 2:
        return Arr(Buf([a.dims[0], b.dims[1]], lambda i: sum_range(a.dims[1], lambda k: mul(fa((i[0], k)), fb((k, i[1])))), 'f'))
    if a.ndim == 1 and b.ndim == 2:
        return Arr(Buf([b.dims[1]], lambda i: sum_range(a.dims[0], lambda k: mul(fa((k,)), fb((k, i[0])))), 'f'))
    raise Unsupported('dot')


def matmul(a, b):
    return np_dot(a, b)


def np_inv(m):
    m = asarray(m)
    if m.dims != [3, 3]:
        raise Unsupported('inverse of other than 3x3')
    e = [[m.at(i, j) for j in range(3)] for i in range(3)]

    def minor(i, j):
        r = [x for x in range(3) if x != i]
        c = [x for x in range(3) if x != j]
        return sub(mul(e[r[0]][c[0]], e[r[1]][c[1]]), mul(e[r[0]][c[1]], e[r[1]][c[0]]))
    det = add(add(mul(e[0][0], minor(0, 0)), K.neg(mul(e[0][1], minor(0, 1)))), mul(e[0][2], minor(0, 2)))
    c = K.CTX
    c.oblige('the inverted matrix is not singular', cmp('!=', det, 0), 'bounds')
    d = K.CTX.fresh('idet', K.R)
    c.fact(K.implies(cmp('!=', det, 0), cmp('==', mul(d, det), 1)))
    out = [[mul(mul(1 if (i + j) % 2 == 0 else -1, minor(j, i)), d) for j in range(3)] for i in range(3)]
    return array(out)


def np_norm(v, **kw):
    if kw:
        raise Unsupported('norm arguments')
    v = asarray(v)
    return K.sqrt(np_sum(PROG.binary('**', v, 2)))


# ------------------------------------------------------------------ random numbers
def random_sample(size=None):
    c = K.CTX
    if size is None:
        r = c.fresh('rnd', K.R)
        c.fact(land(r >= 0, r < 1), guarded=False)
        c.randoms.append(r)
        return r
    axes = shape_axes(size)
    dims = [d for ax in axes for d in ax]
    F = c.fresh_fun('rnd', *([K.I] * len(dims) + [K.R]))
    nm = F(*[z3.IntVal(0)] * len(dims)).decl()
    nb = len(c.bound)

    def uni(ix):
        v = Sym(nm(*[K.lift(i) for i in ix]))
        return land(v >= 0, v < 1)
    with unguarded():
        c.universal(nb + len(dims), uni, 'random', trig=[nm.name()])
    r = Arr(Buf(dims, lambda idx: Sym(F(*[K.lift(i) for i in idx])), 'f'), axes)
    c.randoms.append(r)
    return r


class unguarded(object):
    def __enter__(self):
        self.p = K.CTX.path
        K.CTX.path = []

    def __exit__(self, *a):
        K.CTX.path = self.p


def np_uniform(low=Fraction(0), high=Fraction(1), size=None):
    u = random_sample(size)
    return PROG.binary('+', PROG.binary('*', PROG.binary('-', high, low), u), low)


# ------------------------------------------------------------------ histogram
def histogramdd(sample, bins=None, range=None, **kw):
    if kw or not isinstance(bins, (list, tuple)) or not isinstance(range, (list, tuple)):
        raise Unsupported('histogramdd arguments')
    xs = list(sample)
    nd = len(xs)
    if len(bins) != nd or len(range) != nd:
        raise PyRaise('ValueError', 'bins')
    ns = [intdim(b) for b in bins]
    lo = [K.toreal_s(scal(r[0])) for r in range]
    hi = [K.toreal_s(scal(r[1])) for r in range]
    fs = [x.fn() for x in xs]
    n = xs[0].size()
    c = K.CTX
    wid = [K.div(sub(h, l), b) for h, l, b in zip(hi, lo, ns)]

    def inbin(k, q, b):
        v = fs[q]((k,))
        e0 = add(lo[q], mul(K.toreal_s(b), wid[q]))
        e1 = add(lo[q], mul(K.toreal_s(add(b, 1)), wid[q]))
        last = cmp('==', b, sub(ns[q], 1))
        return land(cmp('>=', v, e0), lor(cmp('<', v, e1), land(last, cmp('<=', v, e1))))

    def fn(idx):
        import builtins
        return sum_range(n, lambda k: ite(land(*[inbin(k, q, idx[q]) for q in builtins.range(nd)]), Fraction(1), Fraction(0)))
    H = Arr(Buf(ns, fn, 'f'))
    edges = [linspace(l, h, add(b, 1)) for l, h, b in zip(lo, hi, ns)]
    return H, edges


def interp1d(x, y, kind='linear', **kw):
    """piecewise linear interpolation, at points within the range of x"""
    if kw or kind != 'linear':
        raise Unsupported('interpolation of kind %s' % (kind,))
    fx, fy, n = x.fn(), y.fn(), x.dims[0]

    def at(u):
        c = K.CTX

        def one(v, key):
            s = key
            return s
        if isinstance(u, Arr):
            f = u.fn()
            S = c.fresh_fun('seg', *([K.I] * (len(u.dims) + 1)))
            nm = S(*[z3.IntVal(0)] * len(u.dims)).decl()
            nb = len(c.bound)
            bound = list(c.bound)

            def seg(idx):
                return Sym(S(*[K.lift(i) for i in idx]))

            def uni(ix):
                ix = ix[nb:]
                s = Sym(nm(*(bound + [K.lift(i) for i in ix])))
                v = f(tuple(ix))
                ok = land(cmp('>=', v, fx((0,))), cmp('<=', v, fx((sub(n, 1),))), A.inrange(ix, u.dims))
                return K.implies(ok, land(s >= 0, cmp('<', s, sub(n, 1)), cmp('<=', fx((s,)), v), cmp('<=', v, fx((add(s, 1),)))))
            c.universal(nb + len(u.dims), uni, 'segment', trig=[nm.name()])
            w = [c.fresh('any', K.I) for _ in u.dims]
            v = f(tuple(w))
            c.oblige('interpolation within the range', K.implies(A.inrange(w, u.dims), land(cmp('>=', v, fx((0,))), cmp('<=', v, fx((sub(n, 1),))))), 'pre')

            def fn(idx):
                s = seg(idx)
                x0, x1, y0, y1 = fx((s,)), fx((add(s, 1),)), fy((s,)), fy((add(s, 1),))
                v = f(idx)
                return add(y0, mul(sub(y1, y0), K.div(sub(v, x0), sub(x1, x0))))
            return Arr(Buf(u.dims, fn, 'f'), list(u.axes))
        raise Unsupported('interpolation at a scalar')
    return at


def np_copy(v):
    if isinstance(v, (Arr, Sel)):
        return A.copy(v)
    if K.is_scalar(v):
        # numpy gives a 0-d array, which behaves as the scalar in arithmetic
        return v
    return array(v)


class Columns(object):
    """the distinct columns of a small two-row array (np.unique with axis=1): a set of pairs"""
    def __init__(self, cols):
        self.cols = cols

    def unpack(self, n):
        if n != len(self.cols[0]):
            raise PyRaise('ValueError', 'unpack')
        return [ColumnOf(self, k) for k in range(n)]


class ColumnOf(object):
    def __init__(self, cols, k):
        self.cols = cols
        self.k = k


def np_unique(a, axis=None, **kw):
    if isinstance(a, Arr) and axis == 1 and a.ndim == 2 and all(isinstance(d, int) for d in a.dims) and not kw:
        return Columns([[a.at(i, j) for i in range(a.dims[0])] for j in range(a.dims[1])])
    raise Unsupported('unique')


def np_diff(a, **kw):
    if kw or not isinstance(a, Arr) or a.ndim != 1:
        raise Unsupported('diff')
    return PROG.binary('-', A.getitem(a, Sl(1, None, None)), A.getitem(a, Sl(None, -1, None)))


def np_outer(a, b):
    a, b = asarray(a), asarray(b)
    fa, fb = a.fn(), b.fn()
    return Arr(Buf(a.dims + b.dims, lambda i: mul(fa(i[:1]), fb(i[1:])), 'f'))


def np_tile(a, reps):
    a = asarray(a)
    if isinstance(reps, (list, tuple)) and len(reps) == 2 and a.ndim == 1 and isinstance(reps[1], int) and reps[1] == 1:
        f = a.fn()
        n = intdim(reps[0])
        return Arr(Buf([n] + a.dims, lambda i: f(tuple(i[1:])), a.dtype), [(n,)] + list(a.axes))
    raise Unsupported('tile')


def np_repeat(v, n, axis=None):
    if K.is_scalar(v) and axis is None:
        return full(n, v)
    raise Unsupported('repeat')


def np_vectorlike(f):
    return f


def np_atleast_1d(v):
    if K.is_scalar(v):
        return array([v])
    return asarray(v)


def np_size(v, axis=None):
    if K.is_scalar(v):
        return 1
    if axis is not None:
        return shape_of(v)[axis]
    if isinstance(v, Sel):
        return v.where.count()
    return asarray(v).size()


def np_reshape(a, shape, **kw):
    return A.reshape(asarray(a), shape_list(shape))


def shape_list(s):
    if isinstance(s, (list, tuple)):
        return [intdim(x) if not (isinstance(x, int) and x == -1) else -1 for x in s]
    return [intdim(s) if not (isinstance(s, int) and s == -1) else -1]


def np_flip(a, axis=None):
    if isinstance(a, Arr) and a.ndim == 1:
        return A.getitem(a, Sl(None, None, -1))
    raise Unsupported('flip')


def np_broadcast_to(a, shape):
    a = asarray(a)
    axes = shape_axes(shape)
    z = Arr(Buf([d for ax in axes for d in ax], lambda i: Fraction(0), 'f'), axes)
    if isinstance(a, Arr):
        return A.elementwise(lambda x, y: x, a.dtype, a, z)
    return full(shape, a)


def np_roll(a, shift, axis=None):
    a = asarray(a)
    ax = 0 if axis is None and a.ndim == 1 else axis
    if ax != 0 or len(a.axes[0]) != 1:
        raise Unsupported('roll')
    n = a.dims[0]
    f = a.fn()
    if not isinstance(shift, int) and not K.CTX.entails(K.lift(land(cmp('<=', K.neg(n), shift), cmp('<=', shift, n)))):
        raise Unsupported('roll by more than a turn')

    def fn(i):
        p = sub(i[0], shift)
        p = ite(cmp('<', p, 0), add(p, n), ite(cmp('>=', p, n), sub(p, n), p))
        return f((p,) + tuple(i[1:]))
    return Arr(Buf(a.dims, fn, a.dtype), list(a.axes))


def np_array_split(*a, **k):
    raise Unsupported('array_split')


NUMPY = {
    'array': array, 'asarray': asarray, 'zeros': zeros, 'ones': ones, 'full': full, 'empty': empty,
    'zeros_like': like(zeros), 'ones_like': like(ones), 'full_like': like(full), 'empty_like': like(empty),
    'shape': shape_of, 'size': np_size, 'linspace': linspace, 'logspace': logspace, 'arange': arange, 'meshgrid': meshgrid,
    'concatenate': concatenate, 'hstack': concatenate, 'stack': np_stack, 'vstack': np_stack, 'copy': np_copy,
    'sum': np_sum, 'mean': np_mean, 'average': np_average, 'prod': np_prod, 'cumsum': np_cumsum, 'max': np_max, 'min': np_min,
    'amax': np_max, 'amin': np_min, 'argmin': np_arg('min'), 'argmax': np_arg('max'), 'argsort': np_argsort,
    'any': np_any, 'all': np_all, 'where': np_where, 'isscalar': isscalar, 'isfinite': np_isfinite, 'isnan': np_isnan,
    'nan_to_num': np_nan_to_num, 'round': np_round, 'rint': np_round, 'clip': np_clip, 'cross': np_cross, 'dot': np_dot, 'matmul': np_dot,
    'unique': np_unique, 'histogramdd': histogramdd, 'diff': np_diff, 'outer': np_outer, 'tile': np_tile, 'repeat': np_repeat,
    'atleast_1d': np_atleast_1d, 'reshape': np_reshape, 'flip': np_flip, 'flipud': np_flip, 'broadcast_to': np_broadcast_to, 'roll': np_roll,
    'nonzero': np_where, 'ravel': lambda a: attribute(a, 'flatten')(), 'transpose': lambda a: A.transpose(a),
    'sqrt': ufunc(real(K.sqrt)), 'sin': ufunc(real(K.sin)), 'cos': ufunc(real(K.cos)), 'arccos': ufunc(real(K.acos)), 'arcsin': ufunc(real(K.asin)),
    'arctan2': ufunc(real(K.atan2)), 'floor': ufunc(real(K.floor)), 'ceil': ufunc(real(lambda x: K.toreal_s(K.ceil_int(x)))),
    'trunc': ufunc(real(lambda x: K.toreal_s(K.trunc_int(x)))), 'fix': ufunc(real(lambda x: K.toreal_s(K.trunc_int(x)))),
    'sign': ufunc(K.sign, 'same'), 'abs': ufunc(K.absv, 'same'), 'absolute': ufunc(K.absv, 'same'), 'fabs': ufunc(real(K.absv)),
    'hypot': ufunc(real(lambda x, y: K.sqrt(add(mul(x, x), mul(y, y))))), 'square': ufunc(lambda x: mul(x, x), 'same'),
    'power': lambda a, b: PROG.binary('**', a, b), 'cbrt': ufunc(real(lambda x: K.power(x, Fraction(1, 3)))),
    'minimum': ufunc(K.minv, 'same'), 'maximum': ufunc(K.maxv, 'same'), 'mod': lambda a, b: PROG.binary('%', a, b),
    'remainder': lambda a, b: PROG.binary('%', a, b), 'floor_divide': lambda a, b: PROG.binary('//', a, b),
    'add': lambda a, b: PROG.binary('+', a, b), 'subtract': lambda a, b: PROG.binary('-', a, b),
    'multiply': lambda a, b: PROG.binary('*', a, b), 'divide': lambda a, b: PROG.binary('/', a, b), 'true_divide': lambda a, b: PROG.binary('/', a, b),
    'negative': lambda a: lift1(K.neg, a), 'reciprocal': lambda a: PROG.binary('/', Fraction(1), a),
    'logical_and': ufunc(land, 'b'), 'logical_or': ufunc(lor, 'b'), 'logical_not': ufunc(lnot, 'b'),
    'less': lambda a, b: cmpf('<', a, b), 'less_equal': lambda a, b: cmpf('<=', a, b), 'greater': lambda a, b: cmpf('>', a, b),
    'greater_equal': lambda a, b: cmpf('>=', a, b), 'equal': lambda a, b: cmpf('==', a, b), 'not_equal': lambda a, b: cmpf('!=', a, b),
    'deg2rad': ufunc(real(lambda x: mul(x, K.div(K.PI(), 180)))), 'radians': ufunc(real(lambda x: mul(x, K.div(K.PI(), 180)))),
    'log10': ufunc(real(lambda x: K.fn1(K.LOG10, x, lambda t: t > 0))),
    'float64': lambda v: cast(v, 'f'), 'int64': lambda v: cast(v, 'i'),
}


def cmpf(op, a, b):
    return A.binop(op, a, b) if isinstance(a, (Arr, Sel)) or isinstance(b, (Arr, Sel)) else cmp(op, a, b)


for _n in ('float64', 'int64', 'float32', 'int32'):
    pass
NUMPY['float64'].__name__ = 'float64'
NUMPY['int64'].__name__ = 'int64'


# ------------------------------------------------------------------ healpy: contracts of the dependency
ANG2PIX = z3.Function('ang2pix', K.I, K.R, K.R, K.I)
PIX2THETA = z3.Function('pix2theta', K.I, K.I, K.R)
PIX2PHI = z3.Function('pix2phi', K.I, K.I, K.R)


def hp_isnsideok(nside, nest=False):
    if nest:
        raise Unsupported('isnsideok(nest)')
    if isinstance(nside, (Arr, list, tuple)):
        raise Unsupported('isnsideok of an array')
    ok = land(cmp('>=', nside, 1), cmp('<=', nside, 2**29))
    if K.isreal(nside):
        ok = land(ok, cmp('==', nside, K.toreal_s(K.floor_int(nside))))
    return ok


def hp_nside2npix(nside):
    K.CTX.oblige('a valid nside', hp_isnsideok(nside), 'pre')
    return mul(12, mul(nside, nside))


def hp_nside2pixarea(nside, degrees=False):
    if degrees:
        raise Unsupported('nside2pixarea in degrees')
    return K.div(mul(4, K.PI()), K.toreal_s(hp_nside2npix(nside)))


def hp_npix2nside(npix):
    raise Unsupported('npix2nside')


def nside_int(nside):
    if K.isreal(nside):
        raise Unsupported('nside that is not an integer')
    return K.lift(nside)


def hp_ang2pix(nside, theta, phi, nest=False, lonlat=False):
    """the pixel that contains a direction, in the ring scheme"""
    if nest or lonlat:
        raise Unsupported('ang2pix arguments')
    n = nside_int(nside)
    c = K.CTX
    c.oblige('a valid nside', hp_isnsideok(nside), 'pre')
    if any(isinstance(x, Arr) for x in (theta, phi)):
        dims = (theta if isinstance(theta, Arr) else phi).dims
        w = [c.fresh('any', K.I) for _ in dims]
        t = theta.at(*w) if isinstance(theta, Arr) else theta
        p = phi.at(*w) if isinstance(phi, Arr) else phi
        g = A.inrange(w, dims)
    elif K.is_scalar(theta) and K.is_scalar(phi):
        t, p, g = theta, phi, True
    else:
        raise Unsupported('directions')
    bad = K.bor(K.badof(t), K.badof(p))
    with c.under(g):
        if bad is not None:
            c.oblige('directions are numbers', Sym(z3.Not(bad)), 'pre')
        c.oblige('theta between 0 and pi', land(cmp('>=', A.strip(t), 0), cmp('<=', A.strip(t), K.PI())), 'pre')

    def f(t, p):
        r = ANG2PIX(n, K.lift(K.toreal_s(A.strip(t))), K.lift(K.toreal_s(A.strip(p))))
        return Sym(r)
    return A.elementwise(f, 'i', theta, phi) if isinstance(theta, Arr) or isinstance(phi, Arr) else f(theta, phi)


def hp_pix2ang(nside, ipix, nest=False, lonlat=False):
    """the direction of the center of a pixel, in the ring scheme"""
    if nest or lonlat:
        raise Unsupported('pix2ang arguments')
    n = nside_int(nside)
    c = K.CTX
    c.oblige('a valid nside', hp_isnsideok(nside), 'pre')
    if isinstance(ipix, Arr):
        w = [c.fresh('any', K.I) for _ in ipix.dims]
        p, g = ipix.at(*w), A.inrange(w, ipix.dims)
    else:
        p, g = ipix, True
    with c.under(g):
        c.oblige('pixel numbers', land(cmp('>=', p, 0), cmp('<', p, mul(12, mul(nside, nside)))), 'pre')
    out = []
    for F in (PIX2THETA, PIX2PHI):
        f = (lambda F: lambda q: Sym(F(n, K.lift(q))))(F)
        out.append(A.elementwise(f, 'f', ipix) if isinstance(ipix, Arr) else f(ipix))
    return tuple(out)


def hooked(name):
    def f(*a, **k):
        h = K.CTX.hooks.get(name)
        if h is None:
            raise Unsupported('healpy.%s' % name)
        return h(*a, **k)
    return f


def attribute(o, name):
    """attribute of an external module, an array or a scalar"""
    if isinstance(o, Ext):
        if name in o.table:
            if callable(o.table[name]):
                K.CTX.externals.add(o.name + '.' + name)
            v = o.table[name]
            return v() if getattr(v, 'const', False) else v
        if o.name == 'numpy' and name == 'pi':
            return K.PI()
        if o.name == 'numpy' and name == 'nan':
            return K.NAN
        if o.name == 'numpy' and name == 'newaxis':
            return None
        raise Unsupported('%s.%s' % (o.name, name))
    if isinstance(o, (Arr, Sel)):
        return arr_attr(o, name)
    if isinstance(o, list) and name == 'append':
        def app(v):
            o.append(v)
            K.mutate(lambda: o.pop())
        return app
    if isinstance(o, (list, tuple)) and name == 'index':
        raise Unsupported('list.index')
    if isinstance(o, str):
        if name in ('format', 'join', 'upper', 'lower'):
            return lambda *a, **k: '<text>'
        raise Unsupported('str.%s' % name)
    if K.is_scalar(o):
        if name == 'astype':
            return lambda dt, **k: convert(o, dt_of(dt))
        if name in ('item', 'copy', 'squeeze'):
            return lambda: o
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'T':
            return o
        if name in ('flatten', 'ravel'):
            return lambda: array([o])
        if isinstance(o, Sym) or name in ('dtype',):
            raise Unsupported('scalar.%s' % name)
        raise PyRaise('AttributeError', name)
    raise Unsupported('attribute %s of %r' % (name, type(o)))


def arr_attr(o, name):
    if name == 'shape':
        return shape_of(o)
    if name == 'size':
        return np_size(o)
    if name == 'ndim':
        return o.ndim if isinstance(o, Arr) else 1
    if name == 'dtype':
        return {'f': 'float', 'i': 'int', 'b': 'bool', 'o': 'object'}[o.dtype]
    if name == 'T':
        if isinstance(o, Sel):
            return o
        return A.transpose(o)
    if name == 'astype':
        return lambda dt, **k: cast(o, dt_of(dt))
    if name == 'copy':
        return lambda: A.copy(o)
    if name in ('flatten', 'ravel'):
        if isinstance(o, Sel):
            return lambda *a: A.copy(o)
        if name == 'ravel':
            return lambda *a: A.flatten_view(o)
        return lambda *a: A.copy(A.flatten_view(o))
    if name == 'reshape':
        def rs(*s, **k):
            if len(s) == 1:
                return A.reshape(o, shape_list(s[0]))
            return A.reshape(o, shape_list(s))
        return rs
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'cumsum', 'argmin', 'argmax', 'argsort', 'round', 'clip', 'dot', 'repeat'):
        f = NUMPY[name]
        return lambda *a, **k: f(o, *a, **k)
    if name == 'transpose':
        return lambda *a: A.transpose(o, a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else (a or None))
    if name == 'tolist':
        return lambda: to_list(o)
    if name == 'fill':
        return lambda v: A.assign_all(o, v)
    if name == 'squeeze':
        raise Unsupported('squeeze')
    if name == 'nonzero':
        return lambda: np_where(o)
    raise Unsupported('array.%s' % name)


def to_list(o):
    from .interp import SymList
    if isinstance(o, Sel):
        o = A.positional(o)
    n = A.prod(o.axes[0])
    if isinstance(n, int):
        return [to_list(x) if isinstance(x, Arr) else x for x in [A.getitem(o, k) for k in range(n)]]
    f = o.fn()
    if o.ndim == 1 and len(o.dims) == 1:
        return SymList(n, lambda j: f((j,)))
    raise Unsupported('tolist')


# ------------------------------------------------------------------ builtins
def py_range(*a):
    from .interp import Range
    a = [scal(x) for x in a]
    for x in a:
        if K.isreal(x):
            raise PyRaise('TypeError', 'float can not be interpreted as an integer')
    if len(a) == 1:
        return Range(0, a[0], 1)
    if len(a) == 2:
        return Range(a[0], a[1], 1)
    return Range(*a)


def py_int(v=0):
    v = scal(v)
    if isinstance(v, str):
        raise Unsupported('int of text')
    b = K.badof(v)
    if b is not None:
        K.CTX.oblige('int() of a number', Sym(z3.Not(b)), 'bounds')
        v = Sym(v.t)
    return K.trunc_int(v)


def py_float(v=0):
    v = scal(v)
    if isinstance(v, str):
        return K.NAN
    return K.toreal_s(v)


def py_abs(v):
    return ufunc(K.absv, 'same')(v)


def py_minmax(which):
    f = K.minv if which == 'min' else K.maxv

    def g(*a, **kw):
        if kw:
            raise Unsupported(which)
        if len(a) == 1:
            if isinstance(a[0], (list, tuple)):
                a = a[0]
            else:
                return (np_min if which == 'min' else np_max)(a[0])
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return r
    return g


def py_sum(v, start=0):
    from .interp import SymList
    if isinstance(v, (list, tuple)):
        r = start
        for x in v:
            r = PROG.binary('+', r, x)
        return r
    if isinstance(v, SymList):
        return add(start, sum_range(v.n, v.at))
    return add(start, np_sum(v))


def py_zip(*xs):
    seqs = [PROG.sequence(x) for x in xs]
    if any(s is None for s in seqs):
        from .interp import SymList
        raise Unsupported('zip')
    return list(zip(*seqs))


def py_enumerate(x, start=0):
    s = PROG.sequence(x)
    if s is None:
        raise Unsupported('enumerate')
    return [(start + i, v) for i, v in enumerate(s)]


def py_isinstance(v, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = False
    for x in ts:
        nm = getattr(x, '__name__', None)
        if nm in ('list', 'py_list'):
            out = out or isinstance(v, list)
        elif nm in ('tuple', 'py_tuple'):
            out = out or isinstance(v, tuple)
        elif nm in ('ndarray',):
            out = out or isinstance(v, (Arr, Sel))
        elif nm in ('py_float', 'float', 'floating'):
            out = out or K.is_scalar(v) and K.isreal(v)
        elif nm in ('py_int', 'int', 'integer'):
            out = out or K.is_scalar(v) and not K.isreal(v)
        else:
            raise Unsupported('isinstance')
    return out


def py_list(v=()):
    s = PROG.sequence(v)
    if s is None:
        if isinstance(v, (Arr, Sel)):
            return to_list(v)
        raise Unsupported('list')
    return list(s)


def py_tuple(v=()):
    s = PROG.sequence(v)
    if s is None:
        raise Unsupported('tuple')
    return tuple(s)


def ndarray(*a):
    raise Unsupported('ndarray')


def ndarray_tolist(o):
    return to_list(o)


py_int.__name__ = 'int'
py_float.__name__ = 'float'


def py_bool(v=False):
    return K.mk(K.tobool(v)) if K.is_scalar(v) else PROG.truth(v)


py_bool.__name__ = 'bool'


def py_object():
    raise Unsupported('object()')


py_object.__name__ = 'object'

BUILTINS = {'range': py_range, 'len': length, 'int': py_int, 'float': py_float, 'bool': py_bool, 'abs': py_abs, 'min': py_minmax('min'),
            'max': py_minmax('max'), 'sum': py_sum, 'all': py_all, 'any': py_any, 'zip': py_zip, 'enumerate': py_enumerate,
            'isinstance': py_isinstance, 'list': py_list, 'tuple': py_tuple, 'print': lambda *a, **k: None, 'object': py_object,
            'round': np_round, 'pow': lambda a, b: PROG.binary('**', a, b), 'True': True, 'False': False, 'None': None, 'str': lambda v: '<text>'}

ND = Ext('numpy.ndarray', {'tolist': ndarray_tolist})
ND.__name__ = 'ndarray'
NUMPY['ndarray'] = ND
RND = Ext('numpy.random', {'random_sample': random_sample, 'random': random_sample, 'rand': lambda *s: random_sample(s[0] if len(s) == 1 else (s or None)),
                           'uniform': np_uniform, 'sample': random_sample, 'ranf': random_sample})
NUMPY['random'] = RND
NUMPY['linalg'] = Ext('numpy.linalg', {'inv': np_inv, 'norm': np_norm})
NUMPY['newaxis'] = None
NUMPY['bool_'] = py_bool
HP = Ext('healpy', dict([('isnsideok', hp_isnsideok), ('nside2npix', hp_nside2npix), ('nside2pixarea', hp_nside2pixarea), ('ang2pix', hp_ang2pix),
    ('pix2ang', hp_pix2ang)] + [(n, hooked(n)) for n in ('npix2nside', 'ud_grade', 'nside2order',
                                                    'boundaries', 'neighbours', 'get_all_neighbours', 'pix2vec', 'vec2pix')]))
SCIPY = Ext('scipy', {})
INTERP = Ext('scipy.interpolate', {'interp1d': interp1d})
SCIPY.table['interpolate'] = INTERP
MATH = Ext('math', {'sqrt': NUMPY['sqrt'], 'sin': NUMPY['sin'], 'cos': NUMPY['cos'], 'acos': NUMPY['arccos'], 'atan2': NUMPY['arctan2'],
                    'floor': K.floor_int, 'ceil': K.ceil_int, 'fabs': NUMPY['fabs'], 'hypot': NUMPY['hypot']})
EXTERNALS = {'numpy': Ext('numpy', NUMPY), 'healpy': HP, 'scipy': SCIPY, 'scipy.interpolate': INTERP, 'math': MATH, 'numpy.random': RND}
MATH_PI = None
