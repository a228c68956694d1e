"""Symbolic arrays.

An array is a buffer (digits -> scalar, a pointwise function) seen through a view.  The digits of a buffer
are its index positions; an axis of a view groups one or more digits (a flattened axis keeps the digits
it was made from, so that flatten and reshape never need division).  Selections by np.where or a boolean
mask stay indexed by the base array, so that masked reads and writes are pointwise too.
"""
from fractions import Fraction
import z3
from . import core as K
from .core import Sym, Unsupported, PyRaise, ite, cmp, land, lor, lnot, add, sub, mul


# ------------------------------------------------------------------ dimensions
def peq(a, b):
    """are two integer terms equal (as polynomials, or by the solver under the present path)?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, y = K.lift(a), K.lift(b)
    if x.eq(y):
        return True
    d = z3.simplify(x - y, som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return K.CTX.entails(x == y)


def prod(dims):
    r = 1
    for d in dims:
        r = mul(r, d)
    return r


def key_of(idx):
    return tuple(('t', i.t.get_id(), -1 if i.bad is None else i.bad.get_id()) if isinstance(i, Sym) else i for i in idx)


class Memo(object):
    """memoised pointwise function"""
    __slots__ = ('f', 'd')

    def __init__(self, f):
        self.f = f
        self.d = {}

    def __call__(self, idx):
        k = key_of(idx)
        r = self.d.get(k)
        if r is None:
            r = (idx, self.f(idx))
            self.d[k] = r
        return r[1]


class Buf(object):
    __slots__ = ('dims', 'fn', 'dtype', 'owner', 'wc', 'level', 'name')

    def __init__(self, dims, fn, dtype='f', owner=None):
        self.dims = list(dims)
        self.fn = fn if isinstance(fn, Memo) else Memo(fn)
        self.dtype = dtype
        self.owner = owner
        self.wc = None           # where the buffer was written since the present loop was entered
        self.level = K.CTX.loop_level if K.CTX is not None else 0
        self.name = None


def coerce(v, dtype):
    """the value as stored in an array of that dtype"""
    if dtype == 'f':
        if isinstance(v, (Sym, int, bool, Fraction, float)):
            return K.toreal_s(v) if not K.isreal(v) else (Fraction(repr(v)) if isinstance(v, float) else v)
        raise Unsupported('storing %r in a float array' % (type(v),))
    if dtype == 'i':
        return K.trunc_int(v)
    if dtype == 'b':
        return v if K.isbool(v) else K.mk(K.tobool(v))
    return v


class Arr(object):
    """axes: list of tuples of digit sizes"""
    __slots__ = ('buf', 'axes', 'imap', 'inv')

    def __init__(self, buf, axes=None, imap=None, inv=None):
        self.buf = buf
        self.axes = axes if axes is not None else [(d,) for d in buf.dims]
        self.imap = imap
        self.inv = inv

    def __repr__(self):
        return 'Arr(%s, %s)' % (self.axes, self.buf.dtype)

    # --- shape
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def dims(self):
        return [d for ax in self.axes for d in ax]

    def shape(self):
        return tuple(prod(ax) for ax in self.axes)

    def size(self):
        return prod(self.dims)

    # --- reading
    def fn(self):
        """the present content as a pointwise function of the view digits"""
        f, m = self.buf.fn, self.imap
        if m is None:
            return f
        return lambda idx: f(m(idx))

    def at(self, *idx):
        return self.fn()(tuple(idx))

    # --- writing
    def write(self, cond, val):
        """content := val(idx) where cond(idx)"""
        b = self.buf
        K.CTX.on_write(b)
        old, oldwc = b.fn, b.wc
        inv, dt = self.inv, b.dtype
        if self.imap is not None and inv is None:
            raise Unsupported('writing through this view')

        def wcond(bi):
            if inv is None:
                c, vi = True, bi
            else:
                c, vi = inv(bi)
            return (land(c, cond(vi)) if cond is not None else c), vi

        def new(bi):
            c, vi = wcond(bi)
            if c is False:
                return old(bi)
            v = val(vi)
            if c is True:
                return coerce(v, dt)
            if dt == 'o' and not isinstance(v, (Sym, int, Fraction)):
                return oite(c, v, lambda: old(bi))
            return ite(c, coerce(v, dt), old(bi))
        b.fn = Memo(new)
        if oldwc is not None:
            b.wc = lambda bi: lor(oldwc(bi), wcond(bi)[0])

        def undo():
            b.fn, b.wc = old, oldwc
        K.mutate(undo)

    # --- views
    def view(self, axes, imap, inv):
        """a view of this view: imap from new digits to my digits, inv back"""
        m0, i0 = self.imap, self.inv
        if m0 is None:
            return Arr(self.buf, axes, imap, inv)
        if inv is None or i0 is None:
            ninv = None
        else:
            def ninv(bi):
                c0, v0 = i0(bi)
                c1, v1 = inv(v0)
                return land(c0, c1), v1
        return Arr(self.buf, axes, lambda idx: m0(imap(idx)), ninv)


class OIte(object):
    """choice between two non-scalar values"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def oite(c, a, bthunk):
    try:
        b = bthunk()
    except Unsupported:
        b = None
    return OIte(c, a, b)


def fresh_arr(dims, fn, dtype='f', axes=None):
    return Arr(Buf(dims, fn, dtype), axes)


def new_like(a, fn, dtype):
    return Arr(Buf(a.dims, fn, dtype), list(a.axes))


# ------------------------------------------------------------------ selections
class Where(object):
    """the positions of an array (digits grouped in axes) where a mask holds, in order"""
    def __init__(self, axes, mask, parent=None):
        self.axes = axes
        self.mask = Memo(mask)       # idx -> scalar bool
        self.parent = parent
        self._count = None

    def dims(self):
        return [d for ax in self.axes for d in ax]

    def sample(self, base='w'):
        """fresh index of the base"""
        return fresh_index(self.dims(), base)

    def stats(self):
        """number of selected positions, the first and the last (for one plain axis)"""
        if self._count is None:
            c = K.CTX
            n = c.fresh('cnt', K.I)
            size = prod(self.dims())
            c.fact(land(n >= 0, cmp('<=', n, size)), guarded=False)
            dims = self.dims()
            first = [c.fresh('first', K.I) for _ in dims]
            last = [c.fresh('last', K.I) for _ in dims]
            # all of them, when none is left out
            out = [c.fresh('out', K.I) for _ in dims]
            c.fact(lor(cmp('==', n, size), land(inrange(out, dims), lnot(self.mask(tuple(out))))), guarded=False)
            pos = n >= 1
            for w in (first, last):
                g = land(inrange(w, dims), self.mask(tuple(w)))
                c.fact(K.implies(pos, g), guarded=False)
            if len(dims) == 1:
                f, l = first[0], last[0]
                c.fact(K.implies(pos, land(f <= l, cmp('<=', n, l - f + 1))), guarded=False)
                c.fact(K.implies(n == 1, f == l), guarded=False)
                c.fact(K.implies(n >= 2, f < l), guarded=False)
            else:
                f = l = None
            mask = self.mask

            def uni(ix):
                inr = land(inrange(ix, dims), mask(tuple(ix)))
                g = [n >= 1]
                if f is not None:
                    g += [cmp('<=', f, ix[0]), cmp('<=', ix[0], l)]
                return K.implies(inr, land(*g))
            c.universal(len(dims), uni, 'where')
            self._count = (n, first, last)
        return self._count

    def count(self):
        return self.stats()[0]


def inrange(idx, dims):
    return land(*[land(cmp('<=', 0, i), cmp('<', i, d)) for i, d in zip(idx, dims)])


def fresh_index(dims, base='i'):
    """fresh in-range digits (the range is a fact about them, guarded by non-emptiness being irrelevant:
    it is assumed only by whoever reasons for all of them)"""
    c = K.CTX
    return tuple(c.fresh(base, K.I) if not (isinstance(d, int) and d == 1) else 0 for d in dims)


class Sel(object):
    """values at the selected positions, as a pointwise function of the base index"""
    __slots__ = ('where', 'f', 'dtype', 'comp', 'rest')

    def __init__(self, where, f, dtype='f', comp=None, rest=()):
        self.where = where
        self.f = f if isinstance(f, Memo) else Memo(f)
        self.dtype = dtype
        self.comp = comp         # k: this is the index along axis k of the base
        self.rest = rest         # further axes, after the selected one

    def __repr__(self):
        return 'Sel(%s)' % self.dtype


class SubIdx(object):
    """np.where of a mask over a selection: positions within it"""
    def __init__(self, where, parent):
        self.where = where
        self.parent = parent


def where_of(mask):
    """np.where(mask)"""
    if isinstance(mask, Arr):
        w = Where(list(mask.axes), mask.fn())
        out = []
        pos = 0
        for k, ax in enumerate(mask.axes):
            ds = list(range(pos, pos + len(ax)))
            pos += len(ax)
            out.append(Sel(w, (lambda idx, ds=ds, ax=ax: radix([idx[d] for d in ds], ax)), 'i', comp=k))
        return tuple(out)
    if isinstance(mask, Sel):
        p = mask.where
        w = Where(p.axes, lambda idx: land(p.mask(idx), mask.f(idx)), parent=p)
        return (SubIdx(w, p),)
    raise Unsupported('where of %r' % (type(mask),))


def radix(digits, dims):
    r = 0
    for i, d in zip(digits, dims):
        r = add(mul(r, d), i)
    return r


def same_where(a, b):
    if a is b:
        return True
    if len(a.axes) != len(b.axes):
        return False
    da, db = a.dims(), b.dims()
    if len(da) != len(db) or not all(peq(x, y) for x, y in zip(da, db)):
        return False
    ix = fresh_index(da)
    ma, mb = K.tobool(a.mask(ix)), K.tobool(b.mask(ix))
    if ma.eq(mb):
        return True
    return K.CTX.entails(z3.Implies(K.tobool(inrange(ix, da)), ma == mb))


# ------------------------------------------------------------------ elementwise
def result_dtype(op, *ds):
    if op in ('/',):
        return 'f'
    if op in ('<', '<=', '>', '>=', '==', '!=', '&b', 'not'):
        return 'b'
    if 'f' in ds:
        return 'f'
    if 'i' in ds:
        return 'i'
    return 'i' if op in ('+', '-', '*', '//', '%', '**') else 'b'


def dtype_of(v):
    if isinstance(v, (Arr, Sel)):
        return v.dtype
    if K.isbool(v):
        return 'b'
    if K.isreal(v):
        return 'f'
    return 'i'


def broadcast(arrs):
    """common axes of arrays; returns (axes, list of index maps)"""
    nd = max(a.ndim for a in arrs)
    axes = []
    for k in range(nd):
        best = None
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            ax = a.axes[j]
            if len(ax) == 1 and isinstance(ax[0], int) and ax[0] == 1:
                continue
            if best is None:
                best = ax
            elif not axis_eq(best, ax):
                raise_shape(best, ax)
        axes.append(best if best is not None else (1,))
    maps = []
    for a in arrs:
        sel = []
        pos = 0
        for k in range(nd):
            j = k - (nd - a.ndim)
            if j >= 0:
                if len(a.axes[j]) == 1 and isinstance(a.axes[j][0], int) and a.axes[j][0] == 1 and not (len(axes[k]) == 1 and axes[k][0] == 1 and isinstance(axes[k][0], int)):
                    sel.append(None)
                else:
                    sel.extend(range(pos, pos + len(axes[k])))
            pos += len(axes[k])
        if sel == list(range(pos)):
            maps.append(None)
        else:
            maps.append(lambda idx, sel=sel: tuple(0 if s is None else idx[s] for s in sel))
    return axes, maps


def axis_eq(a, b):
    return len(a) == len(b) and all(peq(x, y) for x, y in zip(a, b))


def raise_shape(a, b):
    c = K.CTX
    if len(a) == len(b) == 1:
        eq = cmp('==', prod(a), prod(b))
        one = lor(cmp('==', prod(a), 1), cmp('==', prod(b), 1))
        if eq is False and one is False:
            raise PyRaise('ValueError', 'operands could not be broadcast together')
        # sizes that are not known to be equal: an obligation
        c.oblige('shapes broadcast: %s and %s' % (prod(a), prod(b)), eq, 'shape')
        c.assume(eq)
        return
    if peq(prod(a), prod(b)):
        raise Unsupported('mixing axes with different digits')
    c.oblige('shapes broadcast: %s and %s' % (prod(a), prod(b)), cmp('==', prod(a), prod(b)), 'shape')
    raise Unsupported('mixing axes with different digits')


def elementwise(f, dtype, *args):
    """applies the scalar function f pointwise"""
    sels = [a for a in args if isinstance(a, Sel)]
    arrs = [a for a in args if isinstance(a, Arr)]
    if sels:
        if arrs:
            # 0-d or one-element arrays broadcast
            if all(a.ndim == 0 for a in arrs):
                args = [a.at() if isinstance(a, Arr) else a for a in args]
            else:
                # an array whose length equals the count of the selection: not tracked
                raise Unsupported('array and selection in one operation')
        w = sels[0].where
        for s in sels[1:]:
            if s.where is not w and not same_where(s.where, w):
                K.CTX.mixed = True
                raise Unsupported('selections by different conditions in one operation')
        fs = [a.f if isinstance(a, Sel) else a for a in args]
        rest = sels[0].rest
        return Sel(w, lambda idx: f(*[g(idx) if isinstance(g, Memo) else g for g in fs]), dtype, rest=rest)
    if not arrs:
        return f(*args)
    axes, maps = broadcast(arrs)
    it = iter(maps)
    fs = []
    for a in args:
        if isinstance(a, Arr):
            fs.append((a.fn(), next(it)))
        else:
            fs.append((None, a))

    def fn(idx):
        vs = []
        for g, m in fs:
            if g is None:
                vs.append(m)
            else:
                vs.append(g(idx if m is None else m(idx)))
        return f(*vs)
    return Arr(Buf([d for ax in axes for d in ax], fn, dtype), axes)


BIN = {'+': add, '-': sub, '*': mul, '/': K.div, '//': K.floordiv, '%': K.mod, '**': K.power,
       '<': lambda a, b: cmp('<', a, b), '<=': lambda a, b: cmp('<=', a, b), '>': lambda a, b: cmp('>', a, b),
       '>=': lambda a, b: cmp('>=', a, b), '==': lambda a, b: cmp('==', a, b), '!=': lambda a, b: cmp('!=', a, b)}


def band(a, b):
    if K.isbool(a) and K.isbool(b):
        return land(a, b)
    raise Unsupported('bitwise and of integers')


def bxor(a, b):
    if K.isbool(a) and K.isbool(b):
        return cmp('!=', a, b)
    raise Unsupported('bitwise xor')


def bior(a, b):
    if K.isbool(a) and K.isbool(b):
        return lor(a, b)
    raise Unsupported('bitwise or of integers')


BIN['&'], BIN['|'], BIN['^'] = band, bior, bxor


def binop(op, a, b):
    if isinstance(a, (Arr, Sel)) or isinstance(b, (Arr, Sel)):
        a, b = to_operand(a), to_operand(b)
        da, db = dtype_of(a), dtype_of(b)
        dt = 'b' if op in ('&', '|', '^') and da == db == 'b' else result_dtype(op, da, db)
        if (isinstance(a, Arr) and a.dtype == 'o') or (isinstance(b, Arr) and b.dtype == 'o'):
            raise Unsupported('arithmetic on object arrays')
        if dt == 'f' and op in ('+', '-', '*', '%', '//', '**', '/'):
            base = BIN[op]
            return elementwise(lambda x, y: coerce(base(x, y), 'f'), 'f', a, b)
        return elementwise(BIN[op], dt, a, b)
    return BIN[op](a, b)


def to_operand(v):
    if isinstance(v, (list, tuple)):
        from . import npf
        return npf.array(v)
    return v


# ------------------------------------------------------------------ indexing
class Sl(object):
    """a slice"""
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class NewAxis(object):
    pass


NEWAXIS = NewAxis()


def norm_index(i, n, what='index'):
    """Python index to a position, with the bounds obligation"""
    c = K.CTX
    if isinstance(i, Sym) and K.isreal(i):
        raise PyRaise('IndexError', 'only integers are valid indices')
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return i % n if n else i
        raise PyRaise('IndexError', 'index %d is out of bounds for size %d' % (i, n))
    if isinstance(i, int):
        if i < 0:
            c.oblige('%s %s within bounds' % (what, i), cmp('<=', -i, n), 'bounds')
            return add(n, i)
        c.oblige('%s %s within bounds' % (what, i), cmp('<', i, n), 'bounds')
        return i
    if i.bad is not None:
        c.oblige('%s is defined' % what, Sym(z3.Not(i.bad)), 'bounds')
        i = Sym(i.t)
    if c.entails(i.t >= 0):
        c.oblige('%s %s within bounds' % (what, short(i)), cmp('<', i, n), 'bounds')
        return i
    if c.entails(i.t < 0):
        c.oblige('%s %s within bounds' % (what, short(i)), cmp('<=', neg(i), n), 'bounds')
        return add(n, i)
    c.oblige('%s %s within bounds' % (what, short(i)), land(cmp('<=', neg(n), i), cmp('<', i, n)), 'bounds')
    return ite(cmp('<', i, 0), add(n, i), i)


def neg(a):
    return K.neg(a)


def short(v):
    s = str(v.t if isinstance(v, Sym) else v).replace('\n', ' ')
    return s if len(s) < 60 else s[:57] + '...'


def slice_bounds(sl, n):
    """(start, length, step) with step 1 or -1 (or a positive constant)"""
    step = 1 if sl.step is None else sl.step
    if not isinstance(step, int) or step == 0:
        raise Unsupported('slice step')
    if step == -1:
        if sl.start is None and sl.stop is None:
            return sub(n, 1), n, -1
        raise Unsupported('reversed slice with bounds')
    if step != 1:
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop)):
            r = range(*slice(sl.start, sl.stop, step).indices(n))
            return r.start, len(r), step
        if step > 1 and sl.stop is None and (sl.start is None or isinstance(sl.start, int) and sl.start >= 0):
            s = sl.start or 0
            cnt = K.floordiv(add(sub(n, s), step - 1), step)
            return s, K.maxv(cnt, 0), step
        raise Unsupported('strided slice')

    def bound(x, default):
        if x is None:
            return default
        if isinstance(x, Sym) and K.isreal(x) or isinstance(x, Fraction):
            raise PyRaise('TypeError', 'slice indices must be integers')
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        if isinstance(x, int):
            if x == 0:
                return 0
            v = add(n, x) if x < 0 else x
            return clamp(v, n)
        if x.bad is not None:
            raise Unsupported('undefined slice bound')
        c = K.CTX
        if c.entails(x.t >= 0):
            return clamp(x, n)
        if c.entails(x.t < 0):
            return clamp(add(n, x), n)
        return clamp(ite(cmp('<', x, 0), add(n, x), x), n)
    a, b = bound(sl.start, 0), bound(sl.stop, n)
    ln = sub(b, a)
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not K.CTX.entails(K.lift(ln) >= 0):
        ln = K.maxv(ln, 0)
    return a, ln, 1


def clamp(v, n):
    """min(max(v, 0), n), decided where possible"""
    c = K.CTX
    if isinstance(v, int) and isinstance(n, int):
        return min(max(v, 0), n)
    lo = c.entails(K.lift(cmp('>=', v, 0))) if not isinstance(v, int) else v >= 0
    hi = c.entails(K.lift(cmp('<=', v, n)))
    if not hi and c.entails(K.lift(cmp('>', v, n))):
        return n
    if not lo and c.entails(K.lift(cmp('<', v, 0))):
        return 0
    if not lo:
        v = K.maxv(v, 0)
    if not hi:
        v = K.minv(v, n)
    return v


def expand_items(a, key):
    items = list(key) if isinstance(key, tuple) else [key]
    n = sum(1 for k in items if k is not NEWAXIS and k is not Ellipsis)
    if any(k is Ellipsis for k in items):
        p = [i for i, k in enumerate(items) if k is Ellipsis][0]
        items = items[:p] + [Sl(None, None, None)] * (a.ndim - n) + items[p + 1:]
    elif n < a.ndim:
        items = items + [Sl(None, None, None)] * (a.ndim - n)
    if n > a.ndim:
        raise PyRaise('IndexError', 'too many indices for array')
    return items


def is_index_scalar(k):
    return isinstance(k, (int, Sym)) and not isinstance(k, bool) and not K.isbool(k)


def basic_view(a, items):
    """view of a by integers, slices and new axes; returns an Arr (or the element, when 0-dimensional)"""
    axes = []
    plan = []       # one entry per digit of a: ('i', value) or ('s', start, step, length, newpos) or ('d', newpos)
    ax = 0
    npos = 0
    for it in items:
        if it is NEWAXIS:
            axes.append((1,))
            npos += 1
            continue
        g = a.axes[ax]
        ax += 1
        if is_index_scalar(it):
            if len(g) == 1:
                plan.append(('i', norm_index(it, g[0])))
            else:
                for v in decode(norm_index(it, prod(g)), g):
                    plan.append(('i', v))
        elif isinstance(it, Sl):
            if it.start is None and it.stop is None and it.step is None:
                for d in g:
                    plan.append(('d', npos))
                    npos += 1
                axes.append(g)
            elif len(g) > 1:
                raise Unsupported('slicing a flattened axis')
            else:
                s, n, step = slice_bounds(it, g[0])
                plan.append(('s', s, step, n, npos))
                npos += 1
                axes.append((n,))
        elif isinstance(it, Fraction):
            raise PyRaise('IndexError', 'only integers are valid indices')
        else:
            raise Unsupported('index %r' % (type(it),))
    if not axes:
        return a.at(*[p[1] for p in plan]), plan

    def imap(idx):
        out = []
        for p in plan:
            if p[0] == 'i':
                out.append(p[1])
            elif p[0] == 'd':
                out.append(idx[p[1]])
            else:
                out.append(add(p[1], mul(p[2], idx[p[4]])))
        return tuple(out)

    def inv(mi):
        conds = []
        v = [0] * npos
        for m, p in zip(mi, plan):
            if p[0] == 'i':
                conds.append(cmp('==', m, p[1]))
            elif p[0] == 'd':
                v[p[1]] = m
            else:
                off = sub(m, p[1]) if p[2] > 0 else sub(p[1], m)
                if abs(p[2]) != 1:
                    q = K.floordiv(off, abs(p[2]))
                    conds.append(cmp('==', K.mod(off, abs(p[2])), 0))
                    off = q
                conds.append(cmp('<=', 0, off))
                conds.append(cmp('<', off, p[3]))
                v[p[4]] = off
        return land(*conds), tuple(v)
    return a.view(axes, imap, inv), plan


def decode(e, dims):
    """digits of an integer index into a composite axis; e = (a*d2 + b)*d3 + c ... read off as a polynomial"""
    c = K.CTX
    if len(dims) == 1:
        return (e,)
    last = dims[-1]
    if isinstance(e, int) and all(isinstance(d, int) for d in dims):
        out = []
        for d in reversed(dims[1:]):
            out.append(e % d)
            e //= d
        return tuple([e] + out[::-1])
    t = resolve_ites(K.lift(e))
    if isinstance(last, int):
        q, r = split_const(t, last)
    else:
        q, r = split_by(t, K.lift(last))
    if q is None:
        raise Unsupported('index %s into a flattened axis' % short(e))
    rs, qs = K.mk(r), K.mk(q)
    c.oblige('index %s into a flattened axis' % short(e), land(cmp('<=', 0, rs), cmp('<', rs, last)), 'bounds')
    return decode(qs, dims[:-1]) + (rs,)


def resolve_ites(t):
    """replaces if-then-else terms whose condition is decided by the path"""
    c = K.CTX
    for _ in range(12):
        found = None
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
                found = x
                break
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
                st.extend(x.children())
        if found is None:
            return t
        if c.entails(found.arg(0)):
            t = z3.substitute(t, (found, found.arg(1)))
        elif c.entails(z3.Not(found.arg(0))):
            t = z3.substitute(t, (found, found.arg(2)))
        else:
            return t
    return t


def monomials(t):
    """sum of monomials of an integer polynomial: list of (coefficient, [atoms])"""
    t = z3.simplify(t, som=True)
    out = []
    for m in (t.children() if z3.is_add(t) else [t]):
        co, atoms = 1, []
        fs = m.children() if z3.is_mul(m) else [m]
        st = list(fs)
        while st:
            f = st.pop(0)
            if z3.is_int_value(f):
                co *= f.as_long()
            elif z3.is_mul(f):
                st = f.children() + st
            elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_int_value(f.arg(1)):
                atoms += [f.arg(0)] * f.arg(1).as_long()
            else:
                atoms.append(f)
        out.append((co, atoms))
    return out


def rebuild(ms):
    r = None
    for co, atoms in ms:
        m = z3.IntVal(co)
        for x in atoms:
            m = m * x
        r = m if r is None else r + m
    return z3.simplify(r) if r is not None else z3.IntVal(0)


def split_by(t, d):
    """t = q*d + r with r free of d, by collecting the monomials that contain the monomial d"""
    dm = monomials(d)
    if len(dm) != 1:
        # substitute a name for the polynomial: only handle syntactic products (a)*(d)
        return split_poly(t, d)
    dco, dat = dm[0]
    if abs(dco) != 1:
        return split_poly(t, d)
    q, r = [], []
    for co, at in monomials(t):
        rest = list(at)
        ok = True
        for x in dat:
            for i, y in enumerate(rest):
                if y.eq(x):
                    del rest[i]
                    break
            else:
                ok = False
                break
        if ok:
            q.append((co * dco, rest))
        else:
            r.append((co, at))
    return rebuild(q), rebuild(r)


def split_poly(t, d):
    """t = a*d + b where d is a sum: looks for the factor d in the products of t"""
    terms = t.children() if z3.is_add(t) else [t]
    q, r = [], []
    dn = z3.simplify(d, som=True)
    for m in terms:
        hit = False
        if z3.is_mul(m):
            fs = m.children()
            for i, f in enumerate(fs):
                if z3.simplify(f, som=True).eq(dn):
                    rest = fs[:i] + fs[i + 1:]
                    x = rest[0]
                    for y in rest[1:]:
                        x = x * y
                    q.append(x)
                    hit = True
                    break
        elif z3.simplify(m, som=True).eq(dn):
            q.append(z3.IntVal(1))
            hit = True
        if not hit:
            r.append(m)
    if not q and not z3.is_add(t):
        return z3.IntVal(0), t
    s = z3.IntVal(0)
    for x in q:
        s = s + x
    u = z3.IntVal(0)
    for x in r:
        u = u + x
    return z3.simplify(s), z3.simplify(u)


def split_const(t, d):
    q, r = [], []
    for co, at in monomials(t):
        if at and co % d == 0:
            q.append((co // d, at))
        else:
            r.append((co, at))
    return rebuild(q), rebuild(r)


def gather_index(k):
    return isinstance(k, (Sel, SubIdx)) or isinstance(k, Arr) or isinstance(k, list)


def getitem(a, key):
    if isinstance(a, Sel):
        return sel_getitem(a, key)
    if isinstance(key, Arr) and key.dtype == 'b':
        key = where_of(key)
    elif isinstance(key, tuple) and any(isinstance(k, Arr) and k.dtype == 'b' for k in key):
        nk = []
        for k in key:
            if isinstance(k, Arr) and k.dtype == 'b':
                nk.extend(where_of(k))
            else:
                nk.append(k)
        key = tuple(nk)
    items = expand_items(a, key)
    if any(gather_index(k) for k in items):
        return gather(a, items)
    return basic_view(a, items)[0]


def full_slice(k):
    return isinstance(k, Sl) and k.start is None and k.stop is None and k.step is None


def index_operands(a, items):
    """splits the items of a fancy index: the leading run of index arrays/scalars and trailing full slices"""
    items = [k if not isinstance(k, list) else to_operand(k) for k in items]
    n = len(items)
    while n and full_slice(items[n - 1]):
        n -= 1
    head = items[:n]
    if any(isinstance(k, Sl) or k is NEWAXIS for k in head):
        raise Unsupported('mixed fancy index')
    return head


def gather(a, items):
    head = index_operands(a, items)
    tail = a.axes[len(head):]
    tdims = [d for ax in tail for d in ax]
    f = a.fn()
    head = [Sel(k.where, k.f, k.dtype, k.comp, k.rest) if isinstance(k, Sel) else k for k in head]
    sels = [k for k in head if isinstance(k, (Sel, SubIdx))]
    if sels:
        if any(isinstance(k, SubIdx) for k in head):
            raise Unsupported('positions of a selection used as an index')
        w = sels[0].where
        for s in sels[1:]:
            if s.where is not w and not same_where(s.where, w):
                raise Unsupported('index selections differ')
        # all the components, in order, of a condition on this very shape
        if len(head) == len(sels) and [s.comp for s in sels] == list(range(len(w.axes))) and \
                all(axis_eq(x, y) for x, y in zip(w.axes, a.axes)):
            if tail:
                raise Unsupported('rows selected by a condition')
            return Sel(w, f, a.dtype)
        bidx = w.sample()
        guard = land(inrange(bidx, w.dims()), w.mask(bidx))
        digits = index_digits(a, head, lambda k: k.f(bidx) if isinstance(k, Sel) else k, guard)
        if tail:
            raise Unsupported('rows selected by a condition')

        def g(idx):
            return f(digits(lambda k: k.f(idx) if isinstance(k, Sel) else k))
        return Sel(w, g, a.dtype)
    arrs = [k for k in head if isinstance(k, Arr)]
    axes, maps = broadcast(arrs)
    dims = [d for ax in axes for d in ax]
    bidx = fresh_index(dims)
    mp = {}
    for k, m in zip(arrs, maps):
        mp[id(k)] = (k.fn(), m)

    def value(k, idx):
        if isinstance(k, Arr):
            kf, m = mp[id(k)]
            return kf(idx if m is None else m(idx))
        return k
    digits = index_digits(a, head, lambda k: value(k, bidx), inrange(bidx, dims))

    def g(idx):
        return f(tuple(digits(lambda k: value(k, idx[:len(dims)]))) + tuple(idx[len(dims):]))
    return Arr(Buf(dims + tdims, g, a.dtype), list(axes) + list(tail))


def index_digits(a, head, value, guard):
    """bounds obligations of an index by arrays, at a fresh position; returns the digit function"""
    c = K.CTX
    neg_flags = []
    with c.under(guard):
        for k, ax in zip(head, a.axes):
            v = value(k)
            if K.isreal(v):
                raise PyRaise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            n = prod(ax)
            b = K.badof(v)
            if b is not None:
                c.oblige('index is defined', Sym(z3.Not(b)), 'bounds')
            if isinstance(v, int) and not isinstance(n, Sym):
                if not -n <= v < n:
                    raise PyRaise('IndexError', 'index out of bounds')
                neg_flags.append(v < 0)
                continue
            nonneg = c.entails(K.lift(cmp('>=', strip(v), 0)))
            if nonneg:
                c.oblige('index %s within bounds' % short(v), cmp('<', strip(v), n), 'bounds')
            else:
                c.oblige('index %s within bounds' % short(v), land(cmp('<=', neg(n), strip(v)), cmp('<', strip(v), n)), 'bounds')
            neg_flags.append(not nonneg)

    def digits(val):
        out = []
        for k, ax, ng in zip(head, a.axes, neg_flags):
            v = strip(val(k))
            if ng:
                v = ite(cmp('<', v, 0), add(v, prod(ax)), v)
            if len(ax) == 1:
                out.append(v)
            else:
                out.extend(decode(v, ax))
        return tuple(out)
    return digits


def strip(v):
    return Sym(v.t) if isinstance(v, Sym) and v.bad is not None else v


def sel_getitem(a, key):
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, SubIdx):
        if key.parent is a.where or same_where(key.parent, a.where):
            return Sel(key.where, a.f, a.dtype, comp=a.comp)
        raise Unsupported('positions of another selection')
    if isinstance(key, Sel) and key.dtype == 'b':
        return sel_getitem(a, where_of(key)[0])
    if isinstance(key, int):
        w = a.where
        n, first, last = w.stats()
        if key in (0, -1):
            if not K.CTX.branch(n >= 1):
                raise PyRaise('IndexError', 'index %d is out of bounds for an empty selection' % key)
            return a.f(tuple(first if key == 0 else last))
    if isinstance(key, Sl) and full_slice(key):
        return a
    p = positional(a)
    return getitem(p, key)


def positional(a):
    """a selection as an array by position, when the selected positions are consecutive"""
    w = a.where
    dims = w.dims()
    if len(dims) != 1:
        raise Unsupported('positions of a selection')
    n, first, last = w.stats()
    c = K.CTX
    t = getattr(w, 'contig', None)
    if t is None:
        b = c.fresh('b', K.I)
        g = K.implies(land(n >= 1, cmp('<=', first[0], b), cmp('<=', b, last[0])), w.mask((b,)))
        if not c.proves(g):
            raise Unsupported('positions of a selection that is not consecutive')
        c.oblige('the selected positions are consecutive', g, 'lemma')
        c.fact(K.implies(n >= 1, n == last[0] - first[0] + 1), guarded=True)
        w.contig = True
    f = a.f
    f0 = first[0]
    return Arr(Buf([n], lambda idx: f((add(f0, idx[0]),)), a.dtype))


def setitem(a, key, val):
    if not isinstance(a, Arr):
        if isinstance(a, Sel):
            # a selection is a fresh array: turn it into one by changing its function in place
            return sel_setitem(a, key, val)
        raise Unsupported('assignment into %r' % (type(a),))
    if isinstance(key, Arr) and key.dtype == 'b':
        key = where_of(key)
    items = expand_items(a, key)
    if isinstance(val, (list, tuple)):
        val = to_operand(val)
    if any(gather_index(k) for k in items):
        return scatter(a, items, val)
    v, plan = basic_view(a, items)
    if not isinstance(v, Arr):
        tgt = [p[1] for p in plan]
        w = a

        def cond(idx):
            return land(*[cmp('==', x, y) for x, y in zip(idx, tgt)])
        if isinstance(val, Arr):
            if a.dtype == 'o':
                w.write(cond, lambda idx: val)
                return
            if val.ndim == 0:
                val = val.at()
            else:
                raise PyRaise('ValueError', 'setting an array element with a sequence')
        w.write(cond, lambda idx: val)
        return
    assign_all(v, val)


def assign_all(v, val):
    """v[...] = val"""
    if isinstance(val, Arr):
        axes, maps = broadcast([v, val])
        if len(axes) != v.ndim or not all(axis_eq(x, y) for x, y in zip(axes, v.axes)):
            raise PyRaise('ValueError', 'could not broadcast')
        g, m = val.fn(), maps[1]
        check_assign_shape(v, val)
        v.write(None, lambda idx: g(idx if m is None else m(idx)))
    elif isinstance(val, Sel):
        p = positional(val)
        assign_all(v, p)
    else:
        v.write(None, lambda idx: val)


def check_assign_shape(v, val):
    pass


def scatter(a, items, val):
    head = index_operands(a, items)
    tail = a.axes[len(head):]
    head = [Sel(k.where, k.f, k.dtype, k.comp, k.rest) if isinstance(k, Sel) else k for k in head]
    sels = [k for k in head if isinstance(k, Sel)]
    c = K.CTX
    if any(isinstance(k, SubIdx) for k in head):
        raise Unsupported('positions of a selection used as an index')
    if sels:
        w = sels[0].where
        for s in sels[1:]:
            if s.where is not w and not same_where(s.where, w):
                raise Unsupported('index selections differ')
        wd = w.dims()
        if isinstance(val, Sel):
            if val.where is not w and not same_where(val.where, w):
                raise Unsupported('value and index selections differ')
            vf = val.f
        elif isinstance(val, Arr):
            if val.ndim == 0:
                v0 = val.at()
                vf = lambda idx: v0
            else:
                raise Unsupported('array assigned to a selection')
        else:
            vf = lambda idx: val
        if tail:
            raise Unsupported('rows selected by a condition')
        if len(head) == len(sels) and [s.comp for s in sels] == list(range(len(w.axes))) and \
                all(axis_eq(x, y) for x, y in zip(w.axes, a.axes)):
            a.write(w.mask, vf)
            return
        bidx = w.sample()
        guard = land(inrange(bidx, wd), w.mask(bidx))
        digits = index_digits(a, head, lambda k: k.f(bidx) if isinstance(k, Sel) else k, guard)
        tgt = digits(lambda k: k.f(bidx) if isinstance(k, Sel) else k)
        back = invert(tgt, bidx)

        def cond(idx):
            cs, b = back(idx)
            return land(cs, inrange(b, wd), w.mask(b))
        a.write(cond, lambda idx: vf(back(idx)[1]))
        return
    arrs = [k for k in head if isinstance(k, Arr)]
    axes, maps = broadcast(arrs)
    dims = [d for ax in axes for d in ax]
    bidx = fresh_index(dims)
    mp = dict((id(k), (k.fn(), m)) for k, m in zip(arrs, maps))

    def value(k, idx):
        if isinstance(k, Arr):
            kf, m = mp[id(k)]
            return kf(idx if m is None else m(idx))
        return k
    if tail:
        raise Unsupported('rows selected by an index array')
    digits = index_digits(a, head, lambda k: value(k, bidx), inrange(bidx, dims))
    if dims and all(isinstance(d, int) for d in dims) and prod(dims) <= 64:
        # one write after the other
        import itertools as it
        for pt in it.product(*[range(d) for d in dims]):
            tg = digits(lambda k: value(k, pt))
            v1 = val.at(*pt) if isinstance(val, Arr) else val
            a.write(lambda idx, tg=tg: land(*[cmp('==', x, y) for x, y in zip(idx, tg)]), lambda idx, v1=v1: v1)
        return
    if isinstance(val, Arr):
        if len(val.axes) != len(axes) or not all(axis_eq(x, y) for x, y in zip(val.axes, axes)):
            raise_shape([val.size()], [prod(dims)])
        vf = val.fn()
    elif isinstance(val, Sel):
        raise Unsupported('selection assigned by an index array')
    else:
        vf = lambda idx: val
    tgt = digits(lambda k: value(k, bidx))
    back = invert(tgt, bidx)

    def cond(idx):
        cs, b = back(idx)
        return land(cs, inrange(b, dims))
    a.write(cond, lambda idx: vf(back(idx)[1]))


def invert(tgt, bidx):
    """inverts a map from fresh digits to target digits, each target being +-digit plus a term free of the digits"""
    ids = {}
    for k, b in enumerate(bidx):
        if isinstance(b, Sym):
            ids[b.t.get_id()] = k
    plan = [None] * len(bidx)
    eqs = []
    for j, t in enumerate(tgt):
        tt = resolve_ites(K.lift(t)) if isinstance(t, Sym) else None
        if tt is None:
            eqs.append((j, t))
            continue
        hit = None
        for k, b in enumerate(bidx):
            if not isinstance(b, Sym):
                continue
            rest = z3.simplify(tt - b.t, som=True)
            if not K.mentions(rest, set(ids)):
                hit = (k, K.mk(rest))
                break
        if hit is None:
            if K.mentions(tt, set(ids)):
                raise Unsupported('index map that can not be inverted')
            eqs.append((j, t))
        elif plan[hit[0]] is not None:
            raise Unsupported('index map that can not be inverted')
        else:
            plan[hit[0]] = (j, hit[1])
    for k, b in enumerate(bidx):
        if isinstance(b, Sym) and plan[k] is None:
            raise Unsupported('index map that is not one to one')

    def back(idx):
        b = []
        for k, p in enumerate(plan):
            b.append(0 if p is None else sub(idx[p[0]], p[1]))
        return land(*[cmp('==', idx[j], t) for j, t in eqs]), tuple(b)
    return back


def sel_setitem(a, key, val):
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    old = a.f
    if isinstance(key, Sel) and key.dtype == 'b':
        key = where_of(key)[0]
    if isinstance(key, SubIdx):
        if not (key.parent is a.where or same_where(key.parent, a.where)):
            raise Unsupported('positions of another selection')
        w = key.where
        if isinstance(val, Sel):
            if not (val.where is w or same_where(val.where, w)):
                raise Unsupported('value and index selections differ')
            vf = val.f
        elif isinstance(val, Arr):
            raise Unsupported('array assigned to a selection')
        else:
            vf = lambda idx: val
        a.f = Memo(lambda idx: ite(w.mask(idx), coerce(vf(idx), a.dtype), old(idx)))
    elif isinstance(key, Sl) and full_slice(key):
        vf = val.f if isinstance(val, Sel) else (lambda idx: val)
        if isinstance(val, Arr):
            raise Unsupported('array assigned to a selection')
        a.f = Memo(lambda idx: coerce(vf(idx), a.dtype))
    else:
        raise Unsupported('assignment into a selection')

    def undo():
        a.f = old
    K.mutate(undo)


# ------------------------------------------------------------------ reshaping
def flatten_view(a):
    return Arr(a.buf, [tuple(a.dims)] if a.dims else [(1,)], a.imap, a.inv) if a.dims else a


def copy(a):
    if isinstance(a, Sel):
        return Sel(a.where, a.f, a.dtype, rest=a.rest)
    f = a.fn()
    return Arr(Buf(a.dims, f, a.dtype), list(a.axes))


def reshape(a, shape):
    """row-major reshape, as a view on the digits"""
    old = [d for d in a.dims if not (isinstance(d, int) and d == 1)]
    oldpos = [i for i, d in enumerate(a.dims) if not (isinstance(d, int) and d == 1)]
    nd = len(a.dims)
    shape = list(shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        others = prod([s for i, s in enumerate(shape) if i != k])
        if isinstance(others, int) and others == 1:
            shape[k] = prod(a.dims)
        else:
            # try to read it off by dropping equal digits
            rest = list(a.dims)
            for s in shape[:k] + shape[k + 1:]:
                for i, d in enumerate(rest):
                    if peq(d, s):
                        del rest[i]
                        break
                else:
                    raise Unsupported('reshape with -1')
            shape[k] = prod(rest)
    axes = []
    # walk
    i = 0
    newd = []           # new digits
    src = []            # per old (non-unit) digit: function of the new digits
    k = 0
    while k < len(shape):
        s = shape[k]
        if isinstance(s, int) and s == 1:
            axes.append((1,))
            newd.append(1)
            k += 1
            continue
        if i >= len(old):
            c = K.CTX
            c.oblige('reshape keeps the size', cmp('==', prod(shape), a.size()), 'shape')
            raise Unsupported('reshape')
        if peq(s, old[i]):
            p = len(newd)
            src.append(lambda x, p=p: x[p])
            axes.append((old[i],))
            newd.append(old[i])
            i += 1
            k += 1
            continue
        # merge several old digits into one new axis
        m, j = old[i], i + 1
        grp = [old[i]]
        ok = False
        while j < len(old):
            m = mul(m, old[j])
            grp.append(old[j])
            j += 1
            if peq(m, s):
                ok = True
                break
        if ok:
            for d in grp:
                p = len(newd)
                src.append(lambda x, p=p: x[p])
                newd.append(d)
            axes.append(tuple(grp))
            i = j
            k += 1
            continue
        # split one old digit into several new axes
        m, j = s, k + 1
        grp = [s]
        while j < len(shape):
            m = mul(m, shape[j])
            grp.append(shape[j])
            j += 1
            if peq(m, old[i]):
                ok = True
                break
        if not ok:
            c = K.CTX
            c.oblige('reshape keeps the size', cmp('==', prod(shape), a.size()), 'shape')
            raise Unsupported('reshape %s to %s' % ([short(d) for d in a.dims], [short(s) for s in shape]))
        ps = []
        for d in grp:
            ps.append(len(newd))
            axes.append((d,))
            newd.append(d)
        src.append(lambda x, ps=ps, grp=grp: radix([x[p] for p in ps], grp))
        i += 1
        k = j
    if i < len(old):
        K.CTX.oblige('reshape keeps the size', cmp('==', prod(shape), a.size()), 'shape')
        raise Unsupported('reshape')

    def imap(x):
        out = [0] * nd
        for p, s in zip(oldpos, src):
            out[p] = s(x)
        return tuple(out)
    return a.view(axes, imap, None)


def transpose(a, order=None):
    n = a.ndim
    order = list(range(n))[::-1] if order is None else list(order)
    starts = []
    p = 0
    for ax in a.axes:
        starts.append(p)
        p += len(ax)
    axes = [a.axes[o] for o in order]
    pos = []       # old digit positions in the new order
    for o in order:
        pos.extend(range(starts[o], starts[o] + len(a.axes[o])))

    def imap(x):
        out = [0] * len(pos)
        for k, q in enumerate(pos):
            out[q] = x[k]
        return tuple(out)

    def inv(y):
        return True, tuple(y[q] for q in pos)
    return a.view(axes, imap, inv)
