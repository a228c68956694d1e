"""Contracts and their verification: what a task of the verifier is written with.

A task executes one function of /repo on arbitrary (symbolic) arguments that satisfy a precondition, and
obliges the postcondition on every path, the absence of exceptions, and the frame (arguments not written).
Functions the task names with use() are represented by their contract, which their own task establishes;
every other function of the package that is reached is executed (its code is part of the proof).
"""
import contextlib
import time
from fractions import Fraction
import z3
from . import core as K
from . import arr as A
from . import npf
from .core import Sym, land, lor, lnot, implies, ite, cmp, add, sub, mul, Unsupported, PyRaise
from .arr import Arr, Buf, Sel

TASKS = []          # (properties, name, function)
STUBS = {}          # qualified name -> contract as used at call sites


def task(*props, **kw):
    def deco(f):
        TASKS.append((props, kw.get('name') or f.__name__, f, kw))
        return f
    return deco


def stub(qual):
    """registers the contract of a function, as callers may use it"""
    def deco(f):
        STUBS[qual] = f
        return f
    return deco


def default_stubs():
    d = {'magpie.utils.progress.progress_bar': lambda env: None,
         'magpie.utils.progress_bar': lambda env: None}
    return d


class V(object):
    def __init__(self, prog, name):
        self.ctx = K.set_ctx(K.Ctx())
        self.prog = prog
        self.name = name
        self.ctx.stubs = dict(default_stubs())
        self.covers = 0
        self.functions = set()
        self.lemmas = []
        self.established = []
        self.notes = set()
        self.cut_of, self.cut_flag = {}, {}
        self.script = {}         # contracts and annotations this proof is about -> met by the execution
        self.terms = {}          # names of terms whose value in a counter-model is of interest
        self.cand = None
        self.paths = 0

    # --- inputs
    def int(self, name, lo=None, hi=None):
        t = Sym(z3.Int(name))
        self.terms[name] = t.t
        if lo is not None:
            self.assume(cmp('>=', t, lo))
        if hi is not None:
            self.assume(cmp('<=', t, hi))
        return t

    def real(self, name):
        t = Sym(z3.Real(name))
        self.terms[name] = t.t
        return t

    def array(self, name, *dims, **kw):
        dt = kw.get('dtype', 'f')
        so = {'f': K.R, 'i': K.I, 'b': K.B}[dt]
        F = z3.Function(name, *([K.I] * len(dims) + [so]))
        b = Buf(list(dims), lambda idx: Sym(F(*[K.lift(i) for i in idx])), dt)
        b.name = name
        if kw.get('ro', True):
            self.ctx.readonly[id(b)] = 'argument %s' % name
        a = Arr(b, kw.get('axes'))
        return a

    def assume(self, c):
        """precondition"""
        self.ctx.assume(c)

    def forall_fact(self, arity, fn, trig=None, pair=False):
        self.ctx.universal(arity, fn, 'pre', trig=trig, pair=pair)

    # --- contracts at call sites
    def use(self, *quals):
        for q in quals:
            f = STUBS[q]
            self.ctx.stubs[q] = (lambda f: lambda env: f(self, env))(f)

    def stub_with(self, qual, f, expected=False):
        """the contract of a function for this proof; expected: the proof is about code that calls it"""
        if expected:
            self.script[qual] = False

        def g(env):
            if expected:
                self.script[qual] = True
            return f(self, env)
        self.ctx.stubs[qual] = g

    def require(self, name, c):
        """precondition of a contract, at a call site"""
        self.ctx.oblige('precondition: ' + name, c, 'pre')

    # --- obligations
    def ensure(self, name, c, limit=None, stages=None):
        n = len(self.ctx.obls)
        self.ctx.oblige(name, c, 'post')
        for o in self.ctx.obls[n:]:
            o.limit = limit
            o.stages = stages
            o.cand = self.cand
            o.terms = dict(self.terms)

    def lemma(self, name, c, limit=None):
        n = len(self.ctx.obls)
        self.ensure('lemma: ' + name, c, limit)
        self.lemmas.append('%s: %s' % (self.name, name))
        self.rests(self.ctx.obls[n:], self.ctx.fact(c))
        self.established.append((K.tobool(c).get_id(), list(self.ctx.path), c))
        return c

    def rests(self, obls, *facts):
        """the facts hold because of these obligations, which are steps of the proof"""
        for o in obls:
            o.lemma = True
            o.gives.extend(f for f in facts if f is not None)

    def known(self, c):
        """is c a lemma established under (a part of) the present path"""
        t = K.tobool(c)
        if z3.is_true(t) or any(p.eq(t) for p in self.ctx.path):
            return True
        ids = set(p.get_id() for p in self.ctx.path)
        for i, path, _ in self.established:
            if i == t.get_id() and all(p.get_id() in ids for p in path):
                return True
        return False

    def derive(self, name, c, *using, **kw):
        """c follows from the given conditions and the axioms alone; it becomes a fact"""
        return self.algebra(name, c, *using, pure=False, **kw)

    def algebra(self, name, c, *using, **kw):
        """c follows from the given conditions by algebra over the reals alone; it becomes a fact"""
        for u in using:
            if not self.known(u):
                self.lemma(name + ' (premise %s)' % A.short(u), u)
        g = K.tobool(c)
        # terms that are opaque stand for arbitrary numbers
        ts = [K.lift(x) for x in kw.get('opaque', ())]
        rep = [(t, z3.Const(self.ctx.name('opq'), t.sort())) for t in ts if not z3.is_rational_value(t) and not z3.is_int_value(t)]
        op = (lambda t: z3.substitute(t, *rep)) if rep else (lambda t: t)
        ob = K.Obl(self.ctx.prefix + name, [op(K.tobool(u)) for u in using], op(g), 'post')
        ob.pure = kw.get('pure', True)
        ob.nf = ob.nu = 0
        ob.limit = kw.get('limit')
        ob.terms = {}
        self.ctx.obls.append(ob)
        self.rests([ob], self.ctx.fact(c))
        self.established.append((g.get_id(), list(self.ctx.path), c))
        return c

    def ring(self, name, c, *using, **kw):
        """the equation c follows from the given equations (used to rewrite, in this order) as a polynomial identity; it becomes a fact.
        plus: (factor, equation) pairs, multiples of further equations that are subtracted first"""
        plus = list(kw.get('plus', ()))
        for u in list(using) + [e for _, e in plus]:
            if not self.known(u):
                self.lemma(name + ' (premise %s)' % A.short(u), u)
        g = K.tobool(c)
        hy = [K.tobool(u) for u in using]
        hy = [h for h in hy if z3.is_eq(h) and h.arg(0).sort() == K.R]
        ob = K.Obl(self.ctx.prefix + name, hy, g, 'post')
        ob.pure = True
        ob.ring = [(K.lift(K.toreal_s(f)), K.tobool(e)) for f, e in plus if (isinstance(f, Sym) or f != 0) and z3.is_eq(K.tobool(e))]
        ob.nf = ob.nu = 0
        ob.terms = {}
        self.ctx.obls.append(ob)
        self.rests([ob], self.ctx.fact(c))
        self.established.append((g.get_id(), list(self.ctx.path), c))
        return c

    def known_fact(self, c):
        """a consequence of the present path or of the assumptions by propositional reasoning, recorded as known"""
        t = K.tobool(c)
        if any(p.eq(t) for p in self.ctx.path) or any(z3.is_and(p) and any(x.eq(t) for x in p.children()) for p in self.ctx.path):
            self.established.append((t.get_id(), list(self.ctx.path), c))
        else:
            self.lemma('known', c)
        return c

    def instance(self, k, *ix):
        """an instance of an assumption about all indices (its number among them)"""
        ar, fn, _ = self.ctx.universals[k]
        q = fn(list(ix))
        self.ctx.fact(q)
        self.established.append((K.tobool(q).get_id(), list(self.ctx.path), q))
        return q

    def fact(self, c):
        self.ctx.fact(c)

    def dead(self):
        """the present path is contradictory"""
        from . import solve
        return solve.quick_unsat(self.ctx, list(self.ctx.path))

    def resolve(self, v):
        """v with the conditionals that the present path decides replaced by their branch"""
        from . import solve
        c, memo = self.ctx, {}

        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i][1]
            r = t
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                g = go(t.arg(0))
                if z3.is_true(g) or solve.quick_unsat(c, c.path + [z3.Not(g)]):
                    r = go(t.arg(1))
                elif z3.is_false(g) or solve.quick_unsat(c, c.path + [g]):
                    r = go(t.arg(2))
                else:
                    r = z3.If(g, go(t.arg(1)), go(t.arg(2)))
            elif z3.is_app(t) and t.num_args():
                ch = [go(x) for x in t.children()]
                if any(not x.eq(y) for x, y in zip(ch, t.children())):
                    r = z3.substitute(t, *[(y, z) for y, z in zip(t.children(), ch) if not y.eq(z)])
                    if not has_lambda(r):
                        r = z3.simplify(r)
            memo[i] = (t, r)
            return r
        if not isinstance(v, Sym):
            return v
        return K.mk(go(v.t), None if v.bad is None else go(v.bad))

    def rewrite(self, v, old, new, name='rewriting'):
        """v with new for old, after the lemma that they are equal (equals may be substituted)"""
        n = len(self.ctx.obls)
        self.lemma(name, cmp('==', old, new))
        r = K.mk(z3.substitute(v.t, (K.lift(old), K.lift(new))))
        self.rests(self.ctx.obls[n:], self.ctx.fact(cmp('==', v, r)))
        return r

    def lemma_fn(self, name, sorts, pre, post, proof=None):
        """a ghost lemma: for all arguments of the sorts ('i' or 'r'), pre implies post.  It is proved once, on
        fresh arguments (by the steps of proof); the result applies it: apply(args) obliges pre and gives post."""
        c = self.ctx
        path, prefix = c.path, c.prefix
        c.path, c.prefix = [], 'lemma %s: ' % name
        try:
            xs = [Sym(z3.Const(c.name('lem'), K.I if so == 'i' else K.R)) for so in sorts]
            with c.under(pre(*xs)):
                if proof is not None:
                    proof(*xs)
                n = len(c.obls)
                self.ensure('holds', post(*xs))
                holds = c.obls[n:]
        finally:
            c.path, c.prefix = path, prefix
        self.lemmas.append('%s: %s' % (self.name, name))

        def apply(*args, **kw):
            w = kw.get('what')
            n = len(c.obls)
            if not self.known(pre(*args)):
                self.lemma('%s applies%s' % (name, ' (%s)' % w if w else ''), pre(*args))
            q = post(*args)
            self.rests(holds + c.obls[n:], self.ctx.fact(q))
            self.established.append((K.tobool(q).get_id(), list(self.ctx.path), q))
            return q
        return apply

    def cut(self, qual, name, spec=None, prove=None, limit=None, where=None):
        """a ghost annotation: after each assignment to the variable (.name: attribute, name=: in place) of the function its
        value is the specification's (a lemma), and it is known by that from there on.  Without spec it is only given a name."""
        c = self.ctx

        def cb(v, env):
            if c.bound or (where is not None and not where(v, env)):
                return None
            if isinstance(v, Arr):
                if v.imap is not None or not all(isinstance(d, (int, Sym)) for d in v.dims):
                    return None
                so = {'f': K.R, 'i': K.I, 'b': K.B}.get(v.dtype)
                if so is None:
                    return None
                F = c.fresh_fun('cut_' + name.strip('.='), *([K.I] * len(v.dims) + [so]))
                fname = F(*[z3.IntVal(0)] * len(v.dims)).decl().name()
                at = lambda ix: F(*[K.lift(i) for i in ix])
                flag = Sym(z3.Const(c.name('holds'), K.B))
                n = len(c.obls)
                dims = list(v.dims)
                with self.forall(*dims) as ix:
                    got = v.at(*ix)
                    g = Sym(at(ix))
                    c.fact(cmp('==', g, strip(got)))
                    b = K.badof(got)
                    if b is not None:
                        self.lemma('%s is defined' % name, Sym(z3.Not(b)), limit)
                    if spec is not None:
                        want = spec(*(list(ix) + [env]))
                        if prove is not None:
                            prove(ix, g, want, strip(got), env)
                        wb = K.badof(want)
                        q = cmp('==', g, strip(want))
                        self.lemma('%s is what it should be' % name, q if wb is None else land(q, Sym(z3.Not(wb))), limit)
                obls = [o for o in c.obls[n:] if o.lemma]
                with npf.unguarded():
                    f = c.fact(flag)
                self.rests(obls, f)
                for o in obls:
                    o.cut = True
                self.established.append((flag.t.get_id(), [], flag))
                if spec is not None:
                    self.cut_of[fname] = lambda ix: implies(land(flag, A.inrange(ix, dims)), cmp('==', Sym(at(ix)), strip(spec(*(list(ix) + [env])))))
                    self.cut_flag[fname] = flag
                    with npf.unguarded():
                        c.universal(len(dims), lambda ix: implies(land(flag, A.inrange(ix, dims)), cmp('==', Sym(at(ix)), strip(spec(*(list(ix) + [env]))))), 'cut', trig=[fname])
                bad = z3.Not(flag.t)
                buf = v.buf
                old = buf.fn
                buf.fn = A.Memo(lambda idx: Sym(at(idx), bad))

                def undo():
                    buf.fn = old
                K.mutate(undo)
                return None
            if isinstance(v, Sym) and K.is_scalar(v):
                so = v.t.sort()
                x = Sym(z3.Const(c.name('cut_' + name.strip('.=')), so))
                c.fact(cmp('==', x, strip(v)))
                b = K.badof(v)
                flag = Sym(z3.Const(c.name('holds'), K.B))
                n = len(c.obls)
                if b is not None:
                    self.lemma('%s is defined' % name, Sym(z3.Not(b)), limit)
                if spec is not None:
                    want = spec(env)
                    if prove is not None:
                        prove((), x, want, strip(v), env)
                    q = cmp('==', x, strip(want))
                    self.lemma('%s is what it should be' % name, q, limit)
                    self.rests(c.obls[n:], c.fact(q))
                f = c.fact(flag)
                self.rests([o for o in c.obls[n:] if o.lemma], f)
                for o in c.obls[n:]:
                    o.cut = True
                return Sym(x.t, z3.Not(flag.t))
            return None
        self.annotate(qual, name, cb)

    def annotate(self, qual, name, cb):
        self.script[(qual, name)] = False

        def g(v, env):
            self.script[(qual, name)] = True
            return cb(v, env)
        self.prog.cuts[(qual, name)] = g

    def entries(self, qual, name, before=None, after=None):
        """a ghost annotation: the elements of a small array get names when the variable of the function is assigned.
        before(v, env) and after(names, env): steps of the proof at that point"""
        c = self.ctx
        import itertools

        def cb(v, env):
            if c.bound or not isinstance(v, Arr) or v.imap is not None or not all(isinstance(d, int) for d in v.dims) or A.prod(v.dims) > 64:
                return None
            if v.dtype not in ('f',):
                return None
            if before is not None:
                before(v, env)
            flag, n = Sym(z3.Const(c.name('holds'), K.B)), len(c.obls)
            el = {}
            for ix in itertools.product(*[range(d) for d in v.dims]):
                got = v.at(*ix)
                x = Sym(z3.Const(c.name('cut_%s%s' % (name.strip('.='), ''.join(map(str, ix)))), K.R))
                q = cmp('==', x, strip(got))
                c.fact(q)
                self.established.append((K.tobool(q).get_id(), list(c.path), q))
                b = K.badof(got)
                if b is not None:
                    self.lemma('%s is defined' % name, Sym(z3.Not(b)))
                    el[ix] = Sym(x.t, z3.Not(flag.t))
                else:
                    el[ix] = x
            obls = [o for o in c.obls[n:] if o.lemma]
            f = c.fact(flag)
            self.rests(obls, f)
            for o in obls:
                o.cut = True
            dims = list(v.dims)

            def at(idx):
                if all(isinstance(i, int) for i in idx):
                    return el[tuple(idx)]
                r = None
                for ix in reversed(list(itertools.product(*[range(d) for d in dims]))):
                    r = el[ix] if r is None else K.ite(land(*[cmp('==', i, j) for i, j in zip(idx, ix)]), el[ix], r)
                return r
            buf = v.buf
            old = buf.fn
            buf.fn = A.Memo(at)

            def undo():
                buf.fn = old
            K.mutate(undo)
            if after is not None:
                after(lambda *ix: strip(el[ix]), env)
            return None
        self.annotate(qual, name, cb)

    def annotated(self, v):
        """what the annotations say about the values of variables that occur in v (known conditions)"""
        out, seen, st = [], set(), [K.lift(v)]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                st.extend(x.children())
                f = self.cut_of.get(x.decl().name())
                if f is not None and x.num_args():
                    q = f([Sym(a) for a in x.children()])
                    self.ctx.fact(q, guarded=False)
                    self.established.append((K.tobool(q).get_id(), [], q))
                    out += [q, self.cut_flag[x.decl().name()]]
        return out

    @contextlib.contextmanager
    def when(self, c):
        with self.ctx.under(c):
            yield

    @contextlib.contextmanager
    def forall(self, *dims):
        """an arbitrary index into the given dimensions"""
        ix = A.fresh_index(list(dims), 'i')
        with self.ctx.under(A.inrange(ix, list(dims))):
            for n, i in enumerate(ix):
                if isinstance(i, Sym):
                    self.ctx.index_term(i)
            yield ix

    def defined(self, name, v):
        b = K.badof(v)
        self.ensure(name, True if b is None else Sym(z3.Not(b)))

    def same(self, name, got, want, limit=None):
        """the scalar got is defined and equal to want"""
        if not K.is_scalar(got):
            if isinstance(got, Arr) and got.ndim == 0:
                got = got.at()
            else:
                self.ensure(name + ' (a scalar)', False)
                return
        gb, wb = K.badof(got), K.badof(want)
        c = cmp('==', strip(got), strip(want))
        if gb is not None:
            c = land(c, Sym(z3.Not(gb)))
        if wb is not None:
            c = lor(c, Sym(z3.And(wb, gb)) if gb is not None else False)
        self.ensure(name, c, limit)

    def shape(self, name, got, dims, dtype=None):
        """got is an array of the given shape; False when it is not even of that rank"""
        if not isinstance(got, Arr):
            if isinstance(got, Sel) and len(dims) == 1:
                return False
            self.ensure(name + ': is an array', False)
            return False
        if got.ndim != len(dims):
            self.ensure(name + ': has %d axes' % len(dims), False)
            return False
        for k, (g, w) in enumerate(zip(got.shape(), dims)):
            self.ensure('%s: length of axis %d' % (name, k), cmp('==', g, w))
        if dtype is not None:
            self.ensure('%s: element type' % name, got.dtype == dtype)
        return True

    def equal(self, name, got, want, limit=None):
        """structural equality of a result with its specification"""
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                if isinstance(got, Arr) and got.ndim >= 1 and isinstance(got.shape()[0], int) and got.shape()[0] == len(want):
                    got = [A.getitem(got, k) for k in range(len(want))]
                else:
                    self.ensure(name + ': %d values' % len(want), False)
                    return
            for k, (g, w) in enumerate(zip(got, want)):
                self.equal('%s[%d]' % (name, k), g, w, limit)
            return
        if isinstance(want, Arr):
            if not self.shape(name, got, want.shape()):
                return
            with self.forall(*want.dims) as ix:
                gi = ix if len(got.dims) == len(want.dims) else None
                if gi is None:
                    raise Unsupported('comparison of arrays with different digits')
                self.same(name + '[i]', got.at(*ix), want.at(*ix), limit)
            return
        if isinstance(want, Sel) or isinstance(got, Sel):
            if not (isinstance(want, Sel) and isinstance(got, Sel)):
                raise Unsupported('comparison of a selection')
            with self.forall(*want.where.dims()) as ix:
                self.ensure(name + ': selected', cmp('==', want.where.mask(ix), got.where.mask(ix)))
                with self.when(want.where.mask(ix)):
                    self.same(name + '[i]', got.f(ix), want.f(ix), limit)
            return
        if want is None:
            self.ensure(name + ' is None', got is None)
            return
        self.same(name, got, want, limit)

    # --- running
    def run(self, f, args, kw=None, post=None, raises=None, name=None):
        """executes f (a dotted name or a function of no arguments) on all paths.
        post(result) adds obligations; raises(exception) says when an exception is right (a condition)."""
        c = self.ctx
        if isinstance(f, str):
            qual = f
            fn = self.prog.lookup(qual)
            self.functions.add(qual)
            # the function under verification is executed itself
            st = c.stubs.pop(qual, None)
            from .interp import Bound
            thunk = lambda: self.prog.call(fn, args, kw)
        else:
            qual, st = name or 'the call', None
            thunk = f
        pre = c.prefix
        c.prefix = pre + (name or qual.replace('magpie.', '')) + ': '

        def after(o):
            self.paths += 1
            c.prefix2 = None
            if o.kind == 'raise':
                if raises is not None:
                    self.ensure('raises %s only when it may' % o.value.kind, raises(o.value))
                else:
                    self.ensure('no exception (%s %s)' % (o.value.kind, o.value.msg), False)
                return None
            ob = K.Obl(c.prefix + 'reached', list(c.path), z3.BoolVal(False), 'cover')
            c.obls.append(ob)
            if post is not None:
                return post(o.value)
            return None
        try:
            return K.explore(thunk, after)
        finally:
            c.prefix = pre
            if st is not None:
                c.stubs[qual] = st

    def call(self, f, args=(), kw=None):
        """runs a function as part of a larger execution (inside run with a function)"""
        fn = self.prog.lookup(f) if isinstance(f, str) else f
        return self.prog.call(fn, list(args), kw)


def has_lambda(t, seen=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def strip(v):
    return Sym(v.t) if isinstance(v, Sym) and v.bad is not None else v


def ew(f, *args, **kw):
    """pointwise application in a specification"""
    return A.elementwise(f, kw.get('dtype', 'f'), *args)


PI = K.PI


def sum_of_ones(V, n, body):
    """an instance of an axiom of finite sums: n terms that are all 1 add up to n"""
    c = K.CTX
    w = c.fresh('kap', K.I)
    s = npf.sum_range(n, body)
    c.fact(implies(implies(land(cmp('<=', 0, w), cmp('<', w, n)), cmp('==', body(w), 1)), cmp('==', s, K.toreal_s(n))), guarded=False)


def sums_equal(V, name, a, b, shift=0, prove=None):
    """two finite sums are equal because their terms are (an instance of the congruence axiom, at a fresh index)"""
    from . import solve
    c = K.CTX
    for x in (a, b):
        if not z3.is_app(x) or x.decl().name() != 'SUM':
            return None
    k = c.fresh('kap', K.I)
    d = K.lift(shift)

    def val(s, i):
        lo, hi, f = s.children()
        return z3.If(z3.And(lo <= i, i < hi), solve.lam_at(f, i), z3.RealVal(0))
    same = Sym(val(a, k.t) == val(b, z3.simplify(k.t + d)))
    eq = Sym(a == b)
    c.fact(implies(same, eq), guarded=False)
    c.index_term(k)
    if prove is not None:
        prove(k, same)
    if not V.known(same):
        V.lemma('%s: the terms agree' % name, same)
    return V.derive(name, eq, same, implies(same, eq))


def raw_sum(V, lo, hi, body):
    """the sum of body over lo <= k < hi as one term (equal to its normal form by the axioms of finite sums)"""
    from . import solve
    c = K.CTX
    k = z3.Const(c.name('kappa'), K.I)
    with npf.binding(k), c.under(land(cmp('<=', lo, Sym(k)), cmp('<', Sym(k), hi))):
        b = K.toreal(K.lift(strip(body(Sym(k)))))
    r = solve.SUM(K.lift(lo), K.lift(hi), z3.Lambda([k], b))
    c.fact(Sym(r == npf.sum_term(K.lift(lo), K.lift(hi), b, k)))
    return r


def sum_zero(V, name, s, prove=None):
    """a sum whose terms are zero is zero (an instance of an axiom of finite sums)"""
    from . import solve
    c = K.CTX
    k = c.fresh('kap', K.I)
    lo, hi, f = s.children()
    zero = Sym(z3.Implies(z3.And(lo <= k.t, k.t < hi), solve.lam_at(f, k.t) == 0))
    eq = Sym(s == 0)
    c.fact(implies(zero, eq), guarded=False)
    c.index_term(k)
    if prove is not None:
        prove(k, zero)
    V.lemma('%s: the terms are zero' % name, zero)
    return V.derive(name, eq, zero, implies(zero, eq))


def sum_positive(V, n, body, i):
    """an instance of an axiom of finite sums: no term is negative and term i is positive"""
    c = K.CTX
    w = c.fresh('kap', K.I)
    s = npf.sum_range(n, body)
    ok = lnot(land(cmp('<=', 0, w), cmp('<', w, n), cmp('<', body(w), 0)))
    c.fact(implies(land(cmp('<=', 0, i), cmp('<', i, n), cmp('>', body(i), 0), ok), cmp('>', s, 0)), guarded=False)
    c.index_term(w)
    return ok, cmp('>', s, 0)


def sum_of_positives(V, n, body, prove, name='the sum'):
    """n > 0 terms that are all positive have a positive sum; prove(k) prepares the lemma that term k is positive"""
    c = K.CTX
    w = c.fresh('kap', K.I)
    c.index_term(w)
    s = npf.sum_range(n, body)
    inside = lambda k: land(cmp('<=', 0, k), cmp('<', k, n))
    with V.when(inside(w)):
        prove(w)
        V.lemma('the terms are positive', cmp('>', body(w), 0))
    ok = lnot(land(inside(w), cmp('<', body(w), 0)))
    inst = implies(land(cmp('<=', 0, 0), cmp('<', 0, n), cmp('>', body(0), 0), ok), cmp('>', s, 0))
    c.fact(inst, guarded=False)
    V.established.append((K.tobool(inst).get_id(), [], inst))
    t = implies(inside(w), cmp('>', body(w), 0))
    p = V.derive('no term is negative', ok, t, opaque=[body(w)])
    prove(0)
    q = V.lemma('the first term is positive', cmp('>', body(0), 0))
    m = V.known_fact(cmp('>=', n, 1)) if isinstance(n, Sym) else True
    return V.derive(name + ' is positive', cmp('>', s, 0), *([inst, p, q] + ([m] if m is not True else [])), opaque=[s, body(0), body(w)])


def sum_nonneg(V, n, body):
    """an instance of an axiom of finite sums: no term is negative"""
    c = K.CTX
    w = c.fresh('kap', K.I)
    s = npf.sum_range(n, body)
    ok = lnot(land(cmp('<=', 0, w), cmp('<', w, n), cmp('<', body(w), 0)))
    c.fact(implies(ok, cmp('>=', s, 0)), guarded=False)
    c.index_term(w)
    return ok, cmp('>=', s, 0)


def anchored(V, ts, anchors):
    """the integer constants of the terms that are equal to one of the anchors here, as lemmas"""
    c = K.CTX
    memo = V.__dict__.setdefault('anchor_memo', {})
    out, seen = [], set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            st.extend(x.children())
            if x.num_args() == 0 and x.sort() == K.I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name() and \
                    not x.decl().name().startswith('kap'):
                i = x.get_id()
                if i not in memo:
                    memo[i] = (x, None)
                    for an in anchors:
                        if K.lift(an).eq(x):
                            break
                        q = Sym(x == K.lift(an))
                        if c.proves(q):
                            memo[i] = (x, V.lemma('position', q))
                            break
                if memo[i][1] is not None:
                    q = memo[i][1]
                    if not V.known(q):
                        V.lemma('position', q)
                    out.append(q)
    return out


def normalize(V, t, names, indices, eqs=None, using=()):
    """t with the index of every application of the named functions replaced by the one of the given indices
    that it is equal to here, by the integer conditions given"""
    c = K.CTX
    memo = {}
    idx = [K.lift(i) for i in indices]
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(*[K.tobool(u) for u in using])

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in names:
            a = z3.simplify(x.arg(0))
            for j in idx:
                ok = z3.simplify(a - j).eq(z3.IntVal(0))
                if not ok and using:
                    s.push()
                    s.add(a != j)
                    ok = s.check() == z3.unsat
                    s.pop()
                if ok or not using and c.proves(Sym(a == j)):
                    r = x.decl()(j)
                    if eqs is not None and not r.eq(x):
                        eqs.append(Sym(x.arg(0) == j))
                    break
        elif z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if any(not y.eq(z) for y, z in zip(ch, x.children())):
                r = z3.substitute(x, *[(y, z) for y, z in zip(x.children(), ch) if not y.eq(z)])
        memo[i] = (x, r)
        return r
    return go(t)


def cases(V, t, using):
    """t with the conditionals decided by the given conditions replaced by their branch"""
    memo = {}
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(*[K.tobool(u) for u in using])

    def holds(g):
        s.push()
        s.add(z3.Not(g))
        r = s.check() == z3.unsat
        s.pop()
        return r

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            g = go(x.arg(0))
            if holds(g):
                r = go(x.arg(1))
            elif holds(z3.Not(g)):
                r = go(x.arg(2))
            else:
                r = z3.If(g, go(x.arg(1)), go(x.arg(2)))
        elif z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if any(not y.eq(z) for y, z in zip(ch, x.children())):
                r = z3.substitute(x, *[(y, z) for y, z in zip(x.children(), ch) if not y.eq(z)])
        memo[i] = (x, r)
        return r
    return go(t)
