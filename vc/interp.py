"""Symbolic execution of the real Python source.

Parses /repo/magpie/**/*.py on every run and executes the functions on symbolic arguments.  What is
dropped: printing and progress bars (utils.progress_bar and print are no-ops), doc strings, type
annotations.  What is not understood raises Unsupported, which makes the function a labelled bounded
stand-in, never a proof.
"""
import ast
import os
from fractions import Fraction
import z3
from . import core as K
from . import arr as A
from .core import Sym, Unsupported, PyRaise
from .arr import Arr, Sel, Sl


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Env(dict):
    """local variables, with undo"""
    def put(self, k, v):
        had = k in self
        old = self.get(k)
        self[k] = v

        def undo():
            if had:
                self[k] = old
            else:
                self.pop(k, None)
        K.mutate(undo)


class Module(object):
    def __init__(self, prog, name, tree, path, pkg):
        self.prog = prog
        self.name = name
        self.tree = tree
        self.path = path
        self.pkg = pkg               # is it a package (__init__)
        self.vars = {}
        self.pending = {}
        self.assigned = {}
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                self.vars[st.name] = Func(self, st, name + '.' + st.name)
            elif isinstance(st, ast.ClassDef):
                self.vars[st.name] = Klass(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.pending[a.asname] = ('mod', a.name)
                    else:
                        self.pending[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = prog.resolve(self, st)
                for a in st.names:
                    self.pending[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.assigned[st.targets[0].id] = st.value
            elif isinstance(st, (ast.Try, ast.If)):
                pass

    def __repr__(self):
        return '<module %s>' % self.name

    def get(self, name):
        if name in self.vars:
            return self.vars[name]
        if name in self.pending:
            p = self.pending[name]
            if p[0] == 'mod':
                v = self.prog.module(p[1])
            elif p[1] == self.name and self.pkg:
                v = self.prog.find(p[1] + '.' + p[2])     # from . import submodule
                if v is None:
                    raise KeyError(name)
            else:
                v = self.prog.attr(p[1], p[2])
            self.vars[name] = v
            return v
        if name in self.assigned:
            v = self.prog.eval(self.assigned[name], Env(), self)
            self.vars[name] = v
            return v
        sub = self.prog.find(self.name + '.' + name)
        if sub is not None:
            return sub
        raise KeyError(name)


class Func(object):
    def __init__(self, module, node, qual, env=None):
        self.module = module
        self.node = node
        self.qual = qual
        self.env = env

    def __repr__(self):
        return '<function %s>' % self.qual


class Klass(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.qual = module.name + '.' + node.name
        self.methods = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = Func(module, st, self.qual + '.' + st.name)


class Obj(object):
    def __init__(self, klass):
        self.klass = klass
        self.attrs = Env()


class Bound(object):
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class Range(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def concrete(self):
        if all(isinstance(x, int) for x in (self.start, self.stop, self.step)):
            return range(self.start, self.stop, self.step)
        return None

    def length(self):
        if self.step == 1:
            n = K.sub(self.stop, self.start)
            if isinstance(n, int):
                return max(n, 0)
            if K.CTX.entails(K.lift(n) >= 0):
                return n
            return K.maxv(n, 0)
        raise Unsupported('range with a step and symbolic bounds')


class SymList(object):
    """[body(k) for k in range(n)] with symbolic n: the value at any index"""
    def __init__(self, n, at):
        self.n = n
        self.at = at


class Ragged(object):
    """concatenation of rows: row i (0 <= i < n) has length ln(i) and elements el(i, j)"""
    def __init__(self, n, ln, el, dtype):
        self.n, self.ln, self.el, self.dtype = n, ln, el, dtype


class Quant(object):
    """a generator over a symbolic range, for all() and any()"""
    def __init__(self, n, at):
        self.n = n
        self.at = at


class Printed(object):
    pass


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


PURE = (ast.Compare, ast.Name, ast.Load, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.UnaryOp, ast.USub, ast.Not, ast.BoolOp, ast.And, ast.Or,
        ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)


class Program(object):
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.depth = 0
        self.nopf = set()
        self.cuts = {}           # (function, variable): ghost annotations after its assignments
        self.quals = []
        self.watch = None        # C13: the frame conditions (frames.py)
        self.merge_bool = False  # and/or of plain comparisons as one condition
        self.ghost = {}          # function: its local variables at the last return
        from . import npf
        self.npf = npf
        npf.PROG = self

    # --- modules
    def find(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        for path, pkg in ((os.path.join(p, '__init__.py'), True), (p + '.py', False)):
            if os.path.exists(path):
                with open(path) as f:
                    tree = ast.parse(f.read(), path)
                m = Module(self, name, tree, path, pkg)
                self.mods[name] = m
                return m
        return None

    def module(self, name):
        m = self.find(name)
        if m is not None:
            return m
        return self.npf.external(name)

    def resolve(self, mod, st):
        if st.level == 0:
            return st.module
        parts = mod.name.split('.')
        if not mod.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts += st.module.split('.')
        return '.'.join(parts)

    def attr(self, modname, name):
        m = self.module(modname)
        if isinstance(m, Module):
            try:
                return m.get(name)
            except KeyError:
                raise Unsupported('%s.%s is not defined' % (modname, name))
        return self.getattr(m, name)

    def lookup(self, qual):
        """function or method by its dotted name"""
        parts = qual.split('.')
        for n in range(len(parts), 0, -1):
            m = self.find('.'.join(parts[:n]))
            if m is not None:
                v = m
                for p in parts[n:]:
                    if isinstance(v, Module):
                        try:
                            v = v.get(p)
                        except KeyError:
                            raise Unsupported('%s is not defined' % qual)
                    elif isinstance(v, Klass):
                        if p not in v.methods:
                            raise Unsupported('%s is not defined' % qual)
                        v = v.methods[p]
                return v
        raise Unsupported('%s is not defined' % qual)

    # --- calling
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Klass):
            o = Obj(f)
            if '__init__' in f.methods:
                self.call_func(f.methods['__init__'], [o] + list(args), kw)
            return o
        if callable(f):
            return f(*args, **kw)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported('variable arguments in %s' % f.qual)
        names = [x.arg for x in a.posonlyargs + a.args]
        env = Env()
        if len(args) > len(names):
            raise PyRaise('TypeError', 'too many arguments')
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k not in names or k in env:
                raise PyRaise('TypeError', 'unexpected argument %s' % k)
            env[k] = v
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.default(f, n, d)
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument %s' % n)
        return env

    def default(self, f, n, d):
        # one object per function, as in Python: mutation of a default would be seen
        cache = f.__dict__.setdefault('defaults', {})
        if n not in cache:
            cache[n] = self.eval(d, Env(), f.module)
        return cache[n]

    def call_func(self, f, args, kw):
        c = K.CTX
        env = self.bind(f, args, kw)
        st = c.stubs.get(f.qual)
        if st is not None:
            r = st(env)
            if r is not NotImplemented:
                c.used_stubs.add(f.qual)
                return r
        c.inlined.add(f.qual)
        if self.watch is not None:
            return self.watch.call(f, env, lambda: self.run_body(f, env))
        return self.run_body(f, env)

    def run_body(self, f, env):
        if f.env is not None:
            e = Env(f.env)
            e.update(env)
            env = e
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('recursion')
        self.quals.append(f.qual)
        try:
            self.block(f.node.body, env, f.module)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.quals.pop()
            self.ghost[f.qual] = env
        return None

    def cut(self, name, v, env):
        """the value v of the variable after an assignment, as the annotations of the proof know it"""
        if self.cuts and self.quals:
            cb = self.cuts.get((self.quals[-1], name))
            if cb is not None:
                w = cb(v, env)
                return v if w is None else w
        return v

    # --- statements
    def block(self, body, env, mod):
        for st in body:
            self.stmt(st, env, mod)

    def truth(self, v):
        c = K.CTX
        if isinstance(v, (bool, int, Fraction)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, Sym):
            return c.branch(v)
        if isinstance(v, (str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, Arr):
            if v.ndim == 0 or all(isinstance(d, int) and d == 1 for d in v.dims):
                return c.branch(K.mk(K.tobool(v.at(*([0] * len(v.dims))))))
            n = v.size()
            if isinstance(n, int) and n > 1:
                raise PyRaise('ValueError', 'truth value of an array')
            raise Unsupported('truth value of an array')
        if isinstance(v, (Obj, Func, Klass, Module, Bound)):
            return True
        if callable(v):
            return True
        raise Unsupported('truth value of %r' % (type(v),))

    def stmt(self, s, env, mod):
        t = type(s)
        K.CTX.where = (mod.name, s.lineno)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, env, mod)
        elif t is ast.Assign:
            v = self.eval(s.value, env, mod)
            for tg in s.targets:
                self.assign(tg, v, env, mod)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env, mod), env, mod)
        elif t is ast.AugAssign:
            self.aug(s, env, mod)
        elif t is ast.Return:
            raise Ret(None if s.value is None else self.eval(s.value, env, mod))
        elif t is ast.If:
            if self.truth(self.eval(s.test, env, mod)):
                self.block(s.body, env, mod)
            else:
                self.block(s.orelse, env, mod)
        elif t is ast.For:
            self.for_(s, env, mod)
        elif t is ast.While:
            n = 0
            while self.truth(self.eval(s.test, env, mod)):
                n += 1
                if n > 200:
                    raise Unsupported('while loop')
                try:
                    self.block(s.body, env, mod)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env, mod)
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, env, mod)):
                raise PyRaise('AssertionError', '' if s.msg is None or not isinstance(s.msg, ast.Constant) else s.msg.value)
        elif t is ast.Raise:
            kind = 'Exception'
            if isinstance(s.exc, ast.Call) and isinstance(s.exc.func, ast.Name):
                kind = s.exc.func.id
            elif isinstance(s.exc, ast.Name):
                kind = s.exc.id
            raise PyRaise(kind)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Import:
            for a in s.names:
                env.put(a.asname or a.name.split('.')[0], self.module(a.name if a.asname else a.name.split('.')[0]))
        elif t is ast.ImportFrom:
            base = self.resolve(mod, s)
            for a in s.names:
                env.put(a.asname or a.name, self.attr(base, a.name))
        elif t is ast.FunctionDef:
            env.put(s.name, Func(mod, s, mod.name + '.<local>.' + s.name, env))
        elif t is ast.Delete:
            for tg in s.targets:
                if not isinstance(tg, ast.Name):
                    raise Unsupported('del')
        else:
            raise Unsupported('statement %s (%s:%d)' % (t.__name__, mod.name, s.lineno))

    def assign(self, tg, v, env, mod):
        t = type(tg)
        if t is ast.Name:
            if self.cuts:
                v = self.cut(tg.id, v, env)
            env.put(tg.id, v)
        elif t in (ast.Tuple, ast.List):
            vs = self.unpack(v, len(tg.elts))
            for x, y in zip(tg.elts, vs):
                if isinstance(x, ast.Starred):
                    raise Unsupported('starred assignment')
                self.assign(x, y, env, mod)
        elif t is ast.Subscript:
            o = self.eval(tg.value, env, mod)
            self.setitem(o, self.index(tg.slice, env, mod), v)
        elif t is ast.Attribute:
            o = self.eval(tg.value, env, mod)
            if not isinstance(o, Obj):
                raise Unsupported('attribute assignment')
            if self.cuts:
                v = self.cut('.' + tg.attr, v, env)
            o.attrs.put(tg.attr, v)
        else:
            raise Unsupported('assignment to %s' % t.__name__)

    def unpack(self, v, n):
        if isinstance(v, (list, tuple)):
            if len(v) != n:
                raise PyRaise('ValueError', 'unpack')
            return list(v)
        if isinstance(v, Arr):
            d = A.prod(v.axes[0])
            if isinstance(d, int):
                if d != n:
                    raise PyRaise('ValueError', 'unpack')
                return [A.getitem(v, i) for i in range(n)]
        if hasattr(v, 'unpack'):
            return v.unpack(n)
        raise Unsupported('unpacking %r' % (type(v),))

    def setitem(self, o, key, v):
        if isinstance(o, list):
            if isinstance(key, int):
                old = o[key]
                o[key] = v

                def undo():
                    o[key] = old
                K.mutate(undo)
                return
            raise Unsupported('list assignment by symbolic index')
        if isinstance(o, dict):
            raise Unsupported('dict assignment')
        A.setitem(o, key, v)

    def aug(self, s, env, mod):
        op = OPS.get(type(s.op))
        if op is None:
            raise Unsupported('operator %s' % type(s.op).__name__)
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id, env, mod)
            v = self.eval(s.value, env, mod)
            r = self.inplace(op, cur, v)
            if self.cuts:
                r = self.cut(tg.id + '=', r, env)
            if r is not cur:
                env.put(tg.id, r)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env, mod)
            key = self.index(tg.slice, env, mod)
            cur = self.getitem(o, key)
            v = self.eval(s.value, env, mod)
            if isinstance(o, Arr) and o.dtype == 'i' and A.dtype_of(A.to_operand(v)) == 'f' and isinstance(cur, (Arr, Sel)):
                raise PyRaise('UFuncTypeError', 'in-place float operation on an integer array')
            r = self.inplace(op, cur, v) if isinstance(cur, Sel) or not isinstance(cur, Arr) else self.binary(op, cur, v)
            self.setitem(o, key, r)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env, mod)
            cur = self.getattr(o, tg.attr)
            v = self.eval(s.value, env, mod)
            r = self.inplace(op, cur, v)
            if self.cuts:
                r = self.cut('.' + tg.attr + '=', r, env)
            if r is not cur:
                if not isinstance(o, Obj):
                    raise Unsupported('attribute assignment')
                o.attrs.put(tg.attr, r)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binary(op, cur, v)
            if not isinstance(r, Arr):
                raise Unsupported('in-place result')
            if cur.dtype == 'i' and r.dtype == 'f':
                raise PyRaise('UFuncTypeError', 'in-place float operation on an integer array')
            if r.ndim != cur.ndim:
                raise PyRaise('ValueError', 'non-broadcastable output operand')
            A.assign_all(cur, r)
            return cur
        if isinstance(cur, Sel):
            r = self.binary(op, cur, v)
            if cur.dtype == 'i' and A.dtype_of(r) == 'f':
                raise PyRaise('UFuncTypeError', 'in-place float operation on an integer array')
            A.sel_setitem(cur, Sl(None, None, None), r)
            return cur
        if isinstance(cur, list) and op == '+':
            n = len(cur)
            cur.extend(v)

            def undo():
                del cur[n:]
            K.mutate(undo)
            return cur
        return self.binary(op, cur, v)

    def for_(self, s, env, mod):
        it = self.eval(s.iter, env, mod)
        seq = self.sequence(it)
        if seq is None:
            from . import loops
            loops.symbolic_for(self, s, it, env, mod)
            return
        for v in seq:
            self.assign(s.target, v, env, mod)
            try:
                self.block(s.body, env, mod)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, env, mod)

    def sequence(self, it):
        """the items, when there is a known number of them"""
        if isinstance(it, Range):
            r = it.concrete()
            if r is not None:
                if len(r) > 4000:
                    raise Unsupported('long loop')
                return list(r)
            return None
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, Arr):
            d = A.prod(it.axes[0]) if it.ndim else None
            if isinstance(d, int):
                return [A.getitem(it, i) for i in range(d)]
            return None
        return None

    # --- expressions
    def name(self, n, env, mod):
        if n in env:
            return env[n]
        try:
            return mod.get(n)
        except KeyError:
            pass
        b = self.npf.BUILTINS.get(n)
        if b is not None:
            return b
        raise Unsupported('name %s' % n)

    def eval(self, e, env, mod):
        t = type(e)
        if t is ast.Constant:
            v = e.value
            if isinstance(v, float):
                return Fraction(repr(v)) if v == v and abs(v) != float('inf') else K.NAN
            if isinstance(v, complex):
                raise Unsupported('complex')
            return v
        if t is ast.Name:
            return self.name(e.id, env, mod)
        if t is ast.BinOp:
            op = OPS.get(type(e.op))
            if op is None:
                if isinstance(e.op, ast.MatMult):
                    return self.npf.matmul(self.eval(e.left, env, mod), self.eval(e.right, env, mod))
                raise Unsupported('operator %s' % type(e.op).__name__)
            return self.binary(op, self.eval(e.left, env, mod), self.eval(e.right, env, mod))
        if t is ast.UnaryOp:
            v = self.eval(e.operand, env, mod)
            if isinstance(e.op, ast.USub):
                return self.npf.lift1(K.neg, v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                if isinstance(v, Sym):
                    r = K.lnot(v)
                    return Sym(r.t, r.bad, True) if isinstance(r, Sym) else r
                return not self.truth(v)
            if isinstance(e.op, ast.Invert):
                if isinstance(v, (Arr, Sel)) and v.dtype == 'b' or K.isbool(v):
                    return self.npf.lift1(K.lnot, v, 'b')
                raise Unsupported('~')
        if t is ast.BoolOp:
            last = self.eval(e.values[0], env, mod)
            conj = isinstance(e.op, ast.And)
            for x in e.values[1:]:
                if self.merge_bool and isinstance(last, Sym) and last.t.sort() == K.B and all(isinstance(q, PURE) for q in ast.walk(x)):
                    # comparisons of plain values have no effect and do not fail: no need to split the path
                    y = self.eval(x, env, mod)
                    if isinstance(y, bool) or isinstance(y, Sym) and y.t.sort() == K.B:
                        last = (K.land if conj else K.lor)(last, y)
                        continue
                tr = self.truth(last)
                if conj != bool(tr):
                    return last if not isinstance(last, Sym) else not conj
                last = self.eval(x, env, mod)
            return last
        if t is ast.Compare:
            left = self.eval(e.left, env, mod)
            out = None
            for op, x in zip(e.ops, e.comparators):
                right = self.eval(x, env, mod)
                r = self.compare(op, left, right)
                if out is None:
                    out = r
                else:
                    if isinstance(out, (Arr, Sel)):
                        raise Unsupported('chained array comparison')
                    out = K.land(out, r)
                left = right
            return out
        if t is ast.Call:
            return self.call_expr(e, env, mod)
        if t is ast.Attribute:
            return self.getattr(self.eval(e.value, env, mod), e.attr)
        if t is ast.Subscript:
            return self.getitem(self.eval(e.value, env, mod), self.index(e.slice, env, mod))
        if t is ast.Tuple:
            return tuple(self.eval(x, env, mod) for x in e.elts)
        if t is ast.List:
            return [self.eval(x, env, mod) for x in e.elts]
        if t is ast.Dict:
            return dict((self.eval(k, env, mod), self.eval(v, env, mod)) for k, v in zip(e.keys, e.values))
        if t is ast.IfExp:
            return self.eval(e.body if self.truth(self.eval(e.test, env, mod)) else e.orelse, env, mod)
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.comp(e, env, mod)
        if t is ast.JoinedStr:
            return '<text>'
        if t is ast.Lambda:
            node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[])
            ast.copy_location(node, e)
            return Func(mod, node, mod.name + '.<lambda>', env)
        if t is ast.Slice:
            return self.index(e, env, mod)
        raise Unsupported('expression %s' % t.__name__)

    def index(self, e, env, mod):
        if isinstance(e, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env, mod)
            return Sl(g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.index(x, env, mod) for x in e.elts)
        v = self.eval(e, env, mod)
        if v is None:
            return A.NEWAXIS
        return v

    def binary(self, op, a, b):
        if isinstance(a, (Arr, Sel)) or isinstance(b, (Arr, Sel)):
            return A.binop(op, a, b)
        if op == '+' and (isinstance(a, SymList) and isinstance(b, (SymList, list)) or isinstance(a, list) and isinstance(b, SymList)):
            return self.npf.append_lists(a, b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if op == '+' and type(a) is type(b):
                return a + b
            if op == '*' and isinstance(b, int):
                return a * b
            if op == '*' and isinstance(a, int):
                return b * a
            if isinstance(a, list) and op == '*' and isinstance(b, Sym) and len(a) == 1:
                v = a[0]
                return SymList(K.maxv(b, 0), lambda k: v)
            raise Unsupported('list operator %s' % op)
        if isinstance(a, str) or isinstance(b, str):
            return '<text>'
        if a is None or b is None:
            raise PyRaise('TypeError', 'unsupported operand NoneType')
        if not K.is_scalar(a) or not K.is_scalar(b):
            raise Unsupported('operands %r %r' % (type(a), type(b)))
        if op in ('/', '//', '%') and K.conc(b) and K.cfrac(b) == 0 and K.conc(a):
            raise PyRaise('ZeroDivisionError')
        return A.BIN[op](a, b)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else K.lnot(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple)):
                r = K.lor(*[self.eq(a, x) for x in b]) if b else False
                return r if isinstance(op, ast.In) else K.lnot(r)
            if isinstance(b, (str, dict)):
                return (a in b) if isinstance(op, ast.In) else a not in b
            raise Unsupported('in')
        o = CMPS[type(op)]
        if isinstance(a, (Arr, Sel)) or isinstance(b, (Arr, Sel)):
            return A.binop(o, a, b)
        if K.is_scalar(a) and K.is_scalar(b):
            return K.cmp(o, a, b)
        if o == '==':
            return self.eq(a, b)
        if o == '!=':
            return K.lnot(self.eq(a, b))
        if a is None or b is None:
            raise PyRaise('TypeError', 'comparison with None')
        raise Unsupported('comparison of %r and %r' % (type(a), type(b)))

    def eq(self, a, b):
        if K.is_scalar(a) and K.is_scalar(b):
            return K.cmp('==', a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or type(a) is not type(b):
                return False
            return K.land(*[self.eq(x, y) for x, y in zip(a, b)]) if a else True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            if isinstance(a, (Arr, Sel)) or isinstance(b, (Arr, Sel)):
                raise Unsupported('array compared with None')
            return a is b
        if type(a) is not type(b):
            return False
        raise Unsupported('comparison of %r' % (type(a),))

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is None:
                return x is None
            if isinstance(y, bool):
                if isinstance(x, bool):
                    return x is y
                if isinstance(x, Sym) and x.py:
                    r = K.Sym(x.t) if y else K.lnot(K.Sym(x.t))
                    return r
                if isinstance(x, A.OIte):
                    raise Unsupported('identity')
                return False
        return a is b

    def call_expr(self, e, env, mod):
        f = self.eval(e.func, env, mod)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env, mod)
                seq = self.sequence(v)
                if seq is None:
                    raise Unsupported('starred argument')
                args.extend(seq)
            else:
                args.append(self.eval(x, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env, mod)
                if not isinstance(d, dict):
                    raise Unsupported('** argument')
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, env, mod)
        return self.call(f, args, kw)

    def getitem(self, o, key):
        if isinstance(o, (list, tuple, str)):
            if isinstance(key, int):
                if not -len(o) <= key < len(o):
                    raise PyRaise('IndexError', 'list index out of range')
                return o[key]
            if isinstance(key, Sl) and all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return o[slice(key.start, key.stop, key.step)]
            if isinstance(key, Sym) and isinstance(o, (list, tuple)):
                return self.npf.choose(o, key)
            raise Unsupported('list index')
        if isinstance(o, dict):
            return o[key]
        if isinstance(o, SymList):
            return o.at(A.norm_index(key, o.n))
        if isinstance(o, (Arr, Sel)):
            return A.getitem(o, key)
        if isinstance(o, Obj) or o is None:
            raise PyRaise('TypeError', 'not subscriptable')
        if K.is_scalar(o):
            raise PyRaise('IndexError', 'invalid index to scalar')
        raise Unsupported('subscript of %r' % (type(o),))

    def getattr(self, o, name):
        if isinstance(o, Module):
            try:
                return o.get(name)
            except KeyError:
                raise Unsupported('%s.%s is not defined' % (o.name, name))
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.klass.methods:
                return Bound(o.klass.methods[name], o)
            if name == '__class__':
                return o.klass
            raise PyRaise('AttributeError', name)
        if isinstance(o, Klass):
            if name in o.methods:
                return o.methods[name]
            raise Unsupported('class attribute %s' % name)
        if o is None:
            raise PyRaise('AttributeError', 'None.%s' % name)
        return self.npf.attribute(o, name)

    # --- comprehensions
    def comp(self, e, env, mod):
        if len(e.generators) != 1 or e.generators[0].is_async:
            if all(not g.is_async for g in e.generators):
                return self.comp_multi(e, env, mod)
            raise Unsupported('comprehension')
        g = e.generators[0]
        it = self.eval(g.iter, env, mod)
        seq = self.sequence(it)
        if seq is not None:
            out = []
            for v in seq:
                sub = Env(env)
                self.assign(g.target, v, sub, mod)
                if all(self.truth(self.eval(c, sub, mod)) for c in g.ifs):
                    out.append(self.eval(e.elt, sub, mod))
            return out
        if g.ifs:
            raise Unsupported('filtered comprehension')
        if isinstance(it, Range):
            n = it.length()
            start = it.start
            item = lambda k: K.add(start, k)
        elif isinstance(it, Arr):
            n = A.prod(it.axes[0])
            item = lambda k: A.getitem(it, k)
        elif isinstance(it, SymList):
            n = it.n
            item = it.at
        else:
            raise Unsupported('comprehension over %r' % (type(it),))
        if not isinstance(g.target, ast.Name):
            raise Unsupported('comprehension target')
        tname = g.target.id

        def body(k):
            sub = Env(env)
            sub[tname] = item(k)
            return self.eval(e.elt, sub, mod)
        at = self.npf.generic(n, body)
        return SymList(n, at)

    def comp_multi(self, e, env, mod):
        out = []

        def rec(gs, en):
            if not gs:
                out.append(self.eval(e.elt, en, mod))
                return
            g = gs[0]
            seq = self.sequence(self.eval(g.iter, en, mod))
            if seq is None:
                raise Unsupported('nested comprehension over a symbolic range')
            for v in seq:
                sub = Env(en)
                self.assign(g.target, v, sub, mod)
                if all(self.truth(self.eval(c, sub, mod)) for c in g.ifs):
                    rec(gs[1:], sub)
        rec(list(e.generators), Env(env))
        return out
