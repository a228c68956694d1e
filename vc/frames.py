"""C13: the frame conditions of the functions under contract.

Every task of the other properties executes a function of the package on symbolic arguments on every path. Here the same
executions are watched: at the outermost call of a function of the package
  * no path writes to the memory of an array argument, and every list argument holds the same objects at the end,
    whether the call returns or raises;
  * the default arguments of every function are what they were;
  * no array or list of the result is kept by the library: by a default argument, by a module, or by the object itself.
A path on which one of these fails is an obligation that the path cannot be taken. All other obligations of the task belong to
the other properties and are not repeated."""
import ast
from . import core as K
from .arr import Arr, Sel, Buf
from .core import PyRaise


def parts(v, out=None, depth=0, seen=None):
    """the buffers and lists that a value holds"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if depth > 6 or id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Arr):
        out[id(v.buf)] = v.buf
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            parts(x, out, depth + 1, seen)
    elif isinstance(v, dict):
        for x in v.values():
            parts(x, out, depth + 1, seen)
    return out


def same(a, b):
    """the same element: immutable and equal, or the same object"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, K.Sym):
        return a.t.eq(b.t)
    if isinstance(a, (int, float, str, bool)) or hasattr(a, 'numerator'):
        return a == b
    return False


class Watch(object):
    def __init__(self, prog, ctx):
        self.prog, self.ctx, self.depth = prog, ctx, 0
        self.active = {}
        self.checked = set()
        self.funcs = {}
        ctx.write_hooks.append(self.written)

    def written(self, buf):
        nm = self.active.get(id(buf))
        if nm is not None:
            self.ctx.oblige('%s is not modified' % nm[0], False, 'frame')

    def oblige(self, nm, ok):
        self.ctx.oblige(nm, bool(ok), 'frame')

    def call(self, f, env, go):
        self.funcs[id(f)] = f
        if self.depth:
            return go()
        names = [k for k in env if k != 'self']
        lists, keep = [], []
        self.active = {}
        for k in names:
            for i, p in parts(env[k]).items():
                keep.append(p)
                if isinstance(p, list):
                    lists.append((k, p, list(p)))
                else:
                    self.active[i] = ('%s: argument %s' % (f.qual.replace('magpie.', ''), k), p)
        before = {}
        for g in list(self.funcs.values()):
            for n, v in g.__dict__.get('defaults', {}).items():
                before[(id(g), n)] = [(p, list(p)) for p in parts(v).values() if isinstance(p, list)]
        self.depth += 1
        try:
            r = go()
        except PyRaise:
            self.depth -= 1
            self.after(f, lists, before, None)
            raise
        except BaseException:
            self.depth -= 1
            self.active = {}
            raise
        self.depth -= 1
        self.after(f, lists, before, r, env.get('self'))
        return r

    def after(self, f, lists, before, r, obj=None):
        self.active = {}
        q = f.qual.replace('magpie.', '')
        self.checked.add(f.qual)
        self.oblige('%s: the list arguments are what they were' % q, all(len(p) == len(old) and all(same(x, y) for x, y in zip(p, old)) for _, p, old in lists))
        ok, owned = True, {}
        for g in list(self.funcs.values()):
            for n, v in g.__dict__.get('defaults', {}).items():
                for p, old in before.get((id(g), n), []):
                    ok = ok and len(p) == len(old) and all(same(x, y) for x, y in zip(p, old))
                fresh = self.fresh(g, n)
                if isinstance(v, list) and isinstance(fresh, list):
                    ok = ok and len(v) == len(fresh) and all(same(x, y) for x, y in zip(v, fresh))
                parts(v, owned)
        self.oblige('%s: default arguments are what they were' % q, ok)
        for m in self.prog.mods.values():
            for v in list(getattr(m, 'vars', {}).values()):
                parts(v, owned)
        if obj is not None and hasattr(obj, 'attrs'):
            for v in obj.attrs.values():
                parts(v, owned)
        self.oblige('%s: nothing of the result is kept by the library' % q, not any(i in owned for i in parts(r)))

    def fresh(self, g, n):
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        from .interp import Env
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults)).get(n)
        if d is None or not isinstance(d, (ast.List, ast.Constant)):
            return None
        return self.prog.eval(d, Env(), g.module)
