"""C13: no function changes the arrays that the caller passes in, nor its own defaults.

Every Python function and method of the package is wrapped; at the outermost call the wrapper takes a
snapshot of the arguments and compares it after the call, also when the call raises.  Functions that do
not draw random numbers are called once more after their first result has been overwritten.  The calls
themselves come from the generators and contracts of the other properties, whose verdicts are ignored here.
"""
import copy
import functools
import sys
import types
import numpy as np
import base
from base import *

STATE = dict(depth=0, on=False, found=[])
DEFAULTS = []
CHEAP = ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C17', 'C18', 'C22', 'C23', 'C24', 'C25', 'C30', 'C31')
NOREPEAT = ('randoms', 'get_weights', 'setup', 'clean', 'progress', '__init__', 'mask')


def snap(v):
    if isinstance(v, np.ndarray):
        return ('nd', v.shape, str(v.dtype), v.tobytes() if v.dtype != object else [snap(x) for x in v.ravel()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, snap(x)) for k, x in sorted(v.items())])
    return None


def scribble(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object and v.size:
            try:
                v[...] = -77
            except Exception:
                pass
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        for i in range(len(v)):
            if not isinstance(v[i], (np.ndarray, list)):
                v[i] = -77
    elif isinstance(v, tuple):
        for x in v:
            scribble(x)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype == object:
            return True
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-12 * np.abs(y))))
    except TypeError:
        return True


def report(text):
    if len(STATE['found']) < 5:
        STATE['found'].append(text)


def check_defaults(name):
    for f, n, s in DEFAULTS:
        if snap(f.__defaults__) != s:
            report('%s: the default arguments of %s have changed' % (name, n))
            f.__defaults__ = ORIGINAL[n]


ORIGINAL = {}


def wrap(f, name, method):
    repeat = not any(k in name for k in NOREPEAT)

    @functools.wraps(f)
    def g(*a, **k):
        if not STATE['on'] or STATE['depth']:
            return f(*a, **k)
        STATE['depth'] += 1
        try:
            args = a[1:] if method else a
            before = snap(list(args)), snap(k)
            keep = copy.deepcopy((args, k)) if repeat else None
            state = np.random.get_state()
            try:
                r = f(*a, **k)
            finally:
                if (snap(list(args)), snap(k)) != before:
                    report('%s changed its arguments' % name)
                check_defaults(name)
            if repeat and np.random.random_sample.__name__ == 'random_sample':
                out = copy.deepcopy(r)
                after = np.random.get_state()
                q = copy.deepcopy(keep)
                np.random.set_state(state)
                s1 = f(*(a[:1] if method else ()), *q[0], **q[1])
                scribble(s1)
                check_defaults(name)
                q = copy.deepcopy(keep)
                np.random.set_state(state)
                s2 = f(*(a[:1] if method else ()), *q[0], **q[1])
                np.random.set_state(after)
                if not same(s2, out):
                    report('%s: writing to a result changes a later result: %s instead of %s' % (name, short(s2), short(out)))
                return out if False else r
            return r
        finally:
            STATE['depth'] -= 1
    return g


def install():
    if DEFAULTS or ORIGINAL:
        return
    ORIGINAL['-'] = None
    mods = [m for n, m in sorted(sys.modules.items()) if n.split('.')[0] == 'magpie' and isinstance(m, types.ModuleType)]
    made = {}
    for m in mods:
        for n, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and (v.__module__ or '').startswith('magpie'):
                if v not in made:
                    made[v] = wrap(v, v.__module__ + '.' + v.__qualname__, False)
                    register(v)
                setattr(m, n, made[v])
            elif isinstance(v, type) and (v.__module__ or '').startswith('magpie') and v not in made:
                made[v] = v
                for k, x in list(vars(v).items()):
                    if isinstance(x, types.FunctionType):
                        register(x)
                        setattr(v, k, wrap(x, '%s.%s.%s' % (v.__module__, v.__name__, k), True))


def register(f):
    n = f.__module__ + '.' + f.__qualname__
    ORIGINAL[n] = copy.deepcopy(f.__defaults__)
    if f.__defaults__ and any(isinstance(x, (list, dict, np.ndarray)) for x in f.__defaults__):
        DEFAULTS.append((f, n, snap(f.__defaults__)))


@contract('pure')
def c_pure(a):
    install()
    STATE.update(on=True, depth=0, found=[])
    try:
        base.CONTRACTS[a['contract']](a['args'])
    except Exception:
        pass
    finally:
        STATE['on'] = False
    need(not STATE['found'], '; '.join(STATE['found']))


@gen('C13')
def g13(rng, tier):
    for w in ([.25, .5, .75], [0., 1.], [1., 1.], [2., 3.], [0., 0.], [.5, 1.5]):
        yield 'pure', dict(contract='stochastic_weights', args=dict(w=w, seed=1))
    its, cheap = [], []
    for p in sorted(base.GENERATORS):
        if p in ('C13', 'C33'):
            continue
        for g in base.GENERATORS[p]:
            if p in CHEAP:
                cheap.append(iter(g(np.random.Generator(np.random.PCG64(int(rng.integers(10**9)))), 'quick')))
            its.append(iter(g(np.random.Generator(np.random.PCG64(int(rng.integers(10**9)))), 'quick')))
    rounds = 30 if tier == 'quick' else 400
    for k in range(rounds * 5):
        for it in list(its if k % 5 == 0 else []) + list(cheap):
            try:
                name, args = next(it)
            except StopIteration:
                (its if it in its else cheap).remove(it)
                continue
            yield 'pure', dict(contract=name, args=args)
