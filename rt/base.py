"""Run-time contracts on the real code: registry, comparison helpers, controlled random draws.

A contract is a function of a dictionary of arguments; it calls the real function and raises Broken
when the postcondition does not hold.  A generator yields (contract name, arguments).  The same
contracts serve for the bounded cross-check and for replaying counterexamples of the verifier.
"""
import json
import math
import os
import sys
import numpy as np

CONTRACTS = {}
GENERATORS = {}


class Broken(Exception):
    pass


class Known(Broken):
    """a deviation listed in known_findings"""
    def __init__(self, key, text):
        Broken.__init__(self, text)
        self.key = key


def contract(name):
    def deco(f):
        CONTRACTS[name] = f
        return f
    return deco


def gen(*props):
    def deco(f):
        for p in props:
            GENERATORS.setdefault(p, []).append(f)
        return f
    return deco


def need(cond, msg, *vals):
    if not cond:
        raise Broken(msg + ''.join(' | %s' % short(v) for v in vals))


def short(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, threshold=20, precision=17, max_line_width=200)
    s = repr(v)
    return s if len(s) < 500 else s[:500] + '...'


def close(got, exp, msg, rtol=1e-9, atol=1e-9):
    g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    need(g.shape == e.shape, msg + ': shape', g.shape, e.shape)
    if g.size == 0:
        return
    ok = (np.abs(g - e) <= atol + rtol * np.abs(e)) | (np.isnan(g) & np.isnan(e)) | (g == e)
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
        g1, e1 = np.atleast_1d(g), np.atleast_1d(e)
        need(False, '%s: element %s is %r, not %r' % (msg, i, float(g1[i]), float(e1[i])))


def raises(f, msg):
    try:
        f()
    except (AssertionError, ValueError):
        return
    need(False, msg + ': accepted')


def arr(v, dtype=float):
    return np.array(v, dtype=dtype)


def jsonable(v):
    if isinstance(v, np.ndarray):
        d = {'__nd__': v.tolist(), 'dtype': str(v.dtype)}
        if v.ndim > 1 and v.flags.f_contiguous and not v.flags.c_contiguous:
            d['order'] = 'F'
        return d
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v


def unjson(v):
    if isinstance(v, dict):
        if '__nd__' in v:
            return np.array(v['__nd__'], dtype=v['dtype'], order=v.get('order', 'C'))
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


def relayout(v, rng):
    """the same values in another memory layout: no result may depend on it"""
    if isinstance(v, np.ndarray) and v.ndim > 1 and rng.random() < .25:
        return np.asfortranarray(v)
    if isinstance(v, dict):
        return {k: relayout(x, rng) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- controlled uniform draws
class Draws(object):
    """Replaces the uniform generators of numpy.random by a recorded stream."""
    NAMES = ('random_sample', 'random', 'ranf', 'sample', 'rand', 'uniform')

    def __init__(self, seed, special=True):
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.streams = []
        self.special = special
        self.used_other = False

    def raw(self, size):
        n = 1 if size is None else int(np.prod(size))
        u = self.rng.random(n)
        if self.special and n >= 8:
            # values a generator can return but almost never does
            u[:4] = [0., 0.5, 1. - 2.**-53, 0.25]
            self.rng.shuffle(u)
        a = u.reshape(() if size is None else size)
        self.record(a)
        return float(a) if size is None else a.copy()

    def record(self, a):
        a = np.array(a)
        if a.ndim <= 1:
            self.streams.append(np.atleast_1d(a))
        else:
            for row in a.reshape(-1, a.shape[-1]):
                self.streams.append(row)
            for row in np.moveaxis(a, 0, -1).reshape(-1, a.shape[0]):
                self.streams.append(row)

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES}
        f = lambda size=None: self.raw(size)
        for n in ('random_sample', 'random', 'ranf', 'sample'):
            setattr(np.random, n, f)
        np.random.rand = lambda *s: self.raw(s if s else None)
        np.random.uniform = lambda low=0., high=1., size=None: low + (np.asarray(high) - low) * self.raw(size)
        np.random.seed(int(self.rng.integers(2**31)))
        self.old_rng = np.random.default_rng
        def default_rng(*a, **k):
            # an independent generator: the statistical tests take over
            self.used_other = True
            return self.old_rng(int(self.rng.integers(2**31)))
        np.random.default_rng = default_rng
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)
        np.random.default_rng = self.old_rng

    def match(self, u, tol=1e-7):
        """indices of the streams that u equals (as u or 1 - u)"""
        u = np.asarray(u, dtype=float)
        ok = ~np.isnan(u)
        out = []
        for k, s in enumerate(self.streams):
            if s.shape == u.shape and (np.all(np.abs(s - u)[ok] <= tol) or np.all(np.abs(1. - s - u)[ok] <= tol)):
                out.append(k)
        return out


def ks_uniform(u, msg):
    """Kolmogorov-Smirnov test against U(0,1); threshold far beyond chance (p < 1e-12)"""
    u = np.sort(np.asarray(u, dtype=float))
    n = len(u)
    k = np.arange(1, n + 1)
    d = max(np.max(k / n - u), np.max(u - (k - 1) / n))
    need(d * math.sqrt(n) < 3.8, msg + ': not uniform (KS %.3g of %d)' % (d, n))


def uniform_draws(sample, maps, seed, msg, n=24, tol=1e-7, big=60000):
    """Checks that the coordinates of a random sample are independent and uniform after the map to (0,1).

    sample(size) draws; each of maps turns the result into a list of columns (alternative maps to the
    unit cube).  Accepted when some map gives columns that are draws of their own; otherwise the
    columns of the first map are tested statistically on a large sample, with thresholds that chance
    does not reach.
    """
    for k in range(2):
        with Draws(seed + k) as d:
            out = sample(n)
        good = False
        for m in maps:
            cols = m(out)
            if assignable([d.match(c, tol) for c in cols]):
                good = True
        if not good:
            break
    else:
        return
    np.random.seed(seed % 2**31)
    cols = [np.asarray(c, dtype=float) for c in maps[0](sample(big))]
    ok = np.all([~np.isnan(c) for c in cols], axis=0)
    need(np.sum(~ok) < big * 1e-3, msg + ': not finite')
    cols = [c[ok] for c in cols]
    for k, c in enumerate(cols):
        need(np.all(c > -1e-6) and np.all(c < 1 + 1e-6), '%s: coordinate %d leaves the region' % (msg, k), c.min(), c.max())
    independence(cols, msg)


def assignable(ms):
    """is there a choice of distinct streams, one per coordinate"""
    def go(i, used):
        if i == len(ms):
            return True
        return any(go(i + 1, used | {m}) for m in ms[i] if m not in used)
    return go(0, frozenset())


def independence(cols, msg):
    n = len(cols[0])
    need(n >= 20000, msg + ': sample too small for the test', n)
    for c in cols:
        ks_uniform(c, msg)
    b = 8
    q = [np.minimum(np.maximum((c * b).astype(int), 0), b - 1) for c in cols]
    place = np.arange(n) * b // n
    for i in range(len(cols)):
        for name, x, y in (('place in the sample', place, q[i]), ('the draw before', q[i][:-1], q[i][1:])):
            h = np.bincount(x * b + y, minlength=b * b)
            e = len(x) / (b * b)
            chi = np.sum((h - e)**2 / e)
            need(chi < 63 + 12 * math.sqrt(2 * 63), msg + ': coordinate %d depends on %s (chi2 %.1f)' % (i, name, chi))
        for j in range(i + 1, len(cols)):
            h = np.bincount(q[i] * b + q[j], minlength=b * b)
            e = n / (b * b)
            chi = np.sum((h - e)**2 / e)
            need(chi < 63 + 12 * math.sqrt(2 * 63), msg + ': coordinates %d and %d are not independent (chi2 %.1f)' % (i, j, chi))


def reals(rng, n, lo=-10., hi=10., special=()):
    x = rng.uniform(lo, hi, n)
    sp = [s for s in special]
    for k, s in enumerate(sp[:n]):
        x[k] = s
    return x


def stub_kernels(path):
    """the package imports its compiled kernels; checks that do not use them do without"""
    import glob
    import types
    d = os.path.join(path, 'magpie', 'src')
    if glob.glob(os.path.join(d, '*.cpython-%d%d*.so' % sys.version_info[:2])):
        return
    for f in glob.glob(os.path.join(d, '*.f90')):
        n = 'magpie.src.' + os.path.basename(f)[:-4]
        m = types.ModuleType(n)
        def missing(*a, **k):
            raise RuntimeError('compiled kernel not built for this check')
        def attribute(name, missing=missing):
            if name.startswith('__'):
                raise AttributeError(name)
            return missing
        m.__getattr__ = attribute
        sys.modules[n] = m


def load(path):
    if path not in sys.path:
        sys.path.insert(0, path)
    stub_kernels(path)
    import magpie
    import magpie.densegrid
    import magpie.montecarlo
    need(os.path.realpath(magpie.__file__).startswith(os.path.realpath(path)), 'wrong magpie imported', magpie.__file__)
    return magpie
