"""C33: an object that has been used before gives the results of a fresh one.

A case is a sequence of operations on two objects of one class.  Every result is compared with that of a
new object on which only the latest setup calls (and, for the Monte Carlo classes, the latest draw of the
weights, from the same seed) have been made.
"""
import copy
import math
import numpy as np
import healpy as hp
from base import *
from magpie import densegrid, montecarlo
from c_dense import box_case, polar_case, sky_center, field
from c_mc import setup_polar

TWOPI = 2. * np.pi
GRIDS = ('xedges', 'yedges', 'zedges', 'xmid', 'ymid', 'zmid', 'x2d', 'y2d', 'x3d', 'y3d', 'z3d', 'redges', 'pedges', 'rmid', 'pmid',
         'r2d', 'p2d', 'alpha_edges', 'beta_edges', 'alpha_mid', 'beta_mid', 'alpha2d', 'beta2d', 'center', 'nside')


def equal(x, y, msg):
    if isinstance(x, tuple) and isinstance(y, tuple):
        need(len(x) == len(y), msg)
        for a, b in zip(x, y):
            equal(a, b, msg)
        return
    if x is None or y is None:
        need(x is None and y is None, msg, x, y)
        return
    close(x, y, msg, 1e-12, 1e-12)


def lean(v):
    if isinstance(v, dict):
        return {k: lean(x) for k, x in v.items()}
    return list(v) if isinstance(v, list) else v


class Track(object):
    def __init__(self, cls):
        self.cls = cls
        mod, name = cls.split('.')
        self.make = getattr(densegrid if mod == 'dense' else montecarlo, name)
        self.mc = mod == 'mc'
        self.name = name
        self.obj = self.make()
        self.setups = {}
        self.weights = None

    def fresh(self):
        t = Track(self.cls)
        for k in sorted(self.setups):
            t.setup(k, self.setups[k])
        if self.weights is not None:
            t.draw(self.weights)
        return t

    def setup(self, kind, kw):
        """kind a_...: the input grid, b_...: the output grid"""
        self.setups[kind] = kw
        self.weights = None
        o = self.obj
        if kind == 'a_grid':
            if self.name == 'PointOfView':
                o.setup(**lean(kw))
            elif self.name == 'Box2Ring':
                o.setup_box(*kw['box'])
            elif self.name == 'Cube2Shell':
                o.setup_cube(*kw['cube'])
            else:
                o.setup_map(kw['nside'])
        else:
            if self.mc and self.name in ('Box2Ring', 'Cube2Shell'):
                setup_polar(o, kw)
            elif self.name == 'Heal2Ring':
                o.setup_polar_cap(**lean(kw))
            elif self.name in ('Heal2Polar', 'Heal2Ortho'):
                o.setup_box(**lean(kw))
            else:
                o.setup_polar(**lean(kw))

    def draw(self, w):
        self.weights = w
        np.random.seed(w[0])
        self.obj.get_weights(mc_size=w[1], verbose=False)

    def inshape(self):
        g = self.setups['a_grid']
        if self.name == 'Box2Ring':
            b = g['box']
            return (b[5], b[2])
        if self.name == 'Cube2Shell':
            b = g['cube']
            return (b[5], b[2], b[8])
        return (12 * g['nside']**2,)

    def outshape(self):
        p = self.setups['b_grid']
        return (p['nump'], p['numr']) if self.name == 'Box2Ring' else (p['num_beta'], p['num_alpha'])

    def query(self, op, seed):
        o = self.obj
        r = np.random.Generator(np.random.PCG64(seed))
        if op == 'grids':
            return tuple(np.array(getattr(o, n), dtype=float) for n in GRIDS if getattr(o, n, None) is not None)
        if op == 'remap':
            return o.remap(field(seed, self.inshape()), verbose=False)
        if op == 'wremap':
            return o.remap(field(seed, self.inshape()), w=field(seed + 1, self.inshape(), True), verbose=False)
        if op == 'mask':
            o.get_mask_in_bound(verbose=False)
            return o.mask_in_bound
        if op == 'rotate':
            return o.rotate_polar(field(seed, self.outshape()), float(r.uniform(0, TWOPI)))
        if op == 'radial':
            f, s, w = field(seed, self.outshape()), field(seed + 1, self.outshape(), True), field(seed + 2, self.outshape(), True)
            kw = {}
            if seed % 2:
                kw['sigma'] = s
            if seed % 3 == 0:
                kw['w'] = w
            q = o.polar2radial(f, **kw)
            return tuple(q) if isinstance(q, tuple) else q
        if op == 'transform':
            if self.name == 'Heal2Ortho':
                return tuple(o.transform(r.uniform(0, TWOPI, 5), np.arccos(r.uniform(-1, 1, 5))))
            return tuple(o.transform(*[r.uniform(-5, 5, 5) for _ in range(3)]))
        if op == 'reverse':
            return tuple(o.reverse(r.uniform(-1, 1, 5), r.uniform(-1, 1, 5), r.uniform(1, 9, 5)))
        raise KeyError(op)


def state(o):
    return {k: v for k, v in vars(o).items()}


def same_state(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(np.asarray(x), np.asarray(y)):
                return False
        elif x != y:
            return False
    return True


def deterministic(a):
    """does the draw of the weights follow numpy.random.seed"""
    t = Track(a['cls'])
    for op in a['ops']:
        if op[1] == 'setup' and op[2] not in t.setups:
            t.setup(op[2], op[3])
    out = []
    for _ in range(2):
        t.draw([3, 40])
        out.append(np.nan_to_num(t.query('remap', 1)))
    return np.array_equal(out[0], out[1])


@contract('history')
def c_hist(a):
    if a['cls'].startswith('mc') and not deterministic(a):
        return
    obs = {'A': Track(a['cls']), 'B': Track(a['cls'])}
    init = state(Track(a['cls']).obj)
    init = copy.deepcopy(init)
    for k, op in enumerate(a['ops']):
        t = obs[op[0]]
        if op[1] == 'setup':
            t.setup(op[2], op[3])
        elif op[1] == 'weights':
            t.draw(op[2])
        elif op[1] == 'clean':
            t.obj.clean()
            need(same_state(state(t.obj), init), 'clean does not return %s to its initial state (operation %d)' % (a['cls'], k))
            need(same_state(state(t.make()), init), 'a new %s differs from the first one (operation %d)' % (a['cls'], k))
            t.setups, t.weights = {}, None
        else:
            got = t.query(op[1], op[2])
            got = copy.deepcopy(got)
            exp = t.fresh().query(op[1], op[2])
            equal(got, exp, '%s.%s after earlier use (operation %d) differs from that of a new object' % (a['cls'], op[1], k))


def grid_case(rng, cls, kind):
    mod, name = cls.split('.')
    if name == 'PointOfView':
        cam = rng.uniform(-5, 5, 3)
        kw = dict(camera=cam.tolist(), point=(cam + rng.normal(size=3)).tolist(), display=float(rng.uniform(.1, 5)))
        if rng.random() < .6:
            kw['spin'] = float(rng.uniform(0, TWOPI))
        return kw
    if name == 'Box2Ring':
        b = [-4., 4., int(rng.integers(1, 7)), -4. + float(rng.uniform(-1, 1)), 4., int(rng.integers(1, 7))]
        if kind == 'a_grid':
            return dict(box=b)
        p = polar_case(rng, b, mod == 'dense')
        if rng.random() < .4:
            p.update(rmin=0.1, rmax=2.5, center=[0., 0.])
        if mod == 'mc' and rng.random() < .4:
            p['log'] = True
            p['rmin'] = .1
        return p
    if name == 'Cube2Shell':
        if kind == 'a_grid':
            lo = rng.uniform(-6, -2, 3)
            b = []
            for k in range(3):
                b += [float(lo[k]), float(lo[k] + rng.uniform(3, 9)), int(rng.integers(1, 5))]
            return dict(cube=b)
        p = dict(rmin=float(rng.uniform(.1, 1)), numr=int(rng.integers(1, 4)), nside=int(rng.choice([1, 2])))
        p['rmax'] = p['rmin'] + float(rng.uniform(.5, 5))
        if rng.random() < .6:
            p['center'] = [float(x) for x in rng.uniform(-2, 2, 3)]
        if mod == 'dense':
            if rng.random() < .6:
                p.update(rebin_r=int(rng.integers(1, 4)), rebin_shell=int(rng.choice([1, 2])))
            if rng.random() < .6:
                p['periodic' + 'xyz'[int(rng.integers(3))]] = [-1, 1]
        elif rng.random() < .4:
            p['log'] = True
        return p
    if kind == 'a_grid':
        return dict(nside=int(rng.choice([1, 2, 4, 8])))
    if name == 'Heal2Ring':
        p = dict(alpha_min=float(rng.uniform(0, 1)), num_alpha=int(rng.integers(1, 5)), num_beta=int(rng.integers(1, 6)))
        p['alpha_max'] = p['alpha_min'] + float(rng.uniform(.1, 2))
        if rng.random() < .5:
            p.update(beta_min=.3, beta_max=float(rng.uniform(1, 6)))
        if rng.random() < .5:
            p['beta_shift'] = float(rng.uniform(0, TWOPI))
        re = ('rebin_alpha', 'rebin_beta')
    else:
        p = dict(x_length=float(rng.uniform(.3, 1.8)), x_grid=int(rng.integers(1, 6)))
        if rng.random() < .5:
            p.update(y_length=float(rng.uniform(.3, 1.8)), y_grid=int(rng.integers(1, 6)))
        if name == 'Heal2Polar' and rng.random() < .5:
            p['alpha'] = float(rng.uniform(0, TWOPI))
        if name == 'Heal2Ortho' and rng.random() < .5:
            p['radius'] = float(rng.uniform(1, 3))
        re = ('rebin_x', 'rebin_y')
    if rng.random() < .7:
        p['center'] = sky_center(rng)
    if mod == 'dense' and rng.random() < .6:
        for k in re:
            p[k] = int(rng.integers(1, 4))
    return p


QUERIES = {'dense.Box2Ring': ['remap', 'wremap', 'mask', 'radial', 'radial', 'rotate', 'grids'],
           'dense.Cube2Shell': ['remap', 'grids'],
           'dense.Heal2Ring': ['remap', 'wremap', 'radial', 'rotate', 'grids'],
           'dense.Heal2Polar': ['remap', 'wremap', 'grids'],
           'dense.Heal2Ortho': ['remap', 'wremap', 'transform', 'grids'],
           'dense.PointOfView': ['transform', 'reverse'],
           'mc.Box2Ring': ['remap', 'wremap', 'mask', 'radial', 'radial', 'rotate', 'grids'],
           'mc.Cube2Shell': ['remap', 'wremap', 'grids'],
           'mc.Heal2Ring': ['remap', 'wremap', 'radial', 'rotate', 'grids'],
           'mc.Heal2Polar': ['remap', 'wremap', 'grids']}


def sequence(rng, cls, n):
    ops = []
    have = {'A': set(), 'B': set()}
    ready = {'A': False, 'B': False}
    last = {'A': {}, 'B': {}}
    mc = cls.startswith('mc')
    kinds = ['a_grid'] if cls.endswith('PointOfView') else ['a_grid', 'b_grid']
    heal = 'Heal' in cls or cls == 'dense.Cube2Shell'
    while len(ops) < n:
        k = 'A' if rng.random() < .65 else 'B'
        miss = [s for s in kinds if s not in have[k]]
        if miss or rng.random() < .3:
            s = miss[0] if miss and (heal or rng.random() < .5) else str(rng.choice(miss or kinds))
            kw = grid_case(rng, cls, s)
            # another grid with the same shape is the treacherous one
            if s in last[k] and rng.random() < .4:
                kw = same_shape(rng, last[k][s])
            last[k][s] = kw
            ops.append([k, 'setup', s, kw])
            have[k].add(s)
            ready[k] = not mc
            continue
        if not ready[k] or (mc and rng.random() < .15):
            ops.append([k, 'weights', [int(rng.integers(10**6)), int(rng.choice([2, 10, 60]))]])
            ready[k] = True
            continue
        if rng.random() < .08:
            ops.append([k, 'clean'])
            have[k], ready[k] = set(), False
            continue
        ops.append([k, str(rng.choice(QUERIES[cls])), int(rng.integers(10**6))])
    return dict(cls=cls, ops=ops)


def same_shape(rng, kw):
    q = copy.deepcopy(kw)
    f = float(rng.uniform(.6, .95))
    for k in q:
        if k in ('box', 'cube'):
            for i in range(0, len(q[k]), 3):
                q[k][i] *= f
                q[k][i + 1] *= f
        elif k in ('rmax', 'x_length', 'y_length', 'display', 'alpha_max', 'radius'):
            q[k] = q[k] * (1. + (1. - f) * .3) if k in ('rmax', 'radius') else (q[k] * f if k != 'alpha_max' else q['alpha_min'] + (q[k] - q['alpha_min']) * f)
        elif k in ('center', 'camera'):
            q[k] = [x + .01 if x < 3.1 else x - .01 for x in q[k]]
    return q


@gen('C33')
def g33(rng, tier):
    for _ in range(25 if tier == 'quick' else 600):
        for cls in QUERIES:
            yield 'history', sequence(rng, cls, 14 if tier == 'quick' else int(rng.integers(8, 40)))
