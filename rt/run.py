"""Runs the run-time contracts of a property, or evaluates given candidate inputs, on the package in --pkg.

Usage: run.py --pkg DIR --prop C07 --seed 1 --tier quick --budget 30 --out FILE [--replay FILE]
"""
import argparse
import copy
import hashlib
import io
import json
import os
import sys
import time
import traceback
import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base


KNOWN = {}
PASSES = 8   # of the generators, with other seeds, in the quick tier


def evaluate(name, args):
    """None when the contract holds, otherwise a text"""
    f = base.CONTRACTS[name]
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        f(args)
        return None
    except base.Known as e:
        KNOWN[e.key] = str(e)
        return None
    except base.Broken as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [t for t in tb if 'magpie' in t.filename]
        w = where[-1] if where else tb[-1]
        return 'raised %s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(w.filename), w.lineno)
    finally:
        sys.stdout = old


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--pkg', required=True)
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=30.)
    ap.add_argument('--out', required=True)
    ap.add_argument('--replay')
    ap.add_argument('--crash')
    a = ap.parse_args()
    base.load(a.pkg)
    import c_remap, c_oned, c_coords, c_grids, c_pixel, c_randoms, c_dense, c_mc, c_radial, c_purity, c_history
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, failures=[], samples=[], contracts={}, complete=True)
    if a.replay:
        for c in json.load(open(a.replay)):
            msg = evaluate(c['contract'], base.unjson(c['args']))
            res['evaluations'] += 1
            if msg is not None:
                res['failures'].append(dict(contract=c['contract'], args=c['args'], message=msg))
        json.dump(res, open(a.out, 'w'))
        return
    seen = set()
    nontriv = 0
    fails = {}
    gens = base.GENERATORS.get(a.prop, [])
    work = [(k, gi, g) for k in range(PASSES if a.tier == 'quick' else 1) for gi, g in enumerate(gens)]
    for k, gi, g in work:
        if k and (fails or time.time() - t0 > a.budget * .3):
            break
        rng = np.random.Generator(np.random.PCG64([a.seed, gi, int(a.prop[1:])] + [k] * (k > 0)))
        lay = np.random.Generator(np.random.PCG64([a.seed, gi, 77 + k]))
        end = time.time() + max(3., (t0 + a.budget - time.time()) / (len(gens) - gi)) if k == 0 else t0 + a.budget * .5
        for name, args in g(rng, a.tier):
            key = hashlib.md5(json.dumps([name, base.jsonable(args)], sort_keys=True, default=str).encode()).digest()
            if key not in seen:
                seen.add(key)
            args = base.relayout(args, lay)
            st = base.jsonable(args) if len(res['samples']) < 3 else None
            saved = copy.deepcopy(args)
            if a.crash:
                # what to blame when the process does not survive this case
                with open(a.crash, 'w') as f:
                    json.dump([dict(contract=name, args=base.jsonable(args))], f)
            msg = evaluate(name, args)
            res['evaluations'] += 1
            res['contracts'][name] = res['contracts'].get(name, 0) + 1
            if st is not None:
                s = json.dumps(dict(contract=name, args=st), default=str)
                res['samples'].append(s[:600])
            if msg is not None:
                fails.setdefault(name, 0)
                fails[name] += 1
                if fails[name] <= 3:
                    res['failures'].append(dict(contract=name, args=base.jsonable(saved), message=msg))
                if fails[name] >= 3 and len(fails) >= 1:
                    break
            if time.time() > end:
                res['complete'] = res['complete'] and k > 0
                break
    res['distinct'] = len(seen)
    res['known'] = KNOWN
    res['wall_s'] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, 'w'), default=str)


if __name__ == '__main__':
    main()
