"""Proves the contracts of one property from the present source of the package.

Usage: python3-vt prove.py C07 --repo /repo --out FILE [--tier quick|thorough] [--seed 1] [--only NAME] [-v]
"""
import argparse
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
import z3
from vc import core as K
from vc import frames
from vc import solve, verify, interp, npf
from vc.core import Unsupported

MODULES = ['k_coords', 'k_grids', 'k_pixel', 'k_index', 'k_neigh', 'k_shapes', 'k_oned', 'k_randoms', 'k_radial', 'k_remap', 'k_conserve', 'k_rot', 'k_dense', 'k_mc', 'k_pov', 'k_hist', 'k_fort']


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            importlib.import_module('vc.' + m)


def run_task(t, repo, opt):
    props, name, fn, kw = t
    t0 = time.time()
    out = dict(name=name, total=0, discharged=0, by_solver={}, solver_s=0., covers=0, failed=[], undecided=[], names=[], functions=[], inlined=[],
               lemmas=[], externals=[], error='', gen_s=0., stubs=[])
    prog = interp.Program(repo)
    v = verify.V(prog, name)
    frame = opt.prop == 'C13'
    if frame:
        prog.watch = frames.Watch(prog, v.ctx)
    try:
        fn(v)
    except Unsupported as e:
        w = v.ctx.where
        out['undecided'].append('%s: not within the verifier\'s reach: %s (%s)' % (name, e, '%s:%s' % w if w else ''))
        if opt.v:
            traceback.print_exc()
    except K.Infeasible:
        out['error'] = '%s: the precondition is contradictory' % name
    except Exception as e:
        w = v.ctx.where
        out['undecided'].append('%s: the verifier could not execute it: %s %s (%s)' % (name, type(e).__name__, e, '%s:%s' % w if w else ''))
        if opt.v:
            traceback.print_exc()
    if frame:
        v.ctx.obls[:] = [o for o in v.ctx.obls if o.kind == 'frame']
    elif v.ctx.obls and not any(o.kind == 'cover' for o in v.ctx.obls):
        # (the premises of a lemma do not contradict each other)
        v.ctx.oblige('the end of the proof is reached', K.mk(z3.BoolVal(False)), 'cover')
    out['gen_s'] = round(time.time() - t0, 2)
    c = v.ctx
    obls = c.obls
    for o in obls:
        if o.kind == 'cover':
            o.limit = 1.5
            o.stages = [('z3', 1.)]
    limit = opt.limit or kw.get('limit', 20.) * (3. if opt.tier == 'thorough' else 1.)
    res = solve.discharge(c, obls, limit=limit, jobs=kw.get('jobs', opt.jobs), seed=opt.seed, deadline=opt.deadline, verbose=opt.v)
    # once more, with another seed, for those that were not decided (the machine may have been busy)
    late = [k for k, o in enumerate(obls) if o.kind != 'cover' and res[k][0] == 'unknown' and not z3.is_true(o.goal)]
    if late and len(late) <= 12 and time.time() + 90 < opt.deadline:
        r2 = solve.discharge(c, [obls[k] for k in late], limit=limit, jobs=kw.get('jobs', opt.jobs), seed=opt.seed + 1, deadline=opt.deadline, verbose=opt.v)
        for k, x in zip(late, r2):
            if x[0] == 'proved':
                res[k] = x
    # a step of the proof that does not go through is not believed: what rests on it is proved again without it
    fixed, dropped = {}, set()
    # neither are counter-models when the code no longer has a place this proof is annotated at
    stray = sorted('.'.join(k) if isinstance(k, tuple) else k for k, met in v.script.items() if not met)
    weak = False
    out['stray'] = stray
    if stray:
        res = [('unknown',) + tuple(x[1:]) if x[0] == 'sat' else x for x in res]
    for _ in range(4):
        bad = [k for k, o in enumerate(obls) if o.lemma and res[k][0] != 'proved' and k not in fixed]
        if not bad:
            break
        for k in bad:
            fixed[k] = res[k]
            dropped |= set(obls[k].gives)
            weak = weak or (res[k][0] == 'sat' and not getattr(obls[k], 'cut', False))
        ids = [f.get_id() for f in c.facts]
        first = min([n for n, i in enumerate(ids) if i in dropped] or [len(ids)])
        again = [k for k, o in enumerate(obls) if o.kind != 'cover' and not o.pure and o.nf > first and k not in fixed and not z3.is_true(o.goal)]
        if not again:
            break
        r2 = solve.discharge(c, [obls[k] for k in again], limit=limit, jobs=kw.get('jobs', opt.jobs), seed=opt.seed, deadline=opt.deadline, verbose=opt.v, dropped=dropped)
        for k, x in zip(again, r2):
            if x[0] == 'sat' and (stray or res[k][0] != 'sat' and not weak):
                x = ('unknown',) + tuple(x[1:])
            res[k] = x
    reached = ncov = 0
    for o, (st, sv, info, secs) in zip(obls, res):
        out['solver_s'] += secs
        if o.kind == 'cover':
            ncov += 1
            if st != 'proved':
                reached += 1
            continue
        out['total'] += 1
        out['names'].append(o.name)
        if st == 'proved':
            out['discharged'] += 1
            out['by_solver'][sv] = out['by_solver'].get(sv, 0) + 1
        elif st == 'sat' and not o.lemma:
            f = dict(name='%s: %s' % (name, o.name), goal=str(o.goal)[:1500], status='counter-model', model={k: str(x) for k, x in list(info.items())[:60]},
                     candidates=[])
            if getattr(o, 'cand', None) is not None:
                try:
                    f['candidates'] = o.cand(Model(info))
                except Exception as e:
                    f['candidate_error'] = '%s %s' % (type(e).__name__, e)
            out['failed'].append(f)
        else:
            out['undecided'].append('%s: %s: %s' % (name, 'a step of the proof fails' if st == 'sat' else 'obligation not decided within the limit', o.name))
            if opt.v:
                print('   ', st, str(o.goal)[:900], '||', str(o.hyps)[:900] if o.pure else '')
                if getattr(o, 'ring', None) is not None:
                    from vc import ring
                    print('    rest', str(ring.certificate(o.goal, list(o.hyps), o.ring)[1])[:500])
    if stray and opt.v:
        print('    the code no longer has:', stray)
    out['covers'] = reached
    if ncov and not reached and not out['undecided'] and not out['failed']:
        out['error'] = '%s: no path reaches the postcondition (vacuous)' % name
    if frame:
        v.functions = set(prog.watch.checked)
        out['error'] = ''
    elif out['total'] == 0 and not out['undecided']:
        out['error'] = '%s: no obligations' % name
    out['functions'] = sorted(v.functions)
    out['inlined'] = sorted(c.inlined - v.functions)
    out['stubs'] = sorted(c.used_stubs)
    out['lemmas'] = sorted(set(v.lemmas)) if not frame else []
    out['externals'] = sorted(c.externals)
    out['wall'] = round(time.time() - t0, 2)
    return out


class Model(object):
    def __init__(self, d):
        self.d = d

    def __call__(self, name, default=0.):
        v = self.d.get(name)
        if v is None:
            return default
        v = v.rstrip('?')
        if '/' in v:
            a, b = v.split('/')
            return float(a) / float(b)
        return float(v) if ('.' in v or 'e' in v) else int(v)


ASSUMPTIONS = [
    'real numbers are mathematical reals (rounding, overflow and NaN propagation beyond "undefined" are not modelled) and integers are unbounded',
    'the semantics of the Python subset, of numpy, scipy and healpy functions are those of vc/interp.py, vc/arr.py and vc/npf.py',
    'Fortran: integers do not overflow 32 bits, the single precision conversion real(n) is exact (n up to 2**24), arguments do not overlap; f2py passes arguments by name and converts as declared',
    'the compiled kernels run are those built from the .f90 sources read (the build system is trusted)',
    'dropped on extraction: printing, progress bars, doc strings, type annotations',
    'sin, cos, arccos, arcsin, arctan2, sqrt, floor, log10 are known by the axioms in vc/solve.py, and sin and cos by their addition theorems',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--par', type=int, default=6)
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    opt = ap.parse_args()
    t0 = time.time()
    budget = 420 if opt.tier == 'quick' else 700
    opt.deadline = t0 + budget
    load()
    tasks = [t for t in verify.TASKS if (opt.prop in t[0] or opt.prop == 'C13' and set(t[0]) - {'C03', 'C04'} and not t[1].startswith('remap_')) and (not opt.only or opt.only in t[1])]
    total = dict(total=0, discharged=0, by_solver={}, solver_s=0., covers=0, failed=[], undecided=[], names=[], functions=set(), inlined=set(), lemmas=[],
                 externals=set(), error='', stubs=set(), tasks=[])
    running = {}
    queue = sorted(tasks, key=lambda t: -t[3].get('jobs', 0))
    results = []
    while queue or running:
        while queue and len(running) < opt.par:
            t = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    o = run_task(t, opt.repo, opt)
                except BaseException as e:
                    o = dict(name=t[1], error='', undecided=['%s: the verifier failed: %s %s' % (t[1], type(e).__name__, e)])
                    if opt.v:
                        traceback.print_exc()
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(o))
                os._exit(0)
            os.close(w)
            running[r] = [t, pid, b'']
        ready, _, _ = select.select(list(running), [], [], 1.)
        late = time.time() > opt.deadline + 60
        for fd in list(running):
            t, pid, buf = running[fd]
            if fd in ready:
                d = os.read(fd, 1 << 16)
                if d:
                    running[fd][2] = buf + d
                    continue
                os.waitpid(pid, 0)
            elif late:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
            else:
                continue
            os.close(fd)
            del running[fd]
            try:
                o = pickle.loads(buf)
            except Exception:
                o = dict(name=t[1], undecided=['%s: no answer within the time' % t[1]])
            results.append(o)
            if opt.v:
                print('%s: %d/%d discharged, %d failed, %d undecided, gen %.1fs, wall %.1fs %s' % (
                    o['name'], o.get('discharged', 0), o.get('total', 0), len(o.get('failed', [])), len(o.get('undecided', [])), o.get('gen_s', 0), o.get('wall', 0),
                    o.get('error', '')), flush=True)
    order = dict((t[1], k) for k, t in enumerate(tasks))
    results.sort(key=lambda o: order[o['name']])
    for o in results:
        for k in ('total', 'discharged', 'solver_s', 'covers'):
            total[k] += o.get(k, 0)
        for k, n in o.get('by_solver', {}).items():
            total['by_solver'][k] = total['by_solver'].get(k, 0) + n
        for k in ('failed', 'undecided', 'names', 'lemmas'):
            total[k].extend(o.get(k, []))
        for k in ('functions', 'inlined', 'externals', 'stubs'):
            total[k] |= set(o.get(k, []))
        if o.get('error'):
            total['error'] = (total['error'] + '; ' + o['error']).strip('; ')
        total['tasks'].append(dict(name=o['name'], total=o.get('total', 0), discharged=o.get('discharged', 0), wall=o.get('wall', 0)))
    total['names'] = sorted(set(total['names']))
    total['functions'] = sorted(total['functions'])
    total['inlined'] = sorted(total['inlined'] - set(total['functions']))
    total['contracts_used'] = sorted(total.pop('stubs'))
    ext = sorted(total.pop('externals'))
    total['trusted'] = ['%s (assumed contract)' % e for e in ext] + ['the verification-condition generator /verif/vc', 'z3 %s' % z3.get_version_string(), 'cvc5']
    total['assumptions'] = ASSUMPTIONS
    total['solver_s'] = round(total['solver_s'], 2)
    total['wall'] = round(time.time() - t0, 2)
    if opt.out:
        with open(opt.out, 'w') as f:
            json.dump(total, f, indent=1, default=str)
    if opt.v or not opt.out:
        for f in total['failed']:
            print('FAILED', f['name'], '\n   ', f['goal'][:700], '\n   ', str(f.get('model'))[:900])
        for u in total['undecided']:
            print('UNDECIDED', u)
        print('%s: %d/%d discharged, %d failed, %d undecided, covers %d, %.1fs %s' % (
            opt.prop, total['discharged'], total['total'], len(total['failed']), len(total['undecided']), total['covers'], total['wall'], total['error']))


if __name__ == '__main__':
    main()
