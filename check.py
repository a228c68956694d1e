#!/usr/bin/env python3
"""Decides one property of /repo's current tree.

  check.py C07 [--tier quick|thorough]

1. The verifier (vc/) reads the functions under contract from /repo, generates their proof obligations
   and discharges them.
2. The run-time contracts (rt/) of the same property are evaluated on a scratch copy of the package: a
   bounded cross-check, the only check of the functions that the verifier does not reach, and the source
   of the failing input of an obligation that does not go through.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
FORTRAN = {'C01': '', 'C02': '', 'C03': '', 'C04': '-O1 -fcheck=all', 'C13': ''}
BUDGET = {'quick': 40., 'thorough': 600.}


def load_findings():
    known = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('known:'):
                d = dict(w.split('=', 1) for w in line.split()[1:3])
                known[(d['property'], d['key'])] = line.split(None, 3)[3].strip()
    return known


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8')
    e.pop('PYTHONPATH', None)
    e['PATH'] = '/opt/venv/bin:' + e.get('PATH', '')
    return e


def start(cmd, **k):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), start_new_session=True, text=True,
                            errors='replace', **k)


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def read(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.pkg = os.path.join(self.work, 'pkg')
        os.mkdir(self.pkg)
        self.lines = []

    def rt(self, tag, replay=None, budget=None, seed=None, wait=True):
        out = os.path.join(self.work, tag + '.json')
        cur = os.path.join(self.work, tag + '.cur')
        b = budget or BUDGET[self.tier]
        cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'rt', 'run.py'), '--pkg', self.pkg, '--prop', self.prop, '--seed',
               str(self.seed if seed is None else seed), '--tier', self.tier, '--budget', str(b), '--out', out, '--crash', cur]
        if replay:
            cmd += ['--replay', replay]
        return dict(p=start(cmd, cwd=self.work), out=out, cur=cur, limit=b * 2 + 120)

    def rt_result(self, h):
        """the result, with a crash or a hang turned into a failure of the case that was running"""
        rc, text = finish(h['p'], h['limit'])
        r = read(h['out'])
        if rc == 0 and r is not None:
            return r
        cur = read(h['cur'])
        if cur is None:
            return dict(error='run-time contracts did not start: %s' % text[-1500:])
        how = 'did not return' if rc is None else ('died with signal %d' % -rc if rc < 0 else 'ended the process (%d): %s' % (rc, text[-600:]))
        if rc is not None and rc > 0 and 'Traceback' in text and 'Fortran' not in text:
            return dict(error='run-time contracts failed: %s' % text[-1500:])
        c = cur[0]
        return dict(evaluations=1, distinct=1, failures=[dict(contract=c['contract'], args=c['args'], message=how)], samples=[], contracts={},
                    complete=False, known={}, crashed=True)

    def reproduce(self, fails):
        """evaluates a failing case again in a process of its own"""
        good = []
        for k, f in enumerate(fails):
            path = os.path.join(self.work, 'again%d.json' % k)
            with open(path, 'w') as g:
                json.dump([dict(contract=f['contract'], args=f['args'])], g)
            shutil.copy(path, os.path.join(self.work, 'again%d.cur' % k))
            r = self.rt_result(self.rt('again%d' % k, replay=path, budget=20))
            if r.get('failures'):
                good.append(dict(f, message=r['failures'][0]['message']))
        return good

    def write_replay(self, body):
        d = os.path.join(HERE, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % self.prop)
        with open(path, 'w') as f:
            json.dump(body, f, indent=1, default=str)
        return path

    def run(self):
        prop = self.prop
        known = load_findings()
        fort = 'yes' if prop in FORTRAN else 'no'
        # the verifier reads /repo itself; it runs while the scratch copy is built
        proof_out = os.path.join(self.work, 'proof.json')
        proof = None
        if os.path.exists(os.path.join(HERE, 'vc', 'prove.py')):
            proof = start([VT, os.path.join(HERE, 'vc', 'prove.py'), prop, '--repo', REPO, '--out', proof_out, '--tier', self.tier, '--seed', str(self.seed)],
                          cwd=self.work)
        rc, text = finish(start([PY, os.path.join(HERE, 'rt', 'build.py'), REPO, self.pkg, fort, FORTRAN.get(prop, '')], cwd=self.work), 600)
        if rc != 0:
            print('the package does not build: %s' % text[-2000:])
            return 2
        r = self.rt_result(self.rt('rt'))
        if 'error' in r:
            # the package does not even import, or the contracts can not run on it
            print(r['error'])
            body = dict(property=prop, error=r['error'])
            if 'Broken' in r['error'] or 'import' in r['error'] or 'magpie' in r['error']:
                return self.violation(self.write_replay(body), '', r, None, ' no-failing-input-found')
            return 2
        P = None
        if proof is not None:
            rc, text = finish(proof, 780)
            P = read(proof_out)
            if P is None:
                P = dict(error='the verifier %s: %s' % ('ran out of time' if rc is None else 'ended with %s' % rc, text[-1500:]),
                         obligations=[], functions=[], undecided=[])
                print(P['error'])
        fails = self.reproduce(r['failures'][:4]) if r['failures'] else []
        failed = (P or {}).get('failed', [])
        if not fails and failed:
            # look for an input: the model of the verifier first, then other seeds
            cand = [c for o in failed for c in o.get('candidates', [])]
            if cand:
                path = os.path.join(self.work, 'cand.json')
                with open(path, 'w') as f:
                    json.dump(cand, f)
                fails = self.reproduce(self.rt_result(self.rt('cand', replay=path)).get('failures', [])[:2])
            for k in range(1, 4):
                if fails:
                    break
                q = self.rt_result(self.rt('more%d' % k, seed=self.seed + 1000 * k))
                r['evaluations'] += q.get('evaluations', 0)
                fails = self.reproduce(q.get('failures', [])[:2])
        for k, text in sorted((r.get('known') or {}).items()):
            if (prop, k) in known:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, k)]))
            else:
                fails.append(dict(contract=k, args={}, message='deviation not listed in known_findings.txt: ' + text))
        if fails:
            body = dict(property=prop, how='python3 /verif/replay.py <this file> evaluates the cases on /repo', cases=fails,
                        failed_obligations=[{k: o[k] for k in ('name', 'goal', 'status') if k in o} for o in failed])
            for f in fails[:3]:
                print('%s: %s' % (f['contract'], f['message'][:600]))
            for o in failed[:5]:
                print('failed obligation %s' % o['name'])
            return self.violation(self.write_replay(body), '', r, P, '')
        if failed:
            body = dict(property=prop, failed_obligations=failed, note='no input was found on which the run-time contracts fail')
            for o in failed[:5]:
                print('failed obligation %s: %s' % (o['name'], o.get('goal', '')[:600]))
            return self.violation(self.write_replay(body), '', r, P, ' no-failing-input-found')
        self.evidence(r, P, 0)
        if P:
            print('%s: %d obligations, %d discharged, %d functions; %d run-time evaluations' % (
                prop, P.get('total', 0), P.get('discharged', 0), len(P.get('functions', [])), r['evaluations']))
            for u in P.get('undecided', []):
                print('bounded stand-in: %s' % u)
        else:
            print('%s: %d run-time evaluations' % (prop, r['evaluations']))
        return 0

    def violation(self, path, text, r, P, tail):
        self.evidence(r, P, 1)
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, tail))
        return 1

    def evidence(self, r, P, violations):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        man = read(os.path.join(HERE, 'MANIFEST.json')) or {'checks': []}
        level = [c['level'] for c in man['checks'] if c['property'] == self.prop] or ['other']
        level = level[0]
        cov = dict(runtime_contract_evaluations=r.get('evaluations', 0), runtime_distinct=r.get('distinct', 0), runtime_contracts=r.get('contracts', {}),
                   runtime_complete=r.get('complete', False), runtime_note='bounded cross-check on the real package, not counted as proved')
        ass = []
        if P is not None:
            cov.update(obligations=P.get('total', 0), discharged=P.get('discharged', 0), by_solver=P.get('by_solver', {}), solver_s=P.get('solver_s', 0),
                       functions_under_contract=P.get('functions', []), inlined_helpers=P.get('inlined', []), lemmas=P.get('lemmas', []),
                       bounded_stand_ins=P.get('undecided', []), vacuity_checks=P.get('covers', 0), error=P.get('error', ''),
                       checker_cmd='python3-vt /verif/vc/prove.py %s --repo /repo --out /tmp/proof.json' % self.prop,
                       trusted_base=P.get('trusted', []), obligation_names=P.get('names', [])[:400])
            ass = P.get('assumptions', [])
        if level == 'exploration' or level == 'other':
            cov.update(evaluations=r.get('evaluations', 0), distinct_nontrivial=r.get('distinct', 0),
                       rule='cases are distinct when contract and arguments differ; generators in rt/c_*.py choose special positions and seeded random ones',
                       samples=r.get('samples', []))
            cov['explanation'] = ('proof obligations from the real source where the verifier reaches it (counts above), and run-time contracts '
                                  'evaluated on the real package: bounded')
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=ass,
                 wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(e, f, indent=1, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    c = Check(a.prop, a.tier if a.tier in BUDGET else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
