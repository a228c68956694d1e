"""Confirms planted bugs in a scratch copy: patch applies, builds, stable tests pass, demo 0 -> nonzero.
With --checks also runs the check of the seed's property against the patched copy.
usage: python3 tools/seedtest.py [--checks] [--all-checks C01,C02] ID..."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PATH='/opt/venv/bin:' + os.environ['PATH'])


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    checks = '--checks' in args
    extra = [a[9:].split(',') for a in args if a.startswith('--props=')]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='seed.')
        try:
            repo = w + '/repo'
            sh('cp -a /repo %s' % repo, '/')
            sh('sed s@/repo@%s@g /opt/vp/build_ext.py > %s/be.py' % (repo, w), '/')
            env = dict(ENV, PYTHONPATH=repo)
            c0, o0 = sh('bash %s/demo.sh' % d, repo, env, 300)
            c, o = sh('git apply %s/patch.diff' % d, repo)
            if c:
                print(i, 'PATCH FAILS', o); continue
            c, o = sh('/opt/venv/bin/python %s/be.py' % w, repo, env)
            if c:
                print(i, 'BUILD FAILS', o[-500:]); continue
            ct, ot = sh('/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -5', repo, env)
            c1, o1 = sh('bash %s/demo.sh' % d, repo, env, 300)
            ok = c0 == 0 and c1 != 0
            print(i, 'ok' if ok else 'BAD', 'demo %d->%d' % (c0, c1), '| tests:', ot.strip().splitlines()[-1], '|', (o1.strip().splitlines() or [''])[-1][:100], flush=True)
            if not ok:
                print(o0[-600:], o1[-600:])
            if checks or extra:
                for p in ([meta['property']] if not extra else extra[0]):
                    e = dict(ENV, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
                    cc, oo = sh('python3 check.py %s' % p, V, e)
                    print('   ', p, 'CAUGHT' if cc == 1 and 'VIOLATION property=%s' % p in oo else 'MISSED rc=%d' % cc, [l for l in oo.splitlines() if 'VIOLATION' in l][:2], flush=True)
                    if cc not in (0, 1):
                        print(oo[-800:])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
