#!/usr/bin/env python3
"""Evaluates the cases of a replay file on /repo's current tree: replay.py FILE"""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

body = json.load(open(sys.argv[1]))
c = check.Check(body['property'], 'quick', 1)
try:
    rc, text = check.finish(check.start([check.PY, os.path.join(check.HERE, 'rt', 'build.py'), check.REPO, c.pkg,
                                         'yes' if c.prop in check.FORTRAN else 'no', check.FORTRAN.get(c.prop, '')]), 600)
    fails = c.reproduce(body.get('cases', []))
    for f in fails:
        print('%s: %s' % (f['contract'], f['message']))
    print('%d of %d cases fail' % (len(fails), len(body.get('cases', []))))
    for o in body.get('failed_obligations', []):
        print('obligation', o.get('name'), o.get('status', ''))
finally:
    shutil.rmtree(c.work, ignore_errors=True)
sys.exit(1 if fails else 0)
