"""Writes /verif/MANIFEST.json from properties.jsonl and the table of what is proved."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(H, 'tools'))
from levels import LEVELS
checks = []
for p in props:
    i = p['id']
    lv = LEVELS.get(i, {})
    level = lv.get('level', 'other')
    note = lv.get('note', 'run-time contracts on the real functions over generated inputs (bounded stand-in for the deductive proof)')
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=lv.get('technique', 'contracts on the real functions, obligations generated from the current source and discharged by z3/cvc5; bounded run-time contract cross-check'),
                       level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[], notes='See DESIGN.md.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
