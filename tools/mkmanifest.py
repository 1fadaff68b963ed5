"""Writes MANIFEST.json from the registered contracts (+ notes below)."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc import concrete_load
cs = concrete_load.load_contracts(None)
LEVEL_OTHER = {}
NA = {}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    mine = [c for c in cs if c['pid'] == i]
    if i in NA or not mine:
        na.append(dict(property=i, reason=NA.get(i, 'no contract yet (under construction)')))
        continue
    bnd = ['%s: %s' % (c['name'], c['bound']) for c in mine if c['bound'] and not c['supplement']]
    if bnd:
        LEVEL_OTHER[i] = (LEVEL_OTHER.get(i, '') + ' Obligations are discharged for all values but within a structural bound in: ' + '; '.join(bnd) + '.').strip()
    checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                       technique='contract-based deductive verification: pre/postconditions and loop invariants on the extracted source, obligations discharged by z3',
                       level='other' if i in LEVEL_OTHER else 'proof',
                       level_note=(NOTE.get(i, '') + ' Trusted: pyvc VC generator, numpy/scipy facade, z3; reals for floats. ' + LEVEL_OTHER.get(i, '')).strip()))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Every check re-extracts the functions under contract from /repo/src on each run (pyvc/load.py). See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
