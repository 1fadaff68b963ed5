"""debug: run one contract symbolically in this process: sym1.py PID NAME"""
import sys, json, os
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
os.environ['PYVC_TRACE'] = '1'
from pyvc import concrete_load, symrun
cs = concrete_load.load_contracts(sys.argv[1])
for c in cs:
    if len(sys.argv) > 2 and c['name'] != sys.argv[2]: continue
    r = symrun.run_contract(c, int(os.environ.get('PYVC_SECONDS', 120)))
    for k in ('modules', 'functions', 'assumes', 'names'): r.pop(k, None)
    print(json.dumps(r, indent=1, default=str)[:6000])
