"""Runs the check of each seeded bug in a scratch copy and records which obligations fail -> tools/bugresults.json
usage: runbugs.py [ids]"""
import sys, os, json, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
OUT = os.path.join(V, 'tools', 'bugresults.json')


def one(b):
    d = tempfile.mkdtemp(prefix='rb-')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(S, b, 'patch.diff')], check=True)
        pid = json.load(open(os.path.join(S, b, 'meta.json')))['property']
        env = dict(os.environ, PYVC_REPO=d + '/repo', PYVC_EVID=d + '/ev', PYVC_PROCS='3')
        r = subprocess.run([os.path.join(V, 'run.sh'), pid], capture_output=True, text=True, env=env, timeout=1200)
        f = re.findall(r'failed obligation: (.*?) :: (.*) \((.*?)\)$', r.stdout, re.M)
        return b, dict(property=pid, rc=r.returncode, failed=sorted({'%s: %s' % (x[0], x[1].split(' (')[0]) for x in f})[:3], how=sorted({x[2] for x in f}))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ids = sys.argv[1:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(2) as ex:
        for b, r in ex.map(one, ids):
            res[b] = r
            print(b, r, flush=True)
            json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
