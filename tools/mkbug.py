"""Writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from an edit description (tools/bugs/*.py) and tests it in a scratch copy."""
import sys, os, json, difflib, subprocess, shutil, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\nD="$(cd "$(dirname "$0")" && pwd)"\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\ncd "$W"\n/opt/venv/bin/python "$D/demo.py"\n'


def load():
    d, out = os.path.join(V, 'tools', 'bugs'), {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for b in m.BUGS:
                out[b['id']] = b
    return out


def write(b):
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    diff = ''
    new = {}
    for fn, old, rep in b['edits']:
        p = 'src/quocslib/' + fn
        src = new.get(p) or open(os.path.join(REPO, p)).read()
        assert src.count(old) == 1, (b['id'], fn, src.count(old), old)
        new[p] = src.replace(old, rep)
    for p, s in new.items():
        a = open(os.path.join(REPO, p)).read()
        diff += ''.join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), 'a/' + p, 'b/' + p))
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def test(b, d, tests=True):
    S = tempfile.mkdtemp(prefix='seed-')
    out = dict(id=b['id'])
    try:
        R = os.path.join(S, 'repo')
        subprocess.run(['cp', '-a', REPO, R], check=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONPATH=R + '/src')
        demo = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=R, env=env, capture_output=True, text=True, timeout=300)
        r = demo()
        out['demo_clean'] = r.returncode
        if r.returncode:
            out['clean_out'] = (r.stdout + r.stderr)[-600:]
        p = subprocess.run(['git', '-C', R, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        out['apply'] = p.returncode or 0
        r = demo()
        out['demo_bug'] = r.returncode
        out['bug_out'] = (r.stdout + r.stderr)[-160:]
        if tests:
            e2 = dict(env, PYTHONPATH=R + '/src:/opt/vp/lib')
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_isolate', '--timeout=300', '-n', '4', '--dist', 'loadfile',
                            '--basetemp=' + S + '/tmp', '-o', 'junit_family=xunit2', '--junitxml=' + S + '/j.xml'], cwd=R, env=e2, capture_output=True, text=True)
            subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', S + '/o.json', 'junit:' + S + '/j.xml'], capture_output=True)
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            o = json.load(open(S + '/o.json'))
            ok = set(o.get('passed', [])) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v in ('passed', 'pass', True)}
            out['stable_missing'] = [t for t in st if t not in ok][:5]
            out['stable_pass'] = len([t for t in st if t in ok])
        e3 = dict(os.environ, PYVC_REPO=R, VERIF_SEED='1', PYVC_EVID=S + '/ev')
        r = subprocess.run([os.path.join(V, 'run.sh'), b['property']], env=e3, capture_output=True, text=True, cwd=V)
        out['check'] = r.returncode
        out['check_out'] = r.stdout[-700:]
    finally:
        shutil.rmtree(S, ignore_errors=True)
    return out


if __name__ == '__main__':
    B = load()
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(B)
    for i in ids:
        d = write(B[i])
        r = test(B[i], d, '--notests' not in sys.argv)
        good = r['demo_clean'] == 0 and r['demo_bug'] != 0 and not r.get('stable_missing')
        print('%-28s %s %s  clean=%s bug=%s stable=%s  check=%s' % (i, 'VALID' if good else 'INVALID', 'CAUGHT' if r['check'] == 1 else 'missed', r['demo_clean'], r['demo_bug'], r.get('stable_pass'), r['check']))
        if not good or r['check'] != 1 or '-v' in sys.argv:
            print('   ', json.dumps({k: v for k, v in r.items() if k not in ('id',)}, indent=1))
        else:
            print('   ', r['check_out'].strip().splitlines()[-2:])
        sys.stdout.flush()
