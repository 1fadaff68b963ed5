"""Check driver: python3-vt -m pyvc.run <property> [--tier quick|thorough]"""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
VENV = os.environ.get('PYVC_VENV_PY', '/opt/venv/bin/python')


def sym_worker(pid, name, seconds, tier, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from pyvc import concrete_load
        cs = concrete_load.load_contracts(pid)
        c = [c for c in cs if c['name'] == name][0]
        from pyvc import symrun
        import tempfile
        with tempfile.TemporaryDirectory(prefix='pyvc-sym-') as d:
            os.chdir(d)
            try:
                r = symrun.run_contract(c, seconds, tier)
            finally:
                os.chdir('/')
    except BaseException as ex:     # noqa
        r = dict(contract=name, pid=pid, crash='%s: %s' % (type(ex).__name__, ex), trace=traceback.format_exc()[-1500:])
    q.put(json.dumps(r, default=str))


def run_symbolic(pid, cs, seconds, tier):
    ctx = mp.get_context('fork')
    todo = [c for c in cs if c['symbolic']]
    running, results = [], []
    total_deadline = time.time() + seconds * 1.6
    while todo or running:
        while todo and len(running) < int(os.environ.get('PYVC_PROCS', '7')):
            c = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=sym_worker, args=(pid, c['name'], min(seconds, c['timeout'] or seconds), tier, q))
            p.start()
            running.append((c, p, q, time.time()))
        time.sleep(0.02)
        for item in list(running):
            c, p, q, ts = item
            got = None
            if not q.empty():
                got = json.loads(q.get())
                p.join(5)
            elif not p.is_alive():
                time.sleep(0.1)
                got = json.loads(q.get()) if not q.empty() else dict(contract=c['name'], pid=pid, crash='worker died')
            elif time.time() - ts > seconds + 40 or time.time() > total_deadline + 40:
                got = dict(contract=c['name'], pid=pid, crash='timeout')
            if got is not None:
                if p.is_alive():
                    p.kill()
                running.remove(item)
                results.append(got)
    order = {c['name']: i for i, c in enumerate(cs)}
    return sorted(results, key=lambda r: order[r['contract']])


class Concrete:
    """the sampled run, in its own process (started before the provers are forked: no threads here)"""

    def __init__(self, pid, seed, seconds, replays, factor, only=None):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYVC_REPO=REPO)
        env.pop('PYTHONPATH', None)
        import tempfile
        self.dir = tempfile.TemporaryDirectory(prefix='pyvc-run-')
        self.logs = tempfile.TemporaryDirectory(prefix='pyvc-out-')
        f = lambda n: os.path.join(self.logs.name, n)
        json.dump(dict(pid=pid, seed=seed, seconds=seconds, replays=replays, factor=factor, only=only), open(f('in'), 'w'))
        self.f, self.deadline = f, time.time() + seconds + 150
        self.p = subprocess.Popen([VENV, os.path.join(VERIF, 'pyvc', 'concrete.py')], stdin=open(f('in')), stdout=open(f('out'), 'w'),
                                  stderr=open(f('err'), 'w'), env=env, cwd=self.dir.name, text=True, start_new_session=True)

    def result(self):
        try:
            self.p.wait(timeout=max(1.0, self.deadline - time.time()))
            late = False
        except subprocess.TimeoutExpired:
            late = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        o, e = open(self.f('out'), errors='replace').read(), open(self.f('err'), errors='replace').read()
        for d in (self.dir, self.logs):
            try:
                d.cleanup()
            except OSError:
                pass
        if late:
            return dict(error='timeout', stderr=e[-500:])
        k = o.rfind('@@RESULT@@')
        if k < 0:
            return dict(error='no result', stderr=(e or '')[-1500:])
        return json.loads(o[k + 10:].split('\n')[0])


def run_concrete(*a, **k):
    return Concrete(*a, **k).result()


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get('property') == pid and k.get('status') == 'known']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from pyvc import concrete_load
    cs = concrete_load.load_contracts(pid)
    if not cs:
        print('no contract registered for', pid)
        sys.exit(3)
    sec = 240 if tier == 'quick' else 1800
    csec = 45 if tier == 'quick' else 600
    if os.environ.get('PYVC_SECONDS'):
        sec = int(os.environ['PYVC_SECONDS'])
    # sampled run in parallel with the verifier
    sampled_run = Concrete(pid, seed, csec, [], 1 if tier == 'quick' else 20)
    symres = run_symbolic(pid, cs, sec, tier)
    conc = sampled_run.result()
    refuted = []
    for r in symres:
        for o in r.get('refuted', []):
            refuted.append((r['contract'], o))
    replays = []
    for cn, o in refuted[:12]:
        if o.get('model'):
            replays.append(dict(contract=cn, inputs=o['model']))
    rep = []
    if replays:
        rr = run_concrete(pid, seed, 0, replays, 0, only=['-'])
        rep = rr.get('replays', [])
    known = known_findings(pid)
    finds, violations = [], []
    for x in rep:
        if x.get('reproduced'):
            violations.append(x['reproduced'])
    for s in conc.get('sampled', []):
        if s.get('fail'):
            violations.append(s['fail'])
    proved_refuted = refuted and not violations
    if proved_refuted:
        # longer search for a failing input around the refuted contracts before reporting without one
        rr = run_concrete(pid, seed + 1000, 60, [], 8, only=sorted({c for c, _ in refuted}))
        for s in rr.get('sampled', []):
            if s.get('fail'):
                violations.append(s['fail'])
    def is_known(v):
        for k in known:
            if k.get('contract') == v.get('contract') and (k.get('failed') is None or str(v.get('failed', '')).startswith(k['failed'])):
                return k
        return None
    new = []
    for v in violations:
        k = is_known(v)
        if k:
            finds.append(k)
        else:
            new.append(v)
    unrep = []
    weak = []
    if not violations:
        for cn, o in refuted:
            if o.get('weak'):
                # the state of this path is over-approximated and the verifier's model does not replay: no verdict
                weak.append((cn, [o['name'] + ': refuted over ' + o['weak'] + ', not reproduced']))
                continue
            v = dict(contract=cn, failed=o['name'], goal=o.get('goal'), model=o.get('model'), decisions=o.get('decisions'), source='refuted obligation, no failing input found')
            k = is_known(v)
            if k:
                finds.append(k)
            else:
                unrep.append(v)
    # ------------------------------------------------------------------ evidence
    nob = sum(r.get('obligations', 0) for r in symres)
    dis = sum(r.get('discharged', 0) for r in symres)
    und = [(r['contract'], r.get('undecided') or r.get('unknown') or r.get('crash')) for r in symres if r.get('undecided') or r.get('unknown') or r.get('crash')]
    und += weak
    zero = [r['contract'] for r in symres if not r.get('crash') and r.get('obligations', 0) == 0]
    done = {r['contract'] for r in symres if complete(r)}
    proved = sorted({f for c in cs if c['name'] in done and not c['bound'] for f in c['functions']})
    within = {}
    for c in cs:
        if c['name'] in done and c['bound']:
            for f in c['functions']:
                if f not in proved:
                    within.setdefault(f, []).append('%s: %s' % (c['name'], c['bound']))
    bounded = sorted({f for c in cs if c['name'] not in done for f in c['functions']} - set(proved) - set(within))
    bounds = {c['name']: c['bound'] for c in cs if c['bound']}
    sampled = conc.get('sampled', [])
    full = nob > 0 and nob == dis and not und and not zero and not any(not c['symbolic'] for c in cs)
    level = 'proof' if nob > 0 and dis > 0 and not bounded and full and not any(c['bound'] and not c['supplement'] for c in cs) else 'other'
    assumes = sorted({a for c in cs for a in c['assumes']}) + [
        'floating-point arithmetic is treated as exact real arithmetic in the proofs (sampled runs use doubles)',
        'numpy/scipy/jax operations are replaced by the facade in pyvc/snp.py, pyvc/stubs.py',
        'opaque functions (sin, exp, erf, user callables) are only known to be functions, plus the listed lemmas']
    cov = dict(obligations=nob, discharged=dis, checker_cmd='python3-vt -m pyvc.run %s --tier %s' % (pid, tier),
               trusted_base=['z3 %s (back end of every obligation)' % z3v(), 'pyvc VC generator (pyvc/*.py)', 'CPython 3.12 semantics of the extracted code', 'numpy/scipy/jax facade'],
               explanation=('Contracts on the real functions, extracted from /repo on this run. %d obligations over %d contracts, %d discharged by z3; '
                            'contracts not fully discharged are backed by the bounded sampled run only. %s' % (nob, len(symres), dis,
                            'Contracts with a structural bound (all values, bounded shape): %s.' % '; '.join('%s (%s)' % b for b in sorted(bounds.items())) if bounds else 'No contract has a structural bound.')),
               functions_proved=proved, functions_proved_within_bound=within, functions_sampled_only=bounded, structural_bounds=bounds, solver_seconds=round(sum(r.get('solver_time', 0) for r in symres), 2),
               queries=sum(r.get('queries', 0) for r in symres), paths=sum(r.get('paths', 0) for r in symres),
               reachable_proving_paths=sum(r.get('covers', 0) for r in symres),
               undecided=[[a, b] for a, b in und], contracts=[{k: r.get(k) for k in ('contract', 'paths', 'obligations', 'discharged', 'solver_time', 'wall', 'names', 'functions')} for r in symres],
               evaluations=sum(s['runs'] for s in sampled), distinct_nontrivial=sum(s['distinct'] for s in sampled),
               rule='sampled run: contract inputs drawn at random (seeded); non-trivial = precondition met and at least one postcondition evaluated; distinct by input values',
               samples=[dict(contract=s['contract'], inputs=s['examples']) for s in sampled][:6],
               sampled_postconditions=sum(s['ensured'] for s in sampled),
               sampled_harness_errors=[h for s in sampled for h in s['harness']][:5] + ([str(conc['error']) + conc.get('stderr', '')] if conc.get('error') else []),
               extracted_modules={k: v for r in symres for k, v in r.get('modules', {}).items()},
               extraction='AST of the current source; loops/comprehensions routed through pyvc.loops, builtins and numpy through facades, print dropped; no statement removed')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumes, wall_s=round(time.time() - t0, 2), violations=len(new) + len(unrep))
    EV = os.environ.get('PYVC_EVID', os.path.join(VERIF, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1, default=str)
    # ------------------------------------------------------------------ verdict
    for k in {json.dumps(k, sort_keys=True): k for k in finds}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', '')))
    print('%s [%s]: %d/%d obligations discharged by z3 in %.1f s solver time, %d paths; sampled %d runs, %d postconditions; %.0f s' % (
        pid, tier, dis, nob, cov['solver_seconds'], cov['paths'], cov['evaluations'], cov['sampled_postconditions'], time.time() - t0))
    for a, b in und:
        print('  undecided:', a, str(b)[:300])
    for h in cov['sampled_harness_errors']:
        print('  harness:', h[:600])
    if zero:
        print('  no obligations from:', zero)
    if new or unrep:
        rd = os.path.join(EV, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % pid)
        v = (new or unrep)[0]
        json.dump(dict(property=pid, violation=v, all=(new + unrep)[:10], how='python3-vt -m pyvc.run %s; replay: PYVC_REPO=/repo /opt/venv/bin/python -m pyvc.replay %s' % (pid, path)),
                  open(path, 'w'), indent=1, default=str)
        for x in (new or unrep)[:5]:
            print('  failed obligation:', x['contract'], '::', x['failed'], '(%s)' % x['source'])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if new else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def complete(r):
    return not r.get('crash') and not r.get('undecided') and not r.get('unknown') and r.get('obligations', 0) > 0 and r['obligations'] == r['discharged']


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    main()
