"""Mutation campaign: random small changes of the functions under contract, each run through the property's check in a scratch copy.
usage: mutate.py PID count seed -> one line per mutant on stdout (KILLED-S sampled, KILLED-V verifier, SURVIVED)"""
import sys, os, ast, json, random, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = '/repo'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.MatMult: '*'}


def funcs(pid):
    from pyvc import concrete_load
    out = {}
    for c in concrete_load.load_contracts(pid):
        for f in c['functions']:
            m, q = f.split(':')
            out.setdefault(m, set()).add(q)
    return out


def find(tree, q):
    body = tree.body
    node = None
    for part in q.split('.'):
        node = next((n for n in body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == part), None)
        if node is None:
            return None
        body = node.body
    return node


def mutants(src, q):
    tree = ast.parse(src)
    fn = find(tree, q)
    if fn is None or isinstance(fn, ast.ClassDef):
        return
    seg = lambda n: ast.get_source_segment(src, n)
    nodes = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            s = seg(c) if hasattr(c, 'lineno') else ''
            if isinstance(c, ast.Expr) and s and ('print' in s or 'logger' in s):
                continue
            if isinstance(c, ast.Assign) and isinstance(c.targets[0], ast.Name) and c.targets[0].id in ('message', 'template'):
                continue
            if isinstance(c, ast.Raise):
                continue
            nodes.append(c)
            walk(c)
    walk(fn)
    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp'
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, 'value', 0), str):
            yield n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin'
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'bool'
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, str(not n.value), 'flag'
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield n, '(%r + 1)' % n.value, 'const'
            if n.value:
                yield n, '(%r - 1)' % n.value, 'const'
        if isinstance(n, ast.If):
            yield n.test, 'not (%s)' % seg(n.test), 'neg'
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield n, 'pass', 'del'
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            yield n, '%s -= %s' % (seg(n.target), seg(n.value)), 'aug'
            yield n, '%s = %s' % (seg(n.target), seg(n.value)), 'aug'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            yield n, seg(n.func.value), 'copy'
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [seg(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            yield n, '%s(%s)' % (seg(n.func), ', '.join(a + [('%s=%s' % (k.arg, seg(k.value)) if k.arg else '**' + seg(k.value)) for k in n.keywords])), 'swap'
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Slice, ast.Tuple)) and not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
            yield n, '%s[%s - 1]' % (seg(n.value), seg(n.slice)), 'index'
        if isinstance(n, ast.Slice) and n.lower is not None and not isinstance(n.lower, ast.UnaryOp):
            yield n.lower, '(%s) + 1' % seg(n.lower), 'slice'
        if isinstance(n, ast.Slice) and n.upper is not None and not isinstance(n.upper, ast.UnaryOp):
            yield n.upper, '(%s) - 1' % seg(n.upper), 'slice'
        if isinstance(n, ast.Break):
            yield n, 'pass', 'break'
        if isinstance(n, ast.Continue):
            yield n, 'pass', 'break'
        if isinstance(n, ast.Attribute) and n.attr in ('min', 'max', 'argmin', 'argmax', 'minimum', 'maximum'):
            o = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'minimum': 'maximum', 'maximum': 'minimum'}[n.attr]
            yield n, '%s.%s' % (seg(n.value), o), 'minmax'


def offset(src, n):
    lines = src.splitlines(True)
    enc = lambda l, c: len(lines[l - 1].encode()[:c].decode())
    a = sum(len(x) for x in lines[:n.lineno - 1]) + enc(n.lineno, n.col_offset)
    b = sum(len(x) for x in lines[:n.end_lineno - 1]) + enc(n.end_lineno, n.end_col_offset)
    return a, b


def main():
    pid, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    allm = []
    for m, qs in sorted(funcs(pid).items()):
        p = 'src/' + m.replace('.', '/') + '.py'
        src = open(os.path.join(REPO, p)).read()
        for q in sorted(qs):
            for n, rep, kind in mutants(src, q):
                a, b = offset(src, n)
                allm.append((p, q, n.lineno, kind, src[a:b], rep, src[:a] + rep + src[b:]))
    rnd = random.Random(seed)
    rnd.shuffle(allm)
    print('#', pid, len(allm), 'mutants in all', flush=True)
    base = subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    done = 0
    for p, q, line, kind, old, new, text in allm:
        if done >= count:
            break
        try:
            compile(text, p, 'exec')
        except SyntaxError:
            continue
        done += 1
        S = tempfile.mkdtemp(prefix='mut-')
        try:
            R = os.path.join(S, 'repo')
            shutil.copytree(REPO, R, ignore=shutil.ignore_patterns('.git', 'tests', 'Documentation', '*.pyc'))
            open(os.path.join(R, p), 'w').write(text)
            env = dict(os.environ, PYVC_REPO=R, PYVC_EVID=S + '/ev', VERIF_SEED='1', PYVC_SECONDS='100')
            r = subprocess.run(['timeout', '300', os.path.join(V, 'run.sh'), pid], env=env, capture_output=True, text=True, cwd=V)
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if r.returncode == 1 and viol:
                st = 'KILLED-V' if 'no-failing' in viol[0] else 'KILLED-S'
            else:
                st = 'SURVIVED' if r.returncode == 0 else 'RC%d' % r.returncode
            extra = ''
            if st not in ('KILLED-S', 'KILLED-V'):
                extra = ' | '.join(l.strip()[:150] for l in r.stdout.splitlines() if 'undecided' in l or 'harness' in l)[:400]
            print('%s %s %s:%d [%s] %s => %s %s' % (st, pid, q, line, kind, ' '.join(old.split())[:110], ' '.join(new.split())[:110], extra), flush=True)
        finally:
            shutil.rmtree(S, ignore_errors=True)


if __name__ == '__main__':
    main()
