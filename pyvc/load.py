"""Mechanical extraction: loads the real modules under /repo/src on every run.

What the transformation does (and all it does):
  * numpy / scipy / jax imports resolve to the symbolic facades; everything else is the real module;
  * `for` and `while` statements inside functions iterate through pyvc.loops (so that a loop over a symbolic
    range is treated by its summary / invariant); the loop body text is unchanged;
  * list comprehensions and generator expressions go through pyvc.loops.comp;
  * builtins that need symbolic arguments (len, range, max, ...) resolve to pyvc.shadow.
Nothing of the function bodies is dropped or rewritten.
"""
import ast, sys, os, types, importlib, importlib.abc, importlib.machinery, builtins, hashlib
from . import core, shadow
from .core import Unsupported

REPO = os.environ.get('PYVC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LOADED = {}          # module -> (path, sha)
FUNC_LINES = {}


class Scope(ast.NodeVisitor):
    """names assigned in a function scope (not descending into nested functions/classes/comprehensions)"""

    def __init__(self, fn):
        self.names, self.glob = [], set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.add(x.arg)
        if a.vararg:
            self.add(a.vararg.arg)
        if a.kwarg:
            self.add(a.kwarg.arg)
        for s in fn.body:
            self.visit(s)

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Global(self, n):
        self.glob |= set(n.names)
    visit_Nonlocal = visit_Global

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        # `except E as x` unbinds x afterwards: leave such names alone
        if n.name:
            self.glob.add(n.name)
        self.generic_visit(n)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []        # (qualname, names, counter)
        self.cls = []
        self.loops = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        save, self.stack = self.stack, []
        self.generic_visit(n)
        self.stack = save
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        sc = Scope(n)
        names = [x for x in sc.names if x not in sc.glob]
        q = '.'.join(self.cls + [f[0] for f in self.stack] + [n.name])
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.stack.append([n.name, names, 0, q])
        save, self.loops = self.loops, []
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loops = save
        self.stack.pop()
        n.body = body
        return n

    def _accessors(self, k, names):
        g = ast.parse(f"def vc0_get{k}():\n d = {{}}\n" +
                      ''.join(f" try: d[{x!r}] = {x}\n except NameError: pass\n" for x in names) + " return d\n").body[0]
        s = ast.parse(f"def vc0_set{k}(d):\n" + (f" nonlocal {', '.join(names)}\n" if names else '') +
                      ''.join(f" if {x!r} in d: {x} = d[{x!r}]\n" for x in names) + " return None\n").body[0]
        return [g, s]

    def _loop(self, n, itercall, target):
        f = self.stack[-1]
        f[2] += 1
        k = f[2]
        lid = f"{self.mod}:{f[3]}#{k}"
        self.loops.append(lid)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loops.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        acc = self._accessors(k, f[1])
        tr = ast.Try(body=body, handlers=[
            ast.ExceptHandler(type=ast.Name('vc0_LoopExit', ast.Load()), name=None, body=[ast.parse(f'vc0_caught({lid!r})').body[0]]),
            ast.ExceptHandler(type=ast.Name('vc0_Exception', ast.Load()), name=None, body=[ast.parse(f'vc0_bodyexc({lid!r})').body[0]])],
            orelse=[], finalbody=[])
        it = ast.parse(f"{itercall[0]}(None, {lid!r}, vc0_get{k}, vc0_set{k})", mode='eval').body
        it.args[0] = itercall[1]
        new = ast.For(target=target, iter=it, body=[tr], orelse=orelse)
        out = acc + [new]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def visit_For(self, n):
        if not self.stack:
            return self.generic_visit(n)
        it = self.visit(n.iter)
        return self._loop(n, ('vc0_for', it), n.target)

    def visit_While(self, n):
        if not self.stack:
            return self.generic_visit(n)
        t = self.visit(n.test)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=t)
        return self._loop(n, ('vc0_while', lam), ast.Name('vc0_w', ast.Store()))

    def _exit(self, n, kind):
        if not self.loops:
            return n
        lids = self.loops[-1:] if kind == 'break' else list(self.loops)
        c = ast.parse(f"vc0_exit({lids!r}, {kind!r})").body[0]
        ast.copy_location(c, n)
        ast.fix_missing_locations(c)
        return [c, n]

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if self.stack:
            c = ast.parse('vc0_handler()').body[0]
            ast.copy_location(c, n)
            ast.fix_missing_locations(c)
            n.body.insert(0, c)
        return n

    def visit_Break(self, n):
        return self._exit(n, 'break')

    def visit_Return(self, n):
        self.generic_visit(n)
        return self._exit(n, 'return')

    def visit_Lambda(self, n):
        save, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = save
        return n

    def _comp(self, n, elt, fn='vc0_comp'):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            for g in n.generators:
                g.iter = ast.copy_location(ast.Call(ast.Name('vc0_inorder', ast.Load()), [g.iter], []), g.iter)
            ast.fix_missing_locations(n)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        tgt = g.target

        def lam(body):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(tgt.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            if isinstance(tgt, ast.Tuple) and all(isinstance(x, ast.Name) for x in tgt.elts):
                inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x.id) for x in tgt.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('vc0_t')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                  body=ast.Call(inner, [ast.Starred(ast.Name('vc0_t', ast.Load()), ast.Load())], []))
            return None
        e = self.visit(elt)
        l1 = lam(e)
        if l1 is None:
            g.iter = it
            return n
        if g.ifs:
            cond = self.visit(g.ifs[0]) if len(g.ifs) == 1 else ast.BoolOp(ast.And(), [self.visit(x) for x in g.ifs])
            l2 = lam(cond)
        else:
            l2 = ast.Constant(None)
        c = ast.Call(ast.Name(fn, ast.Load()), [l1, it, l2], [])
        ast.copy_location(c, n)
        ast.fix_missing_locations(c)
        return c

    def visit_List(self, n):
        if self.stack and not n.elts and isinstance(n.ctx, ast.Load):
            c = ast.Call(ast.Name('vc0_newlist', ast.Load()), [], [])
            ast.copy_location(c, n)
            ast.fix_missing_locations(c)
            return c
        return self.generic_visit(n)

    def visit_ListComp(self, n):
        if not self.stack:
            return n
        return self._comp(n, n.elt)

    def visit_GeneratorExp(self, n):
        if not self.stack:
            return n
        return self._comp(n, n.elt)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != 'quocslib' and not name.startswith('quocslib.'):
            return None
        rel = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(rel):
            f = os.path.join(rel, '__init__.py')
            sp = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            sp.submodule_search_locations = [rel]
            return sp
        if os.path.exists(rel + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=rel + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        mod.__file__ = f
        if not os.path.exists(f):
            return
        src = open(f, encoding='utf-8').read()
        LOADED[mod.__name__] = (f, hashlib.sha256(src.encode()).hexdigest()[:16])
        tree = ast.parse(src, f)
        tree = Transform(mod.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, 'exec')
        mod.__dict__['__builtins__'] = shadow.builtins_dict()
        exec(code, mod.__dict__)


_f = Finder()


def install():
    if _f not in sys.meta_path:
        sys.meta_path.insert(0, _f)


def fresh_modules():
    for k in [k for k in sys.modules if k == 'quocslib' or k.startswith('quocslib.')]:
        del sys.modules[k]


def mod(name):
    install()
    return importlib.import_module(name)
