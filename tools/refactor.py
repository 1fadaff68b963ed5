"""Behaviour-preserving rewrites of the whole source tree: refactor.py <kind> <dest repo copy>  (kinds: rename, flip, ret, cmp, loop, temp, helper)"""
import sys, os, ast, copy
KIND, R = sys.argv[1], sys.argv[2]


def locals_of(fn):
    """names bound by plain assignment / for targets in fn, not declared global, not used in comprehension-only scopes"""
    names, banned = set(), set(a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg))
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            banned |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                banned.add(n.name)
            if not isinstance(n, ast.ClassDef):
                banned |= set(a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg))
            if isinstance(n, ast.FunctionDef):
                banned |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            banned |= {(a.asname or a.name).split('.')[0] for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            banned.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'):
            return set()
    return names - banned


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        m = locals_of(n)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = x.id + '_rn'
        return n


class Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('result_value', ast.Store())], n.value, lineno=1), ast.Return(ast.Name('result_value', ast.Load()))]


class Cmp(ast.NodeTransformer):
    S = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.S:
            return ast.Compare(n.comparators[0], [self.S[type(n.ops[0])]()], [n.left])
        return n


class Loop(ast.NodeTransformer):
    """for i in range(n) -> while; for x in <..list> -> index loop"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        has = any(isinstance(x, ast.Continue) for x in ast.walk(n))
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name) and not has and not n.orelse:
            Loop.k += 1
            c, e = 'count_%d' % Loop.k, 'end_%d' % Loop.k
            L = lambda s, st=False: ast.Name(s, ast.Store() if st else ast.Load())
            return [ast.Assign([L(c, 1)], ast.Constant(0), lineno=1), ast.Assign([L(e, 1)], it.args[0], lineno=1),
                    ast.While(ast.Compare(L(c), [ast.Lt()], [L(e)]), [ast.Assign([L(n.target.id, 1)], L(c), lineno=1)] + n.body + [ast.AugAssign(L(c, 1), ast.Add(), ast.Constant(1))], [])]
        if isinstance(it, (ast.Name, ast.Attribute)) and (it.id if isinstance(it, ast.Name) else it.attr).endswith('list') and isinstance(n.target, ast.Name) and not n.orelse:
            Loop.k += 1
            c = 'pos_%d' % Loop.k
            call = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it], [])], [])
            return ast.For(ast.Name(c, ast.Store()), call, [ast.Assign([n.target], ast.Subscript(copy.deepcopy(it), ast.Name(c, ast.Load()), ast.Load()), lineno=1)] + n.body, [], lineno=1)
        return n


class Temp(ast.NodeTransformer):
    """x = a op b  ->  left = a; right = b; x = left op right (evaluation order kept)"""
    k = 0

    def visit_Assign(self, n):
        if isinstance(n.value, ast.BinOp) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.Await, ast.Yield)) for x in ast.walk(n)):
            Temp.k += 1
            a, b = 'lhs_%d' % Temp.k, 'rhs_%d' % Temp.k
            return [ast.Assign([ast.Name(a, ast.Store())], n.value.left, lineno=1), ast.Assign([ast.Name(b, ast.Store())], n.value.right, lineno=1),
                    ast.Assign(n.targets, ast.BinOp(ast.Name(a, ast.Load()), n.value.op, ast.Name(b, ast.Load())), lineno=1)]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


class Helper(ast.NodeTransformer):
    """every method body moves into a helper method: def m(self, ..): return self._m_body(..)"""
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                    and f.args.args and f.args.args[0].arg == 'self' and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = '_body_of_' + n.name + '_' + f.name.lstrip('_')
                g.args.defaults = []
                f.body = [ast.Return(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), g.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
                out += [f, g]
            else:
                out.append(f)
        n.body = out
        return n


T = dict(rename=Rename, flip=Flip, ret=Ret, cmp=Cmp, loop=Loop, temp=Temp, helper=Helper)[KIND]
for root, ds, fs in os.walk(os.path.join(R, 'src', 'quocslib')):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(root, f)
            t = T().visit(ast.parse(open(p).read()))
            ast.fix_missing_locations(t)
            open(p, 'w').write(ast.unparse(t) + '\n')
