"""Mechanical instrumentation of hachoir's real source.

Every run parses the current files of /repo and imports them as *shadow*
modules: the same statements in the same order, executed by CPython, with only
these syntactic replacements (nothing is dropped, nothing is rewritten by hand):

  * `for`/`while` statements of functions become `while True:` loops with a
    call to the loop controller at the loop head (where an invariant may cut
    the loop) and an explicit exit test;
  * comprehensions/generator expressions go through `_V.comp`, `[]` through `_V.lst`;
  * `x[i]`, `x[i] = v`, `del x[i]`, `a in b`, `a is b`, `a % b`, f-strings and
    method calls go through `_V` hooks, which do exactly the native operation
    when no symbolic value is involved;
  * every function gets a wrapper by which a caller sees the contract of a
    callee instead of its body, when one is registered;
  * the builtins in `_V.BUILTINS` (len, range, int, bytes, ...) accept
    symbolic values.

Assignments, exceptions, attribute access, classes, properties, closures,
generators, `with` and `try` are executed natively by CPython.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('PYVC_REPO', '/repo')


def mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.lstrip('_') + name
    return name


def assigned_names(stmts):
    """Names (re)bound by these statements in the current function scope."""
    out = []

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            for s in n.body:
                self.visit(s)
    w = W()
    for s in stmts:
        w.visit(s)
    return out


def has_outer_jump(stmts):
    class W(ast.NodeVisitor):
        found = False

        def visit_Break(self, n):
            self.found = True
        visit_Continue = visit_Break

        def visit_For(self, n):
            for s in n.orelse:
                self.visit(s)
        visit_While = visit_For

        def visit_FunctionDef(self, n):
            pass
        visit_ClassDef = visit_Lambda = visit_FunctionDef
    w = W()
    for s in stmts:
        w.visit(s)
    return w.found


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []      # (kind, name)
        self.counters = []   # per function: loop counter
        self.ncomp = []
        self.tmp = 0
        self.globs = []

    # -- helpers
    def cls(self):
        for k, n in reversed(self.scope):
            if k == 'class':
                return n
        return None

    def infunc(self):
        return bool(self.scope) and self.scope[-1][0] == 'func'

    def qual(self):
        return self.mod + ':' + '.'.join(n for _, n in self.scope)

    def V(self, name, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name('_V', ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def c(self, v):
        return ast.Constant(v)

    # -- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        nested = any(k == 'func' for k, _ in self.scope)
        self.scope.append(('func', n.name))
        self.counters.append(0)
        self.ncomp.append(0)
        self.globs.append(set())
        q = self.qual()
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.globs.pop()
        self.ncomp.pop()
        self.counters.pop()
        self.scope.pop()
        n.returns = None
        if not nested:
            n.decorator_list.append(self.V('fn', [self.c(q)], n))
        return n

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.scope.append(('func', '<lambda>'))
        self.counters.append(0)
        self.ncomp.append(0)
        n.body = self.visit(n.body)
        self.ncomp.pop()
        self.counters.pop()
        self.scope.pop()
        return n

    def visit_ClassDef(self, n):
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.scope.append(('class', n.name))
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.scope.pop()
        return n

    def visit_Global(self, n):
        if self.globs:
            self.globs[-1].update(n.names)
        return n
    visit_Nonlocal = visit_Global

    # -- loops
    def loop_parts(self, n, kind, test, itexpr):
        k = self.counters[-1]
        self.counters[-1] += 1
        lid = '%s#%d' % (self.qual(), k)
        var = '_L%d' % self.tmp
        self.tmp += 1
        names = assigned_names(n.body)
        if kind == 'for':
            names = assigned_names([ast.Assign(targets=[n.target], value=ast.Constant(0))]) + \
                [x for x in names]
        else:
            names = assigned_names([ast.Expr(n.test)]) + names
        names = list(dict.fromkeys(names))
        names = [x for x in names if not any(x in g for g in self.globs)]
        mk = ast.Assign(
            targets=[ast.Name(var, ast.Store())],
            value=self.V('loop', [self.c(lid), self.c(kind)] + ([itexpr] if itexpr is not None else []), n))
        L = lambda a: ast.Attribute(value=ast.Name(var, ast.Load()), attr=a, ctx=ast.Load())
        call = lambda f, *a: ast.Call(func=f, args=list(a), keywords=[])
        body = []
        cut = call(L('cut'), call(ast.Name('locals', ast.Load())),
                   ast.Tuple([self.c(x) for x in names], ast.Load()))
        if names:
            body.append(ast.If(test=cut, body=[ast.Assign(
                targets=[ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                value=L('vals'))], orelse=[]))
        else:
            body.append(ast.Expr(cut))
        return mk, body, L, call

    def body_of(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, n):
        if not self.infunc() or (n.orelse and has_outer_jump(n.orelse)):
            return self.generic_visit(n)
        it = self.visit(n.iter)
        mk, head, L, call = self.loop_parts(n, 'for', None, it)
        orelse = self.body_of(n.orelse)
        head.append(ast.If(test=ast.UnaryOp(ast.Not(), call(L('more'))),
                           body=orelse + [ast.Break()], orelse=[]))
        tgt = ast.Assign(targets=[n.target], value=L('item'))
        tgt = self.visit(ast.copy_location(tgt, n))
        head.extend(tgt if isinstance(tgt, list) else [tgt])
        w = ast.While(test=ast.Constant(True), body=head + self.body_of(n.body), orelse=[])
        return [ast.copy_location(mk, n), ast.copy_location(w, n)]

    def visit_While(self, n):
        if not self.infunc() or (n.orelse and has_outer_jump(n.orelse)):
            return self.generic_visit(n)
        mk, head, L, call = self.loop_parts(n, 'while', n.test, None)
        test = self.visit(n.test)
        orelse = self.body_of(n.orelse)
        head.append(ast.If(test=ast.UnaryOp(ast.Not(), test),
                           body=orelse + [ast.Break()], orelse=[]))
        w = ast.While(test=ast.Constant(True), body=head + self.body_of(n.body), orelse=[])
        return [ast.copy_location(mk, n), ast.copy_location(w, n)]

    # -- comprehensions
    def comp(self, n, kind):
        if not any(k == 'func' for k, _ in self.scope):
            return self.generic_visit(n)
        cid = '%s@%d' % (self.qual(), self.ncomp[-1] if self.ncomp else 0)
        if self.ncomp:
            self.ncomp[-1] += 1
        it0 = self.visit(n.generators[0].iter)
        n.generators[0].iter = ast.Name('_it0', ast.Load())
        parts = []
        if kind in ('list', 'gen', 'set') and len(n.generators) == 1:
            # element function and filter function, for summarised evaluation
            g = n.generators[0]
        n = self.generic_visit(n)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('_it0')], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]), body=n)
        return self.V('comp', [self.c(cid), self.c(kind), it0, lam], n)

    def visit_ListComp(self, n):
        return self.comp(n, 'list')

    def visit_SetComp(self, n):
        return self.comp(n, 'set')

    def visit_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def visit_DictComp(self, n):
        return self.comp(n, 'dict')

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts and any(k == 'func' for k, _ in self.scope):
            return self.V('lst', [self.c(self.qual())], n)
        if isinstance(n.ctx, ast.Load) and any(k == 'func' for k, _ in self.scope) \
                and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
            return self.V('lstr', [self.c(self.qual()), n], n)
        if isinstance(n.ctx, ast.Load) and any(k == 'func' for k, _ in self.scope) and not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.V('lstl', [self.c(self.qual()), n], n)
        return n

    # -- operators
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, r = n.ops[0], n.comparators[0]
            if isinstance(op, ast.In):
                return self.V('in_', [n.left, r], n)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), self.V('in_', [n.left, r], n)), n)
            if isinstance(op, (ast.Is, ast.IsNot)):
                e = self.V('is_', [n.left, r], n)
                if isinstance(op, ast.IsNot):
                    e = ast.copy_location(ast.UnaryOp(ast.Not(), e), n)
                return e
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.V('mod', [n.left, n.right], n)
        return n

    def visit_JoinedStr(self, n):
        if not any(k == 'func' for k, _ in self.scope):
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else self.c('')
                parts.append(ast.Tuple([self.visit(v.value), self.c(v.conversion), spec], ast.Load()))
        return self.V('fstr', [ast.Tuple(parts, ast.Load())], n)

    def idx(self, s):
        if isinstance(s, ast.Slice):
            nn = lambda x: x if x is not None else self.c(None)
            return ast.Call(func=ast.Name('slice', ast.Load()),
                            args=[nn(s.lower), nn(s.upper), nn(s.step)], keywords=[])
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(k == 'func' for k, _ in self.scope):
            return self.V('getitem', [n.value, self.idx(n.slice)], n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if any(k == 'func' for k, _ in self.scope) and len(n.targets) == 1 \
                and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(
                self.V('setitem', [n.value, t.value, self.idx(t.slice)], n)), n)
        return n

    def visit_AugAssign(self, n):
        if any(k == 'func' for k, _ in self.scope):
            if isinstance(n.target, ast.Subscript):
                t = n.target
                o, i = '_o%d' % self.tmp, '_i%d' % self.tmp
                self.tmp += 1
                s1 = ast.Assign(targets=[ast.Name(o, ast.Store())], value=t.value)
                s2 = ast.Assign(targets=[ast.Name(i, ast.Store())], value=self.idx(t.slice))
                s3 = ast.Assign(
                    targets=[ast.Subscript(ast.Name(o, ast.Load()), ast.Name(i, ast.Load()), ast.Store())],
                    value=ast.BinOp(ast.Subscript(ast.Name(o, ast.Load()), ast.Name(i, ast.Load()), ast.Load()),
                                    n.op, n.value))
                out = []
                for s in (s1, s2, s3):
                    r = self.visit(ast.fix_missing_locations(ast.copy_location(s, n)))
                    out.append(r)
                return out
            if isinstance(n.op, ast.Mod):
                t = n.target
                ld = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else \
                    ast.Attribute(t.value, t.attr, ast.Load())
                return self.visit(ast.copy_location(
                    ast.Assign(targets=[t], value=ast.BinOp(ld, ast.Mod(), n.value)), n))
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if any(k == 'func' for k, _ in self.scope) and all(isinstance(t, ast.Subscript) for t in n.targets):
            return [ast.copy_location(ast.Expr(
                self.V('delitem', [t.value, self.idx(t.slice)], n)), n) for t in n.targets]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if any(k == 'func' for k, _ in self.scope) and isinstance(n.func, ast.Attribute):
            a = mangle(n.func.attr, self.cls())
            if isinstance(n.func.value, ast.Name) and n.func.value.id == '_V':
                return n
            n.func = self.V('meth', [n.func.value, self.c(a)], n.func)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.body.insert(0, ast.Expr(self.V('guard', [], n)))
        return n


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class ShadowFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, hooks, builtins):
        self.hooks, self.builtins = hooks, builtins
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        if name != 'hachoir' and not name.startswith('hachoir.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            fn, pkg = os.path.join(rel, '__init__.py'), True
        elif os.path.exists(rel + '.py'):
            fn, pkg = rel + '.py', False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=fn, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [rel]
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        code = transform(src, module.__name__, fn)
        self.loaded[module.__name__] = fn
        d = module.__dict__
        d['_V'] = self.hooks
        d.update(self.builtins)
        exec(code, d)


def install(hooks, builtins):
    f = ShadowFinder(hooks, builtins)
    sys.meta_path.insert(0, f)
    return f
