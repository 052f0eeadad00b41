"""Mechanical extraction: parse the functions of /repo on every run and compile them
after a fixed, purely syntactic transformation (listed in EXTRACTION below), so that
the text that is verified is the text that runs."""
import ast
import os
import builtins
import sys
import types
import hashlib

EXTRACTION = [
    'float and complex literals become exact rational constants (machine rounding is dropped)',
    'a / b, a ** b, a % b go through hooks that treat int/int exactly and leave every other operand pair to the operand types',
    'bare "except:" becomes "except Exception:" so that engine signals are not swallowed',
    'empty list displays [] become a list type whose appends are visible to the loop rules',
    'list comprehensions with one generator call a hook that also accepts symbolic-length iterables',
    'bodies of for / while loops inside functions are outlined into closures over the same variables',
    'assert statements, calls of print and of progress bars are kept / ignored as at run time (output is dropped)',
]

REPO = os.environ.get('PYVC_REPO', '/repo')


def _assigned(node_list):
    """names bound by the statements (not descending into nested function/class bodies)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)

        def visit_AsyncFunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            return

        def visit_ListComp(self, n):
            return

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for n in node_list:
        v.visit(n)
    return out


def _has(node_list, kinds, into_loops=True):
    """does a statement list contain a node kind (not in nested functions)"""
    todo = list(node_list)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def N(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=N(f) if isinstance(f, str) else f, args=list(args), keywords=[])


class Expr(ast.NodeTransformer):
    """expression level rewriting"""

    def __init__(self, tr):
        self.tr = tr

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call('_vf_f', ast.Constant(repr(n.value))), n)
        if isinstance(n.value, complex):
            return ast.copy_location(call('_vf_c', ast.Constant(repr(n.value.real)), ast.Constant(repr(n.value.imag))), n)
        return n

    def visit_JoinedStr(self, n):
        # keep format specs untouched
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        h = {ast.Div: '_vf_div', ast.Pow: '_vf_pow', ast.Mod: '_vf_mod'}.get(type(n.op))
        if h:
            return ast.copy_location(call(h, n.left, n.right), n)
        if isinstance(n.op, (ast.Add, ast.Mult)):
            return ast.copy_location(call('_vf_add' if isinstance(n.op, ast.Add) else '_vf_mul', n.left, n.right), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load) and self.tr.infunc:
            return ast.copy_location(call('_vf_list'), n)
        return n

    def visit_ListComp(self, n):
        ok = len(n.generators) == 1 and not n.generators[0].is_async
        if ok:
            g = n.generators[0]
            tg = g.target
            names = None
            if isinstance(tg, ast.Name):
                names = [tg.id]
            elif isinstance(tg, ast.Tuple) and all(isinstance(e, ast.Name) for e in tg.elts):
                names = [e.id for e in tg.elts]
            ok = names is not None and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)) and self.tr.infunc
        self.generic_visit(n)
        if not ok:
            return n
        g = n.generators[0]

        def lam(body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        conds = ast.Constant(None)
        if g.ifs:
            conds = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return ast.copy_location(call('_vf_comp', lam(n.elt), g.iter, conds, ast.Constant(isinstance(tg, ast.Tuple))), n)

    def visit_FunctionDef(self, n):
        return self.tr.function(n)

    def visit_ClassDef(self, n):
        return self.tr.class_(n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = N('Exception')
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Mod, ast.Pow)) and isinstance(n.target, ast.Name):
            h = {ast.Div: '_vf_idiv', ast.Pow: '_vf_pow', ast.Mod: '_vf_mod'}[type(n.op)]
            return ast.copy_location(ast.Assign(targets=[N(n.target.id, ast.Store())], value=call(h, N(n.target.id), n.value)), n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and isinstance(n.target, ast.Name):
            h = '_vf_iadd' if isinstance(n.op, ast.Add) else '_vf_imul'
            return ast.copy_location(ast.Assign(targets=[N(n.target.id, ast.Store())], value=call(h, N(n.target.id), n.value)), n)
        return n


class Transformer:
    def __init__(self, modname):
        self.mod = modname
        self.infunc = 0
        self.k = 0
        self.quals = []
        self.ex = Expr(self)

    def module(self, tree):
        tree.body = [self.ex.visit(s) for s in tree.body]
        ast.fix_missing_locations(tree)
        return tree

    def class_(self, n):
        self.quals.append(n.name)
        save, self.infunc = self.infunc, 0
        n.body = [self.ex.visit(s) for s in n.body]
        self.infunc = save
        self.quals.pop()
        return n

    def function(self, n):
        self.quals.append(n.name)
        self.infunc += 1
        isgen = _has(n.body, (ast.Yield, ast.YieldFrom, ast.Await))
        glob = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                glob.update(s.names)
        args = n.args
        argn = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        if args.vararg:
            argn.add(args.vararg.arg)
        if args.kwarg:
            argn.add(args.kwarg.arg)
        save = getattr(self, 'fn', None)
        locs = _assigned(n.body) - glob
        self.fn = {'gen': isgen, 'glob': glob, 'locals': locs, 'args': argn, 'dummies': set()}
        n.args = self.ex.generic_visit(n.args)
        n.decorator_list = [self.ex.visit(d) for d in n.decorator_list]
        n.body = self.block(n.body)
        dm = sorted(self.fn['dummies'] - argn)
        if dm:
            pre = ast.If(test=ast.Constant(False), body=[ast.Assign(targets=[N(x, ast.Store()) for x in dm], value=ast.Constant(None))], orelse=[])
            i = 0
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                i = 1
            n.body.insert(i, pre)
        self.fn = save
        self.infunc -= 1
        self.quals.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)) and not self.fn['gen']:
            bound = _assigned([s])
            if not (bound & self.fn['glob']):
                return self.loop(s, bound)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return self.function(s)
        if isinstance(s, ast.ClassDef):
            return self.class_(s)
        for f in ('body', 'orelse', 'finalbody'):
            if hasattr(s, f) and isinstance(getattr(s, f), list):
                v = getattr(s, f)
                setattr(s, f, [])
                saved = v
                blk = self.block(saved)
                setattr(s, '_x_' + f, blk)
        if isinstance(s, ast.Try):
            hs = s.handlers
            s.handlers = []
            nh = []
            for h in hs:
                h.body = self.block(h.body)
                if h.type is None:
                    h.type = N('Exception')
                else:
                    h.type = self.ex.visit(h.type)
                nh.append(h)
            s = self.ex.generic_visit(s)
            s.handlers = nh
        else:
            r = self.ex.visit(s)
            s = r
        for f in ('body', 'orelse', 'finalbody'):
            if hasattr(s, '_x_' + f):
                setattr(s, f, getattr(s, '_x_' + f))
        return s

    def _retify(self, stmts):
        """break / continue / return inside an outlined body"""
        class RB(ast.NodeTransformer):
            def visit_FunctionDef(s, n):
                return n

            visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

            def visit_For(s, n):
                # inner native loops keep their own break/continue, but return must be lifted
                return n

            visit_While = visit_For

            def visit_Break(s, n):
                return ast.copy_location(ast.Return(value=N('_vf_BRK')), n)

            def visit_Continue(s, n):
                return ast.copy_location(ast.Return(value=ast.Constant(None)), n)

            def visit_Return(s, n):
                if getattr(n, '_vf', False):
                    return n
                return ast.copy_location(ast.Return(value=call('_vf_RET', n.value or ast.Constant(None))), n)
        return [RB().visit(x) for x in stmts]

    def loop(self, s, bound):
        self.k += 1
        k = self.k
        names = sorted(bound)
        self.fn['dummies'] |= bound
        nl = [ast.Nonlocal(names=names)] if names else []
        line = s.lineno
        iswhile = isinstance(s, ast.While)
        # a nested loop statement is transformed first; its generated return is final
        body = self.block(s.body)
        body = self._retify(body)
        orelse = self.block(s.orelse)
        b, g, st = '_vf_body%d' % k, '_vf_get%d' % k, '_vf_set%d' % k
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        onearg = ast.arguments(posonlyargs=[], args=[ast.arg(arg='_vf_it')], kwonlyargs=[], kw_defaults=[], defaults=[])
        if iswhile:
            fb = ast.FunctionDef(name=b, args=noargs, body=nl + body + [ast.Return(value=ast.Constant(None))], decorator_list=[])
        else:
            fb = ast.FunctionDef(name=b, args=onearg, body=nl + [ast.Assign(targets=[s.target], value=N('_vf_it'))] + body + [ast.Return(value=ast.Constant(None))], decorator_list=[])
        # getters / setters
        gd = ast.FunctionDef(name=g, args=noargs, decorator_list=[], body=[ast.Return(value=ast.Dict(
            keys=[ast.Constant(x) for x in names], values=[ast.Lambda(args=noargs, body=N(x)) for x in names]))])
        sb = list(nl)
        for x in names:
            sb.append(ast.If(test=ast.Compare(left=ast.Constant(x), ops=[ast.In()], comparators=[N('_vf_d')]),
                             body=[ast.Assign(targets=[N(x, ast.Store())], value=ast.Subscript(value=N('_vf_d'), slice=ast.Constant(x), ctx=ast.Load()))],
                             orelse=[ast.Assign(targets=[N(x, ast.Store())], value=ast.Constant(None)), ast.Delete(targets=[N(x, ast.Del())])]))
        sd = ast.FunctionDef(name=st, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='_vf_d')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=sb or [ast.Pass()], decorator_list=[])
        qual = '.'.join(self.quals)
        info = ast.Tuple(elts=[ast.Constant(self.mod), ast.Constant(qual), ast.Constant(line)], ctx=ast.Load())
        r = '_vf_r%d' % k
        if iswhile:
            cond = ast.Lambda(args=noargs, body=self.ex.visit(s.test))
            ca = call('_vf_while', cond, N(b), N(g), N(st), info)
        else:
            ca = call('_vf_for', self.ex.visit(s.iter), N(b), N(g), N(st), info)
        # result variable must be local of the directly enclosing (possibly outlined) function: use a walrus-free temp
        out = [fb, gd, sd, ast.Assign(targets=[N(r, ast.Store())], value=ca)]
        hasret = _has(s.body, (ast.Return,)) or any(_has([x], (ast.Return,)) for x in s.body)
        if hasret or True:
            rt = ast.Return(value=ast.Attribute(value=N(r), attr='value', ctx=ast.Load()))
            if not getattr(self, '_', None):
                pass
            out.append(ast.If(test=call('_vf_isret', N(r)), body=[rt], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Compare(left=N(r), ops=[ast.IsNot()], comparators=[N('_vf_BRK')]), body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, s)
            ast.fix_missing_locations(o)
        return out


def source_of(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def find_module(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(p + '.py'):
        return p + '.py'
    if os.path.isdir(p):
        i = os.path.join(p, '__init__.py')
        return i if os.path.isfile(i) else p
    return None


def compile_module(name, path):
    src = source_of(path)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
    tr = Transformer(name)
    tree = tr.module(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    return code, hashlib.sha256(src.encode()).hexdigest()
