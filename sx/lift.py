"""Load the real source of /repo (and the harnesses) from disk on every run, rewrite the AST so that calls, membership
tests, subscripts and `%` go through the symbolic dispatchers, and execute it with CPython."""
import ast
import builtins
import hashlib
import os
import sys
import types

import numpy as np
import z3
from . import models
from .core import E, SB, SI, is_sym, ite, mk_bool

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEEP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__sx_call__', '__sx_getitem__', '__sx_setitem__', '__sx_in__',
              '__sx_mod__', '__sx_is__', '__sx_fmt__', '__import__', '__sx_and__', '__sx_or__', '__sx_not__', '__sx_ifexp__',
              '__sx_msym__', '__sx_bound__', '__sx_merge__', '__sx_slice__'}
SHARED = {'mavlink_utils.HC_dialect', 'mavlink_utils.minimal_dialect', 'pymavlink.generator.mavcrc', 'mavlink_utils'}
NOLIFT = {'data_generation.mission_profile'}


PURE_FUNCS = {'len', 'abs', 'int', 'float', 'bool', 'min', 'max', 'isinstance', 'round', 'all', 'any', 'sum', 'ord', 'range',
              'type', 'tuple', 'list', 'str', 'bytes', 'enumerate', 'zip'}
PURE_METHODS = {'get', 'keys', 'values', 'items', 'any', 'all', 'sum', 'isnan', 'isinf', 'isfinite', 'isscalar', 'max', 'min',
                'mean', 'abs', 'sqrt', 'log', 'log2', 'startswith', 'endswith', 'size', 'count', 'absolute', 'array',
                'isclose', 'allclose', 'array_equal', 'sign', 'is_integer', 'upper', 'lower'}


def pure(node, depth=0):
    """conservative: evaluating the expression has no side effect"""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_FUNCS:
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                continue
            return False
    return True


def lazy_ok(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return False
    return True


class T(ast.NodeTransformer):
    fdepth = 0
    cdepth = 0
    tmp = 0

    def thunk(self, e):
        return ast.copy_location(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                               defaults=[]), body=e), e)

    def visit_ClassDef(self, node):
        old, self.fdepth = self.fdepth, 0
        self.generic_visit(node)
        self.fdepth = old
        return node

    def visit_BoolOp(self, node):
        if not self.fdepth or not all(lazy_ok(v) for v in node.values) or uses_super(node):
            self.generic_visit(node)
            return node
        p = all(pure(v) for v in node.values[1:])
        self.generic_visit(node)
        fn = '__sx_and__' if isinstance(node.op, ast.And) else '__sx_or__'
        return self.call(fn, [ast.copy_location(ast.Constant(value=p), node)] + [self.thunk(v) for v in node.values], node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call('__sx_not__', [node.operand], node)
        return node

    def visit_IfExp(self, node):
        if not self.fdepth or not (pure(node.body) and pure(node.orelse)) or not lazy_ok(node):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return self.call('__sx_ifexp__', [node.test, self.thunk(node.body), self.thunk(node.orelse)], node)

    # if-conversion: branches that only assign scalars are merged with ite instead of forking the path
    def simple(self, stmts, names, nest=0):
        for st in stmts:
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and pure(st.value):
                names.add(st.targets[0].id)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and pure(st.value):
                names.add(st.target.id)
            elif isinstance(st, ast.If) and nest < 2 and lazy_ok(st.test) and pure(st.test):
                if not (self.simple(st.body, names, nest + 1) and self.simple(st.orelse, names, nest + 1)):
                    return False
            else:
                return False
        return True

    def deaug(self, stmts):
        out = []
        for st in stmts:
            if isinstance(st, ast.AugAssign):
                st = ast.copy_location(ast.Assign(targets=[st.target], value=ast.copy_location(ast.BinOp(
                    left=ast.copy_location(ast.Name(id=st.target.id, ctx=ast.Load()), st), op=st.op, right=st.value), st)), st)
            elif isinstance(st, ast.If):
                st = ast.copy_location(ast.If(test=st.test, body=self.deaug(st.body), orelse=self.deaug(st.orelse)), st)
            out.append(st)
        return out

    def visit_If(self, node):
        names = set()
        if not self.fdepth or not lazy_ok(node.test) or not self.simple(node.body, names) \
                or not self.simple(node.orelse, names) or not names or (names & self.declared):
            self.generic_visit(node)
            return node
        import copy
        orig = copy.deepcopy(node)
        names = sorted(names)
        T.tmp += 1
        k = '__sx_%d_' % T.tmp
        tup = '(%s,)' % ', '.join(names)
        src = """
{k}c = TEST
{k}r = None
if __sx_msym__({k}c) and __sx_bound__(locals(), {nl!r}):
    {k}o = {tup}
    try:
        BODY
        {k}t = {tup}
        {tup} = {k}o
        ORELSE
        {k}f = {tup}
        {tup} = {k}o
        {k}r = __sx_merge__({k}c, {k}t, {k}f)
    except Exception:
        {tup} = {k}o
        {k}r = None
if {k}r is not None:
    {tup} = {k}r
elif {k}c:
    BODY2
else:
    ORELSE2
""".format(k=k, tup=tup, nl=names)
        tree = ast.parse(src).body
        for n in tree:
            for x in ast.walk(n):
                if hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = node.lineno
                    x.col_offset = x.end_col_offset = node.col_offset
        tree[0].value = self.visit(node.test)
        passs = lambda: [ast.copy_location(ast.Pass(), node)]
        vis = lambda l: [y for st in l for y in as_list(self.visit(copy.deepcopy(st)))]
        inner = tree[2].body[1]
        b1 = vis(self.deaug(orig.body))
        o1 = vis(self.deaug(orig.orelse))
        inner.body = b1 + inner.body[1:3] + o1 + inner.body[4:]
        b2 = vis(orig.body)
        o2 = vis(orig.orelse)
        tree[3].orelse[0].body = b2
        tree[3].orelse[0].orelse = o2 or passs()
        return tree

    def visit_For(self, node):
        """loops over guarded elements whose body is a single store: store under the guard instead of forking"""
        st = node.body[0]
        if not self.fdepth or node.orelse or len(node.body) != 1 or not isinstance(st, ast.Assign) or len(st.targets) != 1 \
                or not isinstance(st.targets[0], ast.Subscript) or any(isinstance(n, ast.Slice) for n in ast.walk(st.targets[0].slice)) \
                or not isinstance(node.target, (ast.Name, ast.Tuple)) or not isinstance(node.iter, (ast.Call, ast.Name)) \
                or any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Yield, ast.NamedExpr)) for n in ast.walk(st)):
            self.generic_visit(node)
            return node
        import copy
        orig = copy.deepcopy(node)
        T.tmp += 1
        k = '__sx_%d_' % T.tmp
        src = """
{k}it = ITER
if __sx_guarded__({k}it):
    for {k}g, {k}x in __sx_gitems__({k}it):
        TARGET = {k}x
        {k}ok = False
        try:
            {k}v = VALUE
            {k}o = OBJ
            {k}i = INDEX
            {k}n = __sx_gval__({k}g, {k}v, {k}o, {k}i)
            {k}ok = True
        except Exception:
            pass
        if {k}ok:
            {k}o[{k}i] = {k}n
        elif __sx_gdec__({k}g):
            BODY
else:
    for TARGET in {k}it:
        BODY
""".format(k=k)
        tree = ast.parse(src).body
        for n in tree:
            for x in ast.walk(n):
                if hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = node.lineno
                    x.col_offset = x.end_col_offset = node.col_offset
        tree[0].value = self.visit(node.iter)
        loop = tree[1].body[0]
        st = orig.body[0]
        vis = lambda x: self.visit(copy.deepcopy(x))
        loop.body[0].targets = [vis(orig.target)]
        tr = loop.body[2].body
        tr[0].value = vis(st.value)
        tr[1].value = vis(st.targets[0].value)
        tr[2].value = vis(st.targets[0].slice)
        loop.body[3].orelse[0].body = [vis(st)]
        loop2 = tree[1].orelse[0]
        loop2.target = vis(orig.target)
        loop2.body = [vis(st)]
        return tree

    declared = frozenset()

    def name(self, n, node):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

    def call(self, fn, args, node):
        return ast.copy_location(ast.Call(func=self.name(fn, node), args=args, keywords=[]), node)

    def unfilter(self, node):
        """sum/any/all/len over a filtered comprehension: the filter becomes a condition of the element (no path per element)"""
        f = node.func.id
        if len(node.args) != 1 or node.keywords or not isinstance(node.args[0], ast.ListComp if f == 'len' else (ast.GeneratorExp, ast.ListComp)):
            return node
        g = node.args[0]
        ifs = g.generators[-1].ifs
        if not ifs or not all(pure(t) for t in ifs) or not pure(g.elt) or any(x.is_async for x in g.generators):
            return node
        loc = lambda n: ast.copy_location(n, node)
        cond = ifs[0] if len(ifs) == 1 else loc(ast.BoolOp(op=ast.And(), values=list(ifs)))
        if f == 'any':
            elt = loc(ast.BoolOp(op=ast.And(), values=[cond, g.elt]))
        elif f == 'all':
            elt = loc(ast.BoolOp(op=ast.Or(), values=[loc(ast.UnaryOp(op=ast.Not(), operand=cond)), g.elt]))
        else:
            elt = loc(ast.IfExp(test=cond, body=g.elt if f == 'sum' else loc(ast.Constant(value=1)), orelse=loc(ast.Constant(value=0))))
        if not lazy_ok(elt):
            return node
        gens = g.generators[:-1] + [ast.comprehension(target=g.generators[-1].target, iter=g.generators[-1].iter, ifs=[], is_async=0)]
        return loc(ast.Call(func=loc(ast.Name(id='sum' if f == 'len' else f, ctx=ast.Load())),
                            args=[loc(ast.GeneratorExp(elt=elt, generators=gens))], keywords=[]))

    def visit_Call(self, node):
        if self.fdepth and isinstance(node.func, ast.Name) and node.func.id in ('sum', 'any', 'all', 'len'):
            node = self.unfilter(node)
        if isinstance(node.func, ast.Name) and node.func.id in KEEP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self.name('__sx_call__', node), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_FunctionDef(self, node):
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [node.args.vararg, node.args.kwarg]:
            if a is not None:
                a.annotation = None
        node.returns = None
        for d in node.decorator_list:
            pass
        oldd = self.declared
        self.declared = {x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.fdepth += 1
        self.generic_visit(node)
        self.fdepth -= 1
        self.declared = oldd
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Name, ast.Attribute, ast.Call)):
            t.value.ctx = ast.Load()
            call = self.call('__sx_setitem__', [node.value, t.value, t.slice], node)
            return ast.copy_location(ast.Expr(value=call), node)
        return node

    def visit_AnnAssign(self, node):
        # keep (dataclass fields); annotation untouched
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            def conv(s):
                if isinstance(s, ast.Slice):
                    none = lambda: ast.copy_location(ast.Constant(value=None), node)
                    return self.call('__sx_slice__', [s.lower or none(), s.upper or none(), s.step or none()], node)
                if isinstance(s, ast.Tuple):
                    return ast.copy_location(ast.Tuple(elts=[conv(e) for e in s.elts], ctx=ast.Load()), node)
                return s
            return self.call('__sx_getitem__', [node.value, conv(node.slice)], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.call('__sx_in__', [node.left, node.comparators[0]], node)
                if isinstance(op, ast.NotIn):
                    return self.call('__sx_not__', [c], node)
                return c
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) \
                    and isinstance(node.comparators[0].value, bool):
                c = self.call('__sx_is__', [node.left, node.comparators[0]], node)
                if isinstance(op, ast.IsNot):
                    return self.call('__sx_not__', [c], node)
                return c
        elif self.fdepth and all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) for x in node.comparators[:-1]) \
                and not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops) and lazy_ok(node) \
                and not uses_super(node):
            import copy
            ls = [node.left] + node.comparators
            parts = [ast.copy_location(ast.Compare(left=copy.deepcopy(ls[i]), ops=[o], comparators=[ls[i + 1]]), node)
                     for i, o in enumerate(node.ops)]
            return self.call('__sx_and__', [ast.copy_location(ast.Constant(value=pure(node)), node)] +
                             [self.thunk(p) for p in parts], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == -1:
            spec = node.format_spec if node.format_spec is not None else ast.copy_location(ast.Constant(value=''), node)
            node.value = self.call('__sx_fmt__', [node.value, spec], node)
            node.format_spec = None
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = self.name('Exception', node)
        return node


def uses_super(node):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals') or
               isinstance(n, ast.Name) and n.id == '__class__' for n in ast.walk(node))


def as_list(x):
    return x if isinstance(x, list) else [x]


def _boolish(x):
    return type(x) is SB or isinstance(x, (bool, np.bool_)) and not is_sym(x)


def sx_and(is_pure, *thunks, _and=True):
    acc = []
    for i, t in enumerate(thunks):
        if acc:
            if not E.possible(z3.And(acc) if _and else z3.Not(z3.Or(acc))):
                return not _and     # the rest cannot matter on this path
            try:
                v = t()
            except Exception:
                v = None
            if not _boolish(v):
                # cannot be merged: decide what has been accumulated, then go on concretely
                e = z3.And(acc) if _and else z3.Or(acc)
                r = E.decide(e)
                if r != _and:
                    return r
                acc = []
                v = t()
        else:
            v = t()
        last = i == len(thunks) - 1
        if type(v) is SB and (is_pure or last):
            acc.append(v.e)
        elif acc:
            if bool(v) != _and:
                return v
        else:
            if last:
                return v
            if bool(v) != _and:
                return v
    if not acc:
        return v
    return mk_bool(z3.simplify(z3.And(acc) if _and else z3.Or(acc)))


def sx_or(is_pure, *thunks):
    return sx_and(is_pure, *thunks, _and=False)


def sx_not(x):
    if type(x) is SB:
        return mk_bool(z3.simplify(z3.Not(x.e)))
    if type(x) is SI:
        return x == 0
    return not x


def sx_ifexp(c, a, b):
    if sx_msym(c):
        try:
            m = sx_merge(c, (a(),), (b(),))
        except Exception:
            m = None
        if m is not None:
            return m[0]
    return a() if c else b()


def sx_msym(c):
    return type(c) is SB


def sx_bound(loc, names):
    return all(n in loc for n in names)


SCALARS = (int, float, bool, np.generic)


def sx_merge(c, t, f):
    out = []
    for x, y in zip(t, f):
        if x is y:
            out.append(x)
        elif (is_sym(x) or type(x) in (int, float, bool) or isinstance(x, np.generic)) and \
                (is_sym(y) or type(y) in (int, float, bool) or isinstance(y, np.generic)):
            kx, ky = x.__class__, y.__class__
            if kx is not ky:
                return None
            if kx in (float, np.float64) and (isinstance(x, float) and not is_sym(x) and not np.isfinite(x) or
                                              isinstance(y, float) and not is_sym(y) and not np.isfinite(y)):
                return None
            out.append(ite(c, x, y))
        elif type(x) is type(y) and type(x) in (str, bytes, type(None)) and x == y:
            out.append(x)
        else:
            return None
    return tuple(out)


def sx_fmt(x, spec):
    return models.m_format(x, spec)


class Lifter:
    def __init__(self):
        self.code = {}
        self.modules = {}
        self.shared = {}
        self.sources = {}
        self.bi = dict(vars(builtins))
        self.bi['__import__'] = self.imp
        self.bi.update(__sx_call__=models.sx_call, __sx_getitem__=models.sx_getitem, __sx_setitem__=models.sx_setitem, __sx_in__=models.sx_in,
                      
                       __sx_mod__=models.sx_mod, __sx_is__=models.sx_is, __sx_slice__=slice, __sx_fmt__=sx_fmt,
                       __sx_and__=sx_and, __sx_or__=sx_or, __sx_not__=sx_not, __sx_ifexp__=sx_ifexp, __sx_msym__=sx_msym,
                       __sx_bound__=sx_bound, __sx_merge__=sx_merge,
                       __sx_guarded__=models.guarded, __sx_gitems__=models.gitems, __sx_gval__=models.gval,
                       __sx_gdec__=models.gdec)

    def reset(self):
        self.modules = {}

    def locate(self, name):
        """path of a liftable module or None"""
        if name in NOLIFT:
            return None
        if name == 'pymavlink.generator.mavcrc':
            for p in sys.path:
                f = os.path.join(p, 'pymavlink/generator/mavcrc.py')
                if os.path.isfile(f):
                    return f, False
            return None
        parts = name.split('.')
        base = VERIF if parts[0] == 'checks' else REPO
        p = os.path.join(base, *parts)
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p) and len(parts) >= 1 and any(f.endswith('.py') for f in os.listdir(p)):
            return None if parts[0] in ('tests',) else (p, True)
        return None

    def load(self, name):
        m = self.modules.get(name) or self.shared.get(name)
        if m is not None:
            return m
        loc = self.locate(name)
        if loc is None:
            return None
        path, pkg = loc
        parent = None
        if '.' in name and not name.startswith('pymavlink'):
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['__sx_lifted__'] = True
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path) if path.endswith('.py') else path]
        (self.shared if name in SHARED else self.modules)[name] = m
        if not os.path.isdir(path):
            code = self.code.get(path)
            if code is None:
                src = open(path, encoding='utf8').read()
                self.sources[name] = (path, hashlib.sha256(src.encode()).hexdigest())
                tree = ast.parse(src, path)
                tree = ast.fix_missing_locations(T().visit(tree))
                code = compile(tree, path, 'exec', dont_inherit=True)
                self.code[path] = code
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                self.shared.pop(name, None)
                raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        root = name.split('.')[0]
        if name == 'fastcrc':
            raise ImportError('fastcrc is replaced by its pure Python equivalent in lifted runs')
        if name == 'pymavlink.generator.mavcrc' and fromlist:
            return self.load(name)
        if root in ('checks',) or self.locate(root) is not None and root not in ('tests',):
            if name == 'checks.lib' or name.startswith('checks.lib.'):
                pass
            m = self.load(name)
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            if fromlist:
                for f in fromlist:
                    if f == '*':
                        continue
                    if not hasattr(m, f):
                        self.load(name + '.' + f)
                return m
            return self.load(root)
        m = builtins.__import__(name, globals, locals, fromlist, 0)
        if name == 'functools':
            s = types.ModuleType('functools')
            s.__dict__.update(m.__dict__)
            s.lru_cache, s.cache = models.m_lru_cache, lambda f: models.m_lru_cache(None)(f)
            return s
        return m


L = Lifter()
