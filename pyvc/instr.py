"""Mechanical instrumentation of the modules of /repo, redone on every run.

What is kept: every statement and expression of the file, in order. What is
replaced, so that symbols can flow: / < <= > >= in not round() and subscripts
become calls with the same (Python 2, as the build's shim defines it) meaning;
'and'/'or'/if statements whose branches cannot fail may be merged into one
formula; loops go through a protocol that is plain iteration unless a contract
gives the loop an invariant; bare 'except:' does not catch the engine's own
control exceptions. Nothing is dropped.
"""
import ast
import os
import sys
import tokenize

REPO = os.environ.get("PYVC_REPO", "/repo")

if "/opt/vp/py2compat" not in sys.path:
    sys.path.insert(0, "/opt/vp/py2compat")
import py2compat  # noqa: E402
py2compat.REPO = os.path.realpath(REPO)

PV = "_pv_"


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name(PV), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


def _lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=body)


PURE = (ast.Name, ast.Constant, ast.Load, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.And, ast.Or, ast.Not, ast.USub,
        ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn,
        ast.Tuple, ast.List, ast.BinOp, ast.Add, ast.Sub, ast.Mult)


def pure(node):
    """Evaluating it early cannot fork, fail in a way that matters, or have effects."""
    if isinstance(node, ast.Subscript):
        return isinstance(node.slice, ast.Constant) and pure(node.value)
    if not isinstance(node, PURE):
        return False
    return all(pure(c) for c in ast.iter_child_nodes(node))


def total(node):
    """Right-hand sides that may be evaluated although their branch is not taken."""
    if isinstance(node, (ast.Name, ast.Constant)):
        return True
    if isinstance(node, ast.UnaryOp):
        return isinstance(node.op, ast.USub) and total(node.operand)
    if isinstance(node, ast.BinOp):
        return isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)) and total(node.left) and total(node.right)
    if isinstance(node, ast.Subscript):
        return isinstance(node.slice, (ast.Constant, ast.Name)) and isinstance(node.value, ast.Name)
    return False


def assigned(nodes):
    """Names a statement list assigns."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def mutated(nodes):
    """Names whose contents a statement list may change."""
    out = []
    for n in nodes:
        for x in ast.walk(n):
            y = None
            if isinstance(x, ast.Subscript):
                y = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                y = x.func.value
            while isinstance(y, (ast.Subscript, ast.Attribute)):
                y = y.value
            if isinstance(y, ast.Name) and y.id not in out:
                out.append(y.id)
    return out


class Instrument(ast.NodeTransformer):
    def __init__(self, module, division):
        self.module = module
        self.division = division
        self.scope = []
        self.loops = [0]
        self.infn = 0
        self.tmp = 0
        self.locals = []

    # --- scopes
    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = [self.visit(n) for n in node.body]
        node.bases = [self.visit(b) for b in node.bases]
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append(node.name)
        self.loops.append(0)
        self.infn += 1
        self.globals = [n for s in ast.walk(node) if isinstance(s, ast.Global) for n in s.names]
        outer, self.locals = self.locals, [n for n in assigned(node.body) if n not in self.globals]
        body = self.block(node.body)
        self.locals = outer
        self.infn -= 1
        self.loops.pop()
        q = ".".join(self.scope)
        self.scope.pop()
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        enter = ast.Expr(value=_call("enter", ast.Constant(value="%s.%s" % (self.module, q)),
                                     ast.Constant(value=isgen)))
        node.body = doc + [enter] + body if body else doc + [enter]
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # --- expressions
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.division:
            return ast.copy_location(_call("div", node.left, node.right), node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_call("truediv", node.left, node.right), node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(_call("pow", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Mod, ast.Pow)):
            left = ast.parse(ast.unparse(node.target), mode="eval").body
            left = self.visit(left)
            fn = {ast.Div: "truediv" if self.division else "div", ast.Mod: "mod", ast.Pow: "pow"}[type(node.op)]
            return ast.copy_location(ast.Assign(targets=[node.target], value=_call(fn, left, node.value)), node)
        return node

    def visit_Compare(self, node):
        flags = [pure(c) for c in node.comparators]
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0]).__name__
            l, r = node.left, node.comparators[0]
            if op in ("Lt", "LtE", "Gt", "GtE"):
                return ast.copy_location(_call("cmp", ast.Constant(value=op), l, r), node)
            if op == "In":
                return ast.copy_location(_call("contains", l, r), node)
            if op == "NotIn":
                return ast.copy_location(_call("not_", _call("contains", l, r)), node)
            return node
        args = [node.left]
        for op, right, flag in zip(node.ops, node.comparators, flags):
            args += [ast.Constant(value=type(op).__name__), _lam(right), ast.Constant(value=flag)]
        return ast.copy_location(_call("chain", *args), node)

    def visit_BoolOp(self, node):
        flags = [pure(v) for v in node.values]
        self.generic_visit(node)
        if not any(flags[1:]):
            return node
        args = [ast.Constant(value=isinstance(node.op, ast.And))]
        for f, v in zip(flags, node.values):
            args += [ast.Constant(value=f), _lam(v)]
        return ast.copy_location(_call("boolop", *args), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", node.value, self._index(node.slice)), node)
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=ast.Attribute(value=_name(PV), attr="slice", ctx=ast.Load()),
                            args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._index(x) for x in s.elts], ctx=ast.Load())
        return s

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "round":
            node.func = ast.Attribute(value=_name(PV), attr="round", ctx=ast.Load())
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("join", "format"):
            node.func = ast.Call(func=ast.Attribute(value=_name(PV), attr="textual", ctx=ast.Load()),
                                 args=[node.func.value, ast.Constant(value=node.func.attr)], keywords=[])
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return node

    def visit_ListComp(self, node):
        return self._comp(node)

    def visit_GeneratorExp(self, node):
        return self._comp(node)

    def visit_SetComp(self, node):
        return self._comp(node)

    def visit_DictComp(self, node):
        return self._comp(node)

    def _comp(self, node):
        self.generic_visit(node)
        return node

    # --- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body = self._flat(node.body)
        if node.type is None:
            node.type = ast.Attribute(value=_name(PV), attr="ANYEXC", ctx=ast.Load())
        return node

    def _flat(self, body):
        out = []
        for s in body:
            out += s if isinstance(s, list) else [s]
        return out

    def visit_If(self, node):
        test = self.visit(node.test)
        merge = self._mergeable(node) if self.infn else None
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        if merge is None:
            return ast.copy_location(ast.If(test=test, body=body or [ast.Pass()], orelse=orelse), node)
        self.tmp += 1
        c, m = "_pvc%d" % self.tmp, "_pvm%d" % self.tmp
        th, el, names = merge

        def dct(d):
            return _lam(ast.Dict(keys=[ast.Constant(value=k) for k in names],
                                 values=[d.get(k, _name(k)) for k in names]))
        th = {k: self.visit(v) for k, v in th.items()}
        el = {k: self.visit(v) for k, v in el.items()}
        st = [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=test),
              ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                         value=_call("merge", _name(c), dct(th), dct(el)))]
        upd = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())],
                          value=ast.Subscript(value=_name(m), slice=ast.Constant(value=k), ctx=ast.Load()))
               for k in names]
        isnt = ast.Compare(left=_name(m), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)])
        st.append(ast.If(test=isnt, body=upd,
                         orelse=[ast.If(test=_name(c), body=body or [ast.Pass()], orelse=orelse)]))
        return [ast.copy_location(s, node) for s in st]

    def _mergeable(self, node):
        import copy
        res = []
        for part in (node.body, node.orelse):
            d = {}
            for s in part:
                if isinstance(s, ast.Pass):
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                        and total(s.value):
                    n, v = s.targets[0].id, s.value
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and total(s.value) and \
                        isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)):
                    n = s.target.id
                    v = ast.BinOp(left=_name(n), op=s.op, right=s.value)
                else:
                    return None
                used = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                if n in d or used & set(d) or n in getattr(self, "globals", ()):
                    return None
                d[n] = copy.deepcopy(v)
            res.append(d)
        names = sorted(set(res[0]) | set(res[1]))
        if not names:
            return None
        return res[0], res[1], names

    def visit_For(self, node):
        if not self.infn:
            self.generic_visit(node)
            return node
        k = self.loops[-1]
        self.loops[-1] += 1
        site = "%s.%s#%d" % (self.module, ".".join(self.scope), k)
        it = self.visit(node.iter)
        names = [n for n in assigned([node]) if not n.startswith("_pv")]
        target = self.visit(node.target)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        self.tmp += 1
        L = "_pvl%d" % self.tmp
        pre = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())],
                         value=_call("loop", ast.Constant(value=site), it,
                                     ast.Constant(value=tuple(names))))
        more = [n for n in mutated([node]) if n in self.locals and n not in names]
        havoc = self._havoc(L, [n for n in names if n not in assigned([node.target])] + more)
        havocx = self._havoc(L, names + more)
        loop = ast.For(target=target, iter=_name(L), body=havoc + body, orelse=havocx + orelse)
        return [ast.copy_location(pre, node), ast.copy_location(loop, node)]

    def _havoc(self, L, names):
        hv = ast.Attribute(value=_name(L), attr="hv", ctx=ast.Load())
        body = []
        for n in names:
            body.append(ast.If(
                test=ast.Compare(left=ast.Constant(value=n), ops=[ast.In()], comparators=[hv]),
                body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                                 value=ast.Subscript(value=hv, slice=ast.Constant(value=n), ctx=ast.Load()))],
                orelse=[]))
        if not body:
            return []
        return [ast.If(test=hv, body=body, orelse=[])]

    def visit_While(self, node):
        if not self.infn or node.orelse:
            self.generic_visit(node)
            node.body = self._flat(node.body)
            return node
        k = self.loops[-1]
        self.loops[-1] += 1
        site = "%s.%s#%d" % (self.module, ".".join(self.scope), k)
        names = [n for n in assigned([node]) if not n.startswith("_pv")]
        more = [n for n in mutated([node]) if n in self.locals and n not in names]
        test = self.visit(node.test)
        body = self.block(node.body)
        self.tmp += 1
        L = "_pvl%d" % self.tmp
        pre = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())],
                         value=_call("wloop", ast.Constant(value=site), ast.Constant(value=tuple(names))))
        leave = ast.If(test=_call("not_", test),
                       body=[ast.Expr(value=ast.Call(func=ast.Attribute(value=_name(L), attr="left", ctx=ast.Load()),
                                                     args=[], keywords=[])), ast.Break()], orelse=[])
        loop = ast.For(target=ast.Name(id="_pvi%d" % self.tmp, ctx=ast.Store()), iter=_name(L),
                       body=self._havoc(L, names + more) + [leave] + body, orelse=[])
        return [ast.copy_location(pre, node), ast.copy_location(loop, node)]

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_With(self, node):
        node.items = [ast.withitem(context_expr=self.visit(i.context_expr),
                                   optional_vars=self.visit(i.optional_vars) if i.optional_vars else None)
                      for i in node.items]
        node.body = self.block(node.body)
        return node


_cache = {}


def code_of(path):
    """(code object, source text, tree) of the instrumented file."""
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        with tokenize.open(path) as f:
            src = f.read()
        tree = ast.parse(py2compat._fix_source(src), path)
        future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__"
                     and any(a.name == "division" for a in n.names) for n in tree.body)
        module = os.path.splitext(os.path.basename(path))[0]
        ins = Instrument(module, future)
        tree.body = ins.block(tree.body)
        ast.fix_missing_locations(tree)
        _cache[key] = compile(tree, path, "exec", dont_inherit=True), src
    return _cache[key]


def defined_functions(path):
    with tokenize.open(path) as f:
        tree = ast.parse(py2compat._fix_source(f.read()), path)
    module = os.path.splitext(os.path.basename(path))[0]
    out = []

    def walk(node, q):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.FunctionDef):
                out.append("%s.%s" % (module, ".".join(q + [n.name])))
                walk(n, q + [n.name])
            elif isinstance(n, ast.ClassDef):
                walk(n, q + [n.name])
    walk(tree, [])
    return out


def constants(path, names=None):
    """Numeric literals of the file (of the named functions), for the search for failing inputs."""
    with tokenize.open(path) as f:
        tree = ast.parse(py2compat._fix_source(f.read()), path)
    out = set()

    def collect(node):
        for n in ast.walk(node):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if abs(n.value) < 1e7:
                    out.add(n.value)
                    out.add(-n.value)
    if names is None:
        collect(tree)
    else:
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name in names:
                collect(n)
    return out
