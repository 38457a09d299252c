"""Mechanical instrumentation of the real source (run on every check, from /repo's working tree).

Every module of an instrumented package is parsed with `ast`, rewritten by the rules below and compiled by
CPython itself.  The rewriting only *routes* operations through the engine (`__pyvc__`), it never replaces the
text of the program by a model:

  f(a)               -> __pyvc__.call(f, a)
  f"..{x}.."         -> __pyvc__.fstr(("..", (x, conv, spec), ".."))
  a in b / a is b    -> __pyvc__.contains(a, b) / __pyvc__.is_(a, b)
  a[i], a[i] = v     -> __pyvc__.getitem(a, i), __pyvc__.setitem(a, i, v)
  o.x = v            -> __pyvc__.setattr_(o, "x", v)
  [..], {..}, {k: v} -> __pyvc__.mklist([..]) ... (journaled subclasses of list / set / dict)
  for T in IT: B     -> B becomes a local closure (nonlocal variables), run by __pyvc__.forloop
  comprehensions     -> __pyvc__.comp(kind, IT, cond-lambda, element-lambda)
  @lru_cache         -> @__pyvc__.lru, a memo table that belongs to the path (a path is one fresh process)

With no symbolic value around, every hook performs exactly the CPython operation; `selftest` runs the
repository's own test-suite on the instrumented package to check that.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

E = "__pyvc__"


def _name(id_, ctx=None):
    return ast.Name(id=id_, ctx=ctx or ast.Load())


def _hook(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name(E), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class _StoredNames(ast.NodeVisitor):
    """names bound in a statement list, in the function scope (not inside nested scopes)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)
        for d in node.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def _comp(self, node):
        # only walrus targets escape a comprehension
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self.add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def stored_names(stmts):
    v = _StoredNames()
    for s in stmts:
        v.visit(s)
    return v.names


def _contains(stmts, kinds, stop=(ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
    def walk(n):
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))

    return any(walk(s) for s in stmts)


class _LoopSignals(ast.NodeTransformer):
    """inside a loop body turned into a closure: return/break/continue become signals"""

    def __init__(self):
        self.has_return = False
        self.has_break = False

    def visit_FunctionDef(self, node):
        return node

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, node):
        self.has_return = True
        return ast.copy_location(
            ast.Return(value=_hook("Ret", node.value if node.value else ast.Constant(value=None))), node
        )

    def visit_Break(self, node):
        self.has_break = True
        return ast.copy_location(
            ast.Return(value=ast.Attribute(value=_name(E), attr="BRK", ctx=ast.Load())), node
        )

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=ast.Constant(value=None)), node)

    def _inner_loop(self, node):
        # break/continue inside a (native) inner loop belong to it, return does not
        r = _ReturnsOnly(self)
        node.body = [r.visit(s) for s in node.body]
        node.orelse = [self.visit(s) for s in node.orelse]
        return node

    visit_While = visit_For = visit_AsyncFor = _inner_loop


class _ReturnsOnly(ast.NodeTransformer):
    def __init__(self, outer):
        self.outer = outer

    def visit_FunctionDef(self, node):
        return node

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, node):
        return self.outer.visit_Return(node)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, enter_hook):
        self.mod = modname
        self.scope = []  # ("func"|"class", name)
        self.n = 0
        self.enter_hook = enter_hook

    def fresh(self, p):
        self.n += 1
        return f"__pv_{p}{self.n}"

    @property
    def in_func(self):
        return bool(self.scope) and self.scope[-1][0] == "func"

    # ---- scopes
    def visit_FunctionDef(self, node):
        decos = []
        for d in node.decorator_list:
            txt = ast.unparse(d)
            if "lru_cache" in txt or txt in ("functools.cache", "cache"):
                lru = ast.Attribute(value=_name(E), attr="lru", ctx=ast.Load())
                if isinstance(d, ast.Call):
                    lru = ast.Call(func=lru, args=d.args, keywords=d.keywords)
                elif txt in ("functools.cache", "cache"):
                    lru = ast.Call(func=lru, args=[ast.Constant(value=None)], keywords=[])
                decos.append(lru)
                continue
            decos.append(self.visit(d))
        node.decorator_list = decos
        node.args = self.generic_visit(node.args)
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.scope.append(("func", node.name))
        uses_super = any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args
            for n in ast.walk(node)
        )
        self_name = node.args.args[0].arg if node.args.args else None
        if uses_super and self_name:
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                    n.args = [_name("__class__"), _name(self_name)]
        body = []
        doc = ast.get_docstring(node)
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        if self.enter_hook:
            qn = ".".join(s[1] for s in self.scope)
            ent = ast.Expr(value=_hook("enter", ast.Constant(value=self.mod), ast.Constant(value=qn), ast.Constant(value=node.lineno)))
            pos = 1 if doc is not None and len(body) else 0
            body.insert(pos, ent)
        if node.args.vararg:
            v = node.args.vararg.arg
            body.insert(1 if doc is not None and len(body) else 0, ast.Assign(targets=[_name(v, ast.Store())], value=_hook("unvar", _name(v))))
        node.body = body
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        node.args = self.generic_visit(node.args)
        self.scope.append(("func", "<lambda>"))
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.scope.append(("class", node.name))
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.scope.pop()
        return node

    def _mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            for kind, name in reversed(self.scope):
                if kind == "class":
                    return "_" + name.lstrip("_") + attr
        return attr

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars") :
            return self.generic_visit(node)
        self.generic_visit(node)
        for a in node.args:
            if isinstance(a, ast.Starred):
                a.value = _hook("star", a.value)
        return ast.copy_location(
            ast.Call(
                func=ast.Attribute(value=_name(E), attr="call", ctx=ast.Load()),
                args=[node.func] + node.args,
                keywords=node.keywords,
            ),
            node,
        )

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()
                    )
                )
        return ast.copy_location(_hook("fstr", ast.Tuple(elts=parts, ctx=ast.Load())), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops):
                return node  # chained with in/is: left native
            return node
        op, a, b = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            r = _hook("contains", a, b)
        elif isinstance(op, ast.NotIn):
            r = ast.UnaryOp(op=ast.Not(), operand=_hook("contains", a, b))
        elif isinstance(op, ast.Is):
            r = _hook("is_", a, b)
        elif isinstance(op, ast.IsNot):
            r = ast.UnaryOp(op=ast.Not(), operand=_hook("is_", a, b))
        elif isinstance(op, ast.Eq):
            r = _hook("eq_", a, b)
        elif isinstance(op, ast.NotEq):
            r = _hook("ne_", a, b)
        else:
            return node
        return ast.copy_location(r, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_hook("mod_", node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not self.in_func:
            return node
        return ast.copy_location(_hook("getitem", node.value, self._slice(node.slice)), node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_name("slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        return s

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(_hook("mklist", node), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_hook("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_hook("mkdict", ast.List(elts=items, ctx=ast.Load())), node)

    def _comp(self, node, kind):
        if not self.in_func or any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        if any(isinstance(n, (ast.NamedExpr, ast.Await)) for n in ast.walk(node)):
            return self.generic_visit(node)
        if any(isinstance(n, ast.Starred) for g in node.generators for n in ast.walk(g.target)):
            return self.generic_visit(node)
        if kind == "dict":
            elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        else:
            elt = node.elt
        self.scope.append(("func", "<comp>"))
        elt = self.visit(elt)
        gens = []
        for g in node.generators:
            gens.append((g.target, self.visit(g.iter), [self.visit(c) for c in g.ifs]))
        self.scope.pop()
        cur = elt
        for i in range(len(gens) - 1, -1, -1):
            tgt, it, ifs = gens[i]
            outer = i == 0
            innermost = i == len(gens) - 1
            if not ifs:
                cond = ast.Constant(value=None)
            else:
                c = ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)
                cond = self._tlambda(tgt, c)
            cur = _hook(
                "comp",
                ast.Constant(value=kind if outer else "gen"),
                it,
                cond,
                self._tlambda(tgt, cur),
                ast.Constant(value=not innermost),
            )
        return ast.copy_location(cur, node)

    def _tlambda(self, target, body):
        def mk(names):
            return ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]
            )

        if isinstance(target, ast.Name):
            return ast.Lambda(args=mk([target.id]), body=body)
        names = []

        def pat(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return ast.Constant(value=1)
            return ast.Tuple(elts=[pat(x) for x in t.elts], ctx=ast.Load())

        p = pat(target)
        # duplicate names such as (_, _) are renamed except for the last
        seen, uniq = set(), []
        for n in reversed(names):
            uniq.append(n if n not in seen else self.fresh("u"))
            seen.add(n)
        uniq.reverse()
        inner = ast.Lambda(args=mk(uniq), body=body)
        return ast.Lambda(
            args=mk(["__pv_p"]),
            body=ast.Call(
                func=inner, args=[ast.Starred(value=_hook("unpack", _name("__pv_p"), p), ctx=ast.Load())], keywords=[]
            ),
        )

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    # ---- statements
    def visit_AnnAssign(self, node):
        if node.value is None:
            # a bare annotation binds the name as local in a function: keep that
            return node
        if isinstance(node.target, ast.Name) and not self.in_func:
            node.value = self.visit(node.value)
            return node
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def _unpack_pat(self, target):
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in target.elts):
            return len(target.elts)
        return None

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and self.in_func:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                return ast.copy_location(
                    ast.Expr(value=_hook("setitem", self.visit(t.value), self._slice(self.visit(t.slice)), node.value)), node
                )
            if isinstance(t, ast.Attribute):
                return ast.copy_location(
                    ast.Expr(value=_hook("setattr_", self.visit(t.value), ast.Constant(value=self._mangle(t.attr)), node.value)),
                    node,
                )
            n = self._unpack_pat(t)
            if n is not None:
                node.value = _hook("unpackn", node.value, ast.Constant(value=n))
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if not self.in_func:
            return node
        t = node.target
        opn = type(node.op).__name__
        if isinstance(t, ast.Subscript):
            a, i = self.fresh("a"), self.fresh("i")
            return [
                ast.copy_location(ast.Assign(targets=[_name(a, ast.Store())], value=self.visit(t.value)), node),
                ast.copy_location(ast.Assign(targets=[_name(i, ast.Store())], value=self._slice(self.visit(t.slice))), node),
                ast.copy_location(
                    ast.Expr(
                        value=_hook(
                            "setitem",
                            _name(a),
                            _name(i),
                            _hook("aug", ast.Constant(value=opn), _hook("getitem", _name(a), _name(i)), node.value),
                        )
                    ),
                    node,
                ),
            ]
        if isinstance(t, ast.Attribute):
            a = self.fresh("a")
            return [
                ast.copy_location(ast.Assign(targets=[_name(a, ast.Store())], value=self.visit(t.value)), node),
                ast.copy_location(
                    ast.Expr(
                        value=_hook(
                            "setattr_",
                            _name(a),
                            ast.Constant(value=self._mangle(t.attr)),
                            _hook(
                                "aug",
                                ast.Constant(value=opn),
                                ast.Attribute(value=_name(a), attr=t.attr, ctx=ast.Load()),
                                node.value,
                            ),
                        )
                    ),
                    node,
                ),
            ]
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and self.in_func:
                out.append(
                    ast.copy_location(ast.Expr(value=_hook("delitem", self.visit(t.value), self._slice(self.visit(t.slice)))), node)
                )
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            h.body.insert(0, ast.Expr(value=_hook("caught")))
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                node.handlers.insert(
                    0,
                    ast.ExceptHandler(
                        type=ast.Attribute(value=_name(E), attr="Control", ctx=ast.Load()),
                        name=None,
                        body=[ast.Raise(exc=None, cause=None)],
                    ),
                )
                break
        return node

    def visit_For(self, node):
        if not self.in_func or _contains(node.body, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            node.iter = _hook("native_iter", self.visit(node.iter))
            node.body = self._stmts(node.body)
            node.orelse = self._stmts(node.orelse)
            return node
        it = self.visit(node.iter)
        target_names = stored_names([ast.Assign(targets=[node.target], value=ast.Constant(value=0))])
        names = list(target_names)
        for n in stored_names(node.body):
            if n not in names:
                names.append(n)
        body = self._stmts(node.body)
        # temporaries made by the rewriting of the body
        for n in stored_names(body):
            if n not in names:
                names.append(n)
        sig = _LoopSignals()
        body = [sig.visit(s) for s in body]
        fb, fg, fs, arg, s = (self.fresh(p) for p in ("body", "get", "set", "x", "sig"))
        assign_t = ast.Assign(targets=[node.target], value=_name(arg))
        n = self._unpack_pat(node.target)
        if n is not None:
            assign_t.value = _hook("unpackn", _name(arg), ast.Constant(value=n))
        args1 = ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[], kw_defaults=[], defaults=[])
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        nl = [ast.Nonlocal(names=list(names))] if names else []
        bind = ast.If(
            test=ast.Constant(value=0),
            body=[ast.Assign(targets=[_name(n_, ast.Store())], value=ast.Constant(value=None)) for n_ in names],
            orelse=[],
        )
        fdef = ast.FunctionDef(
            name=fb, args=args1, body=nl + [assign_t] + body, decorator_list=[], returns=None, type_params=[]
        )
        # getter
        gbody = list(nl) + [ast.Assign(targets=[_name("__pv_d", ast.Store())], value=ast.Dict(keys=[], values=[]))]
        for n_ in names:
            gbody.append(
                ast.Try(
                    body=[
                        ast.Assign(
                            targets=[
                                ast.Subscript(value=_name("__pv_d"), slice=ast.Constant(value=n_), ctx=ast.Store())
                            ],
                            value=_name(n_),
                        )
                    ],
                    handlers=[ast.ExceptHandler(type=_name("NameError"), name=None, body=[ast.Pass()])],
                    orelse=[],
                    finalbody=[],
                )
            )
        gbody.append(ast.Return(value=_name("__pv_d")))
        gdef = ast.FunctionDef(name=fg, args=noargs, body=gbody, decorator_list=[], returns=None, type_params=[])
        sbody = list(nl)
        for n_ in names:
            sbody.append(
                ast.If(
                    test=ast.Compare(left=ast.Constant(value=n_), ops=[ast.In()], comparators=[_name("__pv_d")]),
                    body=[
                        ast.Assign(
                            targets=[_name(n_, ast.Store())],
                            value=ast.Subscript(
                                value=_name("__pv_d"), slice=ast.Constant(value=n_), ctx=ast.Load()
                            ),
                        )
                    ],
                    orelse=[
                        ast.Try(
                            body=[ast.Delete(targets=[_name(n_, ast.Del())])],
                            handlers=[ast.ExceptHandler(type=_name("NameError"), name=None, body=[ast.Pass()])],
                            orelse=[],
                            finalbody=[],
                        )
                    ],
                )
            )
        sargs = ast.arguments(
            posonlyargs=[], args=[ast.arg(arg="__pv_d")], kwonlyargs=[], kw_defaults=[], defaults=[]
        )
        sdef = ast.FunctionDef(name=fs, args=sargs, body=sbody or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        run = ast.Assign(
            targets=[_name(s, ast.Store())],
            value=_hook(
                "forloop",
                it,
                _name(fb),
                _name(fg),
                _name(fs),
                ast.Tuple(elts=[ast.Constant(value=t) for t in target_names], ctx=ast.Load()),
                ast.Constant(value=f"{self.mod}:{node.lineno}"),
            ),
        )
        out = [bind, fdef, gdef, sdef, run]
        if sig.has_return:
            out.append(
                ast.If(
                    test=_hook("is_ret", _name(s)),
                    body=[ast.Return(value=ast.Attribute(value=_name(s), attr="value", ctx=ast.Load()))],
                    orelse=[],
                )
            )
        if node.orelse:
            out.append(
                ast.If(
                    test=ast.Compare(
                        left=_name(s),
                        ops=[ast.IsNot()],
                        comparators=[ast.Attribute(value=_name(E), attr="BRK", ctx=ast.Load())],
                    ),
                    body=self._stmts(node.orelse),
                    orelse=[],
                )
            )
        for o in out:
            ast.copy_location(o, node)
        return out

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out


def instrument_source(src, filename, modname, enter_hook=True):
    tree = ast.parse(src, filename)
    if "from __future__ import annotations" not in src:
        pass
    tree = Rewriter(modname, enter_hook).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class _Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path, enter):
        self.fullname, self.path, self.enter = fullname, path, enter

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError  # never read or write a .pyc

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = instrument_source(data.decode("utf-8"), path, self.fullname, self.enter)
        return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, packages, plain=()):
        self.packages = tuple(packages)
        self.plain = tuple(plain)

    def find_spec(self, fullname, path, target=None):
        root = fullname.split(".")[0]
        if root not in self.packages:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = _Loader(fullname, spec.origin, root not in ("pypika",))
        return spec


def install(packages):
    f = Finder(packages)
    sys.meta_path.insert(0, f)
    return f
