"""Mechanical instrumentation of daisy's source and import of the result.

What the extraction changes or drops (everything else runs as written, in
CPython): loops and comprehensions are turned into calls that run the body on
a generic element if the collection is symbolic; container displays, attribute
assignments, `in`, `not`, `is None` and calls with starred arguments go through
the engine; generators are evaluated eagerly (except context managers);
async/await becomes synchronous; annotations are dropped; the logging module
is replaced by one that does nothing; third-party modules are replaced by
stubs (assumed contracts).
"""
import ast, importlib.abc, importlib.util, os, sys, types

REPO = os.environ.get("DV_REPO", "/repo")
DV = "_dv_rt"


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def dv(attr):
    return ast.Attribute(value=name(DV), attr=attr, ctx=ast.Load())


def call(attr, *args):
    return ast.Call(func=dv(attr), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class Scope(ast.NodeVisitor):
    """names stored / loaded in statements, without entering nested functions"""

    def __init__(self):
        self.stores, self.order = [], []

    def visit_FunctionDef(self, n):
        self.order.append(("s", n.name))
        self.stores.append(n.name)
        for sub in ast.walk(n):
            if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Load):
                self.order.append(("l", sub.id))

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        for sub in ast.walk(n):
            if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Load):
                self.order.append(("l", sub.id))

    def visit_ClassDef(self, n):
        self.stores.append(n.name)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.stores.append(n.id)
            self.order.append(("s", n.id))
        elif isinstance(n.ctx, ast.Load):
            self.order.append(("l", n.id))
        else:
            self.stores.append(n.id)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.order.append(("l", n.target.id))
        self.visit(n.value)
        self.visit(n.target)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
            self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.stores.append(n.name)
            self.order.append(("s", n.name))
        for s in n.body:
            self.visit(s)

    def _comp(self, n):
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for sub in ast.walk(n):
            if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Load) and sub.id not in bound:
                self.order.append(("l", sub.id))
            elif isinstance(sub, ast.NamedExpr):
                self.stores.append(sub.target.id)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def definitely_stored(stmts, nm):
    """is nm certainly stored before any load of it, scanning linearly (conservative)?"""
    for st in stmts:
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Delete, ast.Assert, ast.Raise,
                           ast.Return)):
            sc = Scope()
            sc.visit(st)
            for k, n in sc.order:
                if n == nm:
                    return k == "s"
        else:
            # compound statement: loads anywhere count as early loads unless preceded by a store inside
            sc = Scope()
            sc.visit(st)
            for k, n in sc.order:
                if n == nm:
                    if k == "l":
                        return False
                    break
            if isinstance(st, ast.If):
                a, b = definitely_stored(st.body, nm), definitely_stored(st.orelse, nm)
                if a and b:
                    return True
                if a is False or b is False:
                    return False
            elif isinstance(st, (ast.For, ast.While)) and isinstance(st, ast.For):
                if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st.target)):
                    return None  # stored if the loop runs
            elif isinstance(st, ast.Try):
                a = definitely_stored(st.body, nm)
                if a is not None:
                    return a
            elif isinstance(st, ast.With):
                a = definitely_stored(st.body, nm)
                if a is not None:
                    return a
    return None


class BodyControl(ast.NodeTransformer):
    """break/continue/return of a loop body that becomes a function"""

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        # untransformed inner loops own their break/continue; returns still leave
        return InnerReturns().visit(n)

    visit_While = visit_For

    def visit_Break(self, n):
        return ast.Return(value=dv("BRK"))

    def visit_Continue(self, n):
        return ast.Return(value=const(None))

    def visit_Return(self, n):
        return ast.Return(value=call("Ret", n.value or const(None)))


class InnerReturns(BodyControl):
    def visit_For(self, n):
        self.generic_visit(n)
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        return n

    def visit_Continue(self, n):
        return n


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def own_nodes(stmts):
    stack = list(stmts)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []  # stack of dicts: names to declare, eager generator?, qualname
        self.cls = []
        self.n = 0

    def uid(self, p):
        self.n += 1
        return f"__dv_{p}{self.n}"

    # ------------------------------------------------------------ functions
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        fn, self.fn = self.fn, []
        n = self.generic_visit(n)
        self.fn = fn
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        deco = [ast.unparse(d) for d in n.decorator_list]
        ctxm = any("contextmanager" in d for d in deco)
        gen = has_yield(n)
        glob = {x for s in own_nodes(n.body) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        qual = ".".join([self.mod.replace("daisy.", "", 1)] + self.cls + [f["name"] for f in self.fn] + [n.name])
        params = [a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]
        params += [x.arg for x in (n.args.vararg, n.args.kwarg) if x]
        lsc = Scope()
        for st in n.body:
            lsc.visit(st)
        info = dict(name=n.name, locals=(set(lsc.stores) | set(params)) - glob - {"self"}, decl=set(), eager=gen and not ctxm, lazy=gen and ctxm, glob=glob, qual=qual, loops=0,
                    params=params)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else d for d in n.args.kw_defaults]
        self.fn.append(info)
        body = self.stmts(n.body)
        self.fn.pop()
        if info["eager"]:
            # returns of a generator end it
            class R(ast.NodeTransformer):
                def visit_FunctionDef(s, x):
                    return x
                visit_Lambda = visit_ClassDef = visit_FunctionDef
                def visit_Return(s, x):
                    return ast.Return(value=call("gen_done", name("__dv_out")))
            # loop bodies were already turned into functions: their Ret() values are ignored by gen_done
            body = [R().visit(s) for s in body]
            body = [ast.Assign(targets=[name("__dv_out", ast.Store())], value=call("DList"))] + body
            body.append(ast.Return(value=call("gen_done", name("__dv_out"))))
        pre = []
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        decl = sorted(x for x in info["decl"] if x not in info["params"])
        if decl:
            pre.append(ast.If(test=const(0), body=[
                ast.Assign(targets=[name(x, ast.Store())], value=const(None)) for x in decl], orelse=[]))
        pre.insert(0, ast.Expr(call("enter", const(qual))))
        n.body = doc + pre + body or [ast.Pass()]
        return n

    def visit_AsyncFunctionDef(self, n):
        f = ast.FunctionDef(name=n.name, args=n.args, body=n.body, decorator_list=n.decorator_list, returns=None,
                            type_params=[])
        ast.copy_location(f, n)
        return self.visit_FunctionDef(f)

    def visit_Await(self, n):
        return call("await_", self.visit(n.value))

    def visit_Lambda(self, n):
        fn, self.fn = self.fn, self.fn + [dict(name="<lambda>", decl=set(), eager=False, lazy=False, glob=set(),
                                               qual="", loops=0, params=[])]
        n.body = self.visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        self.fn = fn
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Yield(self, n):
        v = self.visit(n.value) if n.value else const(None)
        if self.fn and self.fn[-1]["eager"]:
            return call("emit", name("__dv_out"), v)
        n.value = v
        return n

    def visit_YieldFrom(self, n):
        v = self.visit(n.value)
        if self.fn and self.fn[-1]["eager"]:
            return call("emit_all", name("__dv_out"), v)
        n.value = v
        return n

    # ---------------------------------------------------------------- loops
    def _body_fn(self, n, stmts, target):
        """turns loop statements (already transformed) into a body function"""
        f = self.fn[-1]
        src = list(stmts)
        sc = Scope()
        for s in src:
            sc.visit(s)
        if target is not None:
            sc.visit(target)
        nm = [x for x in dict.fromkeys(sc.stores) if x not in f["glob"] and not x.startswith("__dv_")]
        return nm

    def visit_For(self, n):
        if not self.fn or self.fn[-1]["lazy"] and any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(n.body)):
            return self.generic_visit(n)
        f = self.fn[-1]
        f["loops"] += 1
        where = f"{f['qual']}#for{f['loops']}"
        orig = n.body
        names = self._body_fn(n, orig, n.target)
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        carried = []
        for x in names:
            if x in tnames:
                continue
            if definitely_stored(orig, x) is True:
                continue
            # stored in the body, but possibly read from an earlier iteration
            sc = Scope()
            for s in orig:
                sc.visit(s)
            if any(k == "l" and y == x for k, y in sc.order):
                carried.append(x)
        it = self.visit(n.iter)
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)
        target = self.visit(n.target)
        f["decl"].update(names)
        fname, rname, ename = self.uid("body"), self.uid("r"), "__dv_e"
        bc = BodyControl()
        stm = [bc.visit(s) for s in body]
        asn = ast.Assign(targets=[target], value=name(ename))
        inner = ([ast.Nonlocal(names=names)] if names else []) + [asn] + stm
        fdef = ast.FunctionDef(name=fname, args=args(ename), body=inner, decorator_list=[], returns=None, type_params=[])
        get, setdef, sname = self._frame(names)
        cl = call("forloop", it, name(fname), ast.Tuple([const(x) for x in names], ast.Load()),
                  ast.Tuple([const(x) for x in carried], ast.Load()), get, name(sname), const(where))
        asg = ast.Assign(targets=[name(rname, ast.Store())], value=cl)
        ret = ast.If(test=call("is_ret", name(rname)),
                     body=[ast.Return(value=ast.Attribute(value=name(rname), attr="value", ctx=ast.Load()))], orelse=[])
        tail = [ret]
        if orelse:
            tail.append(ast.If(test=ast.Compare(left=name(rname), ops=[ast.Is()], comparators=[const(None)]),
                               body=orelse, orelse=[]))
        out = [fdef, setdef, asg] + tail
        for o in out:
            ast.copy_location(o, n)
        return out

    def _frame(self, names):
        get = ast.Lambda(args=args(), body=ast.Tuple(
            [call("g", ast.Lambda(args=args(), body=name(x))) for x in names], ast.Load()))
        sname = self.uid("set")
        ps = ["__dv_v%d" % i for i in range(len(names))]
        sbody = ([ast.Nonlocal(names=list(names))] if names else []) + [
            ast.Assign(targets=[name(x, ast.Store())], value=name(p)) for x, p in zip(names, ps)] + [ast.Pass()]
        setdef = ast.FunctionDef(name=sname, args=args(*ps), body=sbody, decorator_list=[], returns=None, type_params=[])
        return get, setdef, sname

    visit_AsyncFor = None

    def visit_While(self, n):
        if not self.fn or self.fn[-1]["lazy"] and any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(n.body)):
            return self.generic_visit(n)
        f = self.fn[-1]
        f["loops"] += 1
        where = f"{f['qual']}#while{f['loops']}"
        names = self._body_fn(n, n.body, None)
        lsc = Scope()
        lsc.visit(n.test)
        for st in n.body:
            lsc.visit(st)
        # lists that are used as stacks or queues are only read by name
        names += [x for x in dict.fromkeys(x for k, x in lsc.order if k == "l") if x in f["locals"] and x not in names]
        test = self.visit(n.test)
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)
        f["decl"].update(names)
        fname, rname = self.uid("body"), self.uid("r")
        stm = [BodyControl().visit(s) for s in body]
        fdef = ast.FunctionDef(name=fname, args=args(), body=([ast.Nonlocal(names=names)] if names else []) + stm,
                               decorator_list=[], returns=None, type_params=[])
        get, setdef, sname = self._frame(names)
        cl = call("whileloop", ast.Lambda(args=args(), body=test), name(fname),
                  ast.Tuple([const(x) for x in names], ast.Load()), get, name(sname), const(where))
        asg = ast.Assign(targets=[name(rname, ast.Store())], value=cl)
        ret = ast.If(test=call("is_ret", name(rname)),
                     body=[ast.Return(value=ast.Attribute(value=name(rname), attr="value", ctx=ast.Load()))], orelse=[])
        tail = [ret]
        if orelse:
            tail.append(ast.If(test=ast.Compare(left=name(rname), ops=[ast.Is()], comparators=[const(None)]),
                               body=orelse, orelse=[]))
        out = [fdef, setdef, asg] + tail
        for o in out:
            ast.copy_location(o, n)
        return out

    # ------------------------------------------------------- comprehensions
    def _comp(self, n, kind, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        if isinstance(g.target, ast.Name):
            ps = [g.target.id]
        elif isinstance(g.target, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in g.target.elts):
            ps = [x.id for x in g.target.elts]
        else:
            return self.generic_visit(n)
        it = self.visit(g.iter)
        self.fn.append(dict(name="<comp>", decl=set(), eager=False, lazy=False, glob=set(), qual="", loops=0, params=[]))
        elt = self.visit(elt)
        cond = const(None)
        if g.ifs:
            c = [self.visit(x) for x in g.ifs]
            cond = ast.Lambda(args=args(*uniq(ps)), body=c[0] if len(c) == 1 else ast.BoolOp(op=ast.And(), values=c))
        self.fn.pop()
        return ast.copy_location(call("comp", const(kind), it, const(len(ps)), ast.Lambda(args=args(*uniq(ps)), body=elt),
                                      cond), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", ast.Tuple([n.key, n.value], ast.Load()))

    # -------------------------------------------------------------- displays
    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn:
            return ast.copy_location(call("DList", n), n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if not self.fn or any(k is None for k in n.keys):
            return ast.copy_location(call("mkdict", n), n) if self.fn else n
        ps = ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
        return ast.copy_location(call("mkdict", ps), n)

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(call("mkset", ast.Tuple(n.elts, ast.Load())), n) if self.fn else n

    # ------------------------------------------------------------ operators
    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1:
            op, r = n.ops[0], n.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call("contains", n.left, r), n)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(call("not_", call("contains", n.left, r)), n)
            if isinstance(op, (ast.Is, ast.IsNot)):
                return ast.copy_location(call("is_" if isinstance(op, ast.Is) else "isnot_", n.left, r), n)
        return n

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(call("not_", n.operand), n)
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return ast.copy_location(call("strmod", n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        n = self.generic_visit(n)
        if not self.fn:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    return n
                parts.append(v.value)
            else:
                parts.append(v)
        return ast.copy_location(call("fstr", *parts), n)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords and \
                not isinstance(n.args[0], ast.Starred) and self.fn:
            return ast.copy_location(call("strjoin", n.func.value, n.args[0]), n)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            items = [ast.Tuple([const(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a],
                               ast.Load()) for a in n.args]
            return ast.copy_location(ast.Call(func=dv("starcall"), args=[n.func, ast.Tuple(items, ast.Load())],
                                              keywords=n.keywords), n)
        return n

    # ----------------------------------------------------------- assignments
    def mangle(self, a):
        if a.startswith("__") and not a.endswith("__") and self.cls:
            return "_" + self.cls[-1].lstrip("_") + a
        return a

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call("setattr_", t.value, const(self.mangle(t.attr)), n.value)), n)
        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            # tuple targets etc.: go through a temporary
            out, tmp = [], self.uid("t")
            if self.fn:
                self.fn[-1]["decl"]
            out.append(ast.Assign(targets=[name(tmp, ast.Store())], value=n.value))
            for t in n.targets:
                out.extend(self._assign_to(t, name(tmp)))
            for o in out:
                ast.copy_location(o, n)
            return out
        return n

    def _assign_to(self, t, v):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call("setattr_", t.value, const(self.mangle(t.attr)), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmp, out = self.uid("t"), []
            out.append(ast.Assign(targets=[name(tmp, ast.Store())], value=call("unpack", v, const(len(t.elts)))))
            for i, x in enumerate(t.elts):
                out.extend(self._assign_to(x, ast.Subscript(value=name(tmp), slice=const(i), ctx=ast.Load())))
            return out
        return [ast.Assign(targets=[t], value=v)]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if isinstance(n.target, ast.Attribute):
            return ast.copy_location(ast.Expr(call("augattr", n.target.value, const(self.mangle(n.target.attr)),
                                                   const(type(n.op).__name__), n.value)), n)
        if isinstance(n.target, ast.Subscript):
            return ast.copy_location(ast.Expr(call("augitem", n.target.value, n.target.slice,
                                                   const(type(n.op).__name__), n.value)), n)
        return n

    def visit_Delete(self, n):
        n = self.generic_visit(n)
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == "BaseException"):
            if n.type is None:
                n.type = name("BaseException")
            if n.name is None:
                n.name = self.uid("ex")
            n.body = [ast.Expr(call("control", name(n.name)))] + n.body
        else:
            # engine errors must not look like exceptions of the code
            if n.name is None:
                n.name = self.uid("ex")
            n.body = [ast.Expr(call("engine_error", name(n.name)))] + n.body
        return n


def uniq(ps):
    out, seen = [], set()
    for i, p in enumerate(ps):
        if p in seen:
            out.append(f"__dv_dup{i}")
        else:
            seen.add(p)
            out.append(p)
    # the last occurrence wins for repeated names (e.g. `_`); nobody reads those
    return out


def args(*ps):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[])


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    tree.body = [s for s in tree.body if not (isinstance(s, ast.ImportFrom) and s.module == "__future__")]
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """imports daisy.* from the instrumented source"""

    def __init__(self, ns, mods):
        self.ns, self.mods = ns, mods
        import builtins

        def imp(nm, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and nm in self.mods and (fromlist or "." not in nm):
                return self.mods[nm]
            if level == 0 and "." in nm and nm.split(".")[0] in self.mods and not fromlist:
                return self.mods[nm.split(".")[0]]
            return builtins.__import__(nm, globals, locals, fromlist, level)

        self.builtins = dict(builtins.__dict__, __import__=imp)

    def find_spec(self, fullname, path, target=None):
        if fullname != "daisy" and not fullname.startswith("daisy."):
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            f, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            f, pkg = base + ".py", False
        else:
            return None
        spec = importlib.util.spec_from_loader(fullname, self, is_package=pkg, origin=f)
        spec.dv_file = f
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.dv_file
        module.__file__ = f
        if module.__name__ == "daisy":
            return  # sub-modules are imported on demand
        with open(f) as fh:
            src = fh.read()
        tree = transform(src, module.__name__, f)
        module.__dict__["__builtins__"] = self.builtins
        module.__dict__.update(self.ns)
        exec(compile(tree, f, "exec"), module.__dict__)
        for k, v in self.ns.items():
            if k not in module.__dict__:
                module.__dict__[k] = v


def install(ns, stubs):
    """stubs: modules as seen by the instrumented code only"""
    sys.meta_path.insert(0, Finder(ns, stubs))


def stub(name_, **attrs):
    m = types.ModuleType(name_)
    m.__dict__.update(attrs)
    m.__path__ = []
    return m
