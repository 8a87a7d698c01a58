"""Equivalent simpler source for texts that are collected in a list and joined at the end.

    parts = [a]; ...; parts.append(f(x)); ...; b"".join(parts)      becomes a running concatenation
    b"".join(f(x) for x in xs), b"".join(map(f, xs))                become a loop that extends a text

Both are done only where the parts come from functions of the package; what the interpreter follows
directly is left alone.
"""
import ast
import builtins


def _empty_join(n):
    """Constant separator of `"".join(x)` / `b"".join(x)`, or None"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 \
            and not n.keywords and isinstance(n.func.value, ast.Constant) and n.func.value.value in ("", b"") \
            and not isinstance(n.args[0], ast.Starred):
        return n.func.value.value
    return None


def _calls_package(e):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not hasattr(builtins, n.func.id)
               for n in ast.walk(e))


def _name(n, ctx=ast.Load):
    return ast.Name(id=n, ctx=ctx())


class _Names(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(id=self.m[n.id], ctx=n.ctx), n)
        return n


def _own(fn):
    """Nodes of the function outside of nested functions, and names used inside of those"""
    own, inner = [], set()
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        own.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            inner |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
            continue
        todo += list(ast.iter_child_nodes(n))
    return own, inner


def _pieces(v):
    """Elements of a list display, or None"""
    if isinstance(v, ast.List) and not any(isinstance(e, ast.Starred) for e in v.elts):
        return v.elts
    return None


def _sum(start, elts, at):
    for e in elts:
        start = ast.copy_location(ast.BinOp(left=start, op=ast.Add(), right=e), at)
    return start


def collected(fn):
    own, inner = _own(fn)
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    shared = {x for n in own if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    loads, seps, ok, elts, stores = {}, {}, {}, {}, {}
    for n in own:
        if isinstance(n, ast.Name):
            loads.setdefault(n.id, []).append(n)

    def use(node, es=()):
        ok.setdefault(node.id, set()).add(id(node))
        elts.setdefault(node.id, []).extend(es)
    for n in own:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and _pieces(n.value) is not None:
            use(n.targets[0], n.value.elts)
            stores.setdefault(n.targets[0].id, []).append(n)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None \
                and _pieces(n.value) is not None:
            use(n.target, n.value.elts)
            stores.setdefault(n.target.id, []).append(n)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) \
                and _pieces(n.value) is not None:
            use(n.target, n.value.elts)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and isinstance(n.value.func.value, ast.Name) and len(n.value.args) == 1 and not n.value.keywords:
            a = n.value.args[0]
            if n.value.func.attr == "append" and not isinstance(a, ast.Starred):
                use(n.value.func.value, [a])
            elif n.value.func.attr == "extend" and (isinstance(a, ast.Tuple) or _pieces(a) is not None) \
                    and not any(isinstance(e, ast.Starred) for e in a.elts):
                use(n.value.func.value, a.elts)
        s = _empty_join(n)
        if s is not None and isinstance(n.args[0], ast.Name):
            use(n.args[0])
            seps.setdefault(n.args[0].id, []).append(s)
    names = {}
    for x, ss in seps.items():
        if x in inner or x in params or x in shared or not stores.get(x) or len({type(s) for s in ss}) != 1:
            continue
        if all(id(n) in ok[x] for n in loads[x]) and any(_calls_package(e) for e in elts[x]):
            names[x] = ss[0]
    if not names:
        return False

    class Swap(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names \
                    and _pieces(n.value) is not None:
                es = [self.visit(e) for e in n.value.elts]
                n.value = _sum(ast.copy_location(ast.Constant(names[n.targets[0].id]), n), es, n)
                return n
            return self.generic_visit(n)

        def visit_AnnAssign(self, n):
            if isinstance(n.target, ast.Name) and n.target.id in names and n.value is not None:
                es = [self.visit(e) for e in n.value.elts]
                return ast.copy_location(ast.Assign(targets=[n.target], value=_sum(
                    ast.copy_location(ast.Constant(names[n.target.id]), n), es, n)), n)
            return self.generic_visit(n)

        def grow(self, x, es, n):
            es = [self.visit(e) for e in es]
            if not es:
                return ast.copy_location(ast.Pass(), n)
            return ast.copy_location(ast.Assign(targets=[ast.copy_location(_name(x, ast.Store), n)],
                                                value=_sum(ast.copy_location(_name(x), n), es, n)), n)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and n.target.id in names:
                return self.grow(n.target.id, n.value.elts, n)
            return self.generic_visit(n)

        def visit_Expr(self, n):
            c = n.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) \
                    and c.func.value.id in names and c.func.attr in ("append", "extend"):
                return self.grow(c.func.value.id, [c.args[0]] if c.func.attr == "append" else c.args[0].elts, n)
            return self.generic_visit(n)

        def visit_Call(self, n):
            if _empty_join(n) is not None and isinstance(n.args[0], ast.Name) and n.args[0].id in names:
                return n.args[0]
            return self.generic_visit(n)
    fn.body = [Swap().visit(b) for b in fn.body]
    return True


def _plain(e, but):
    """Nothing but names, constants, sums and displays around the join"""
    if e is but:
        return True
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, ast.Add) and _plain(e.left, but) and _plain(e.right, but)
    if isinstance(e, ast.Tuple):
        return all(_plain(x, but) for x in e.elts)
    return False


def joins(fn):
    """Joins of computed parts as loops in front of their statement"""
    done = [False]
    count = [0]
    if any(isinstance(n, ast.Nonlocal) for n in ast.walk(fn)):
        return False

    def one(s):
        v = s.value
        js = [n for n in ast.walk(v) if _empty_join(n) is not None]
        if len(js) != 1 or not _plain(v, js[0]):
            return [s]
        j = js[0]
        a = j.args[0]
        count[0] += 1
        pre = "joined %d.%d " % (j.lineno, count[0])
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and len(a.generators) == 1 and not a.generators[0].is_async:
            g = a.generators[0]
            inner = [a.elt] + g.ifs
            if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr,
                                  ast.Yield, ast.YieldFrom)) for e in inner for n in ast.walk(e)):
                return [s]
            if not _calls_package(a.elt):
                return [s]
            m = {n.id: pre + n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            target, elt = _Names(m).visit(g.target), _Names(m).visit(a.elt)
            ifs = [_Names(m).visit(e) for e in g.ifs]
            it = g.iter
        elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "map" and len(a.args) == 2 \
                and not a.keywords and isinstance(a.args[0], ast.Name) and not hasattr(builtins, a.args[0].id):
            target, it, ifs = _name(pre + "x", ast.Store), a.args[1], []
            elt = ast.Call(func=a.args[0], args=[_name(pre + "x")], keywords=[])
        else:
            return [s]
        acc = pre + "text"
        body = [ast.Assign(targets=[_name(acc, ast.Store)], value=ast.BinOp(left=_name(acc), op=ast.Add(), right=elt))]
        for e in reversed(ifs):
            body = [ast.If(test=e, body=body, orelse=[])]
        loop = ast.For(target=target, iter=it, body=body, orelse=[])
        start = ast.Assign(targets=[_name(acc, ast.Store)], value=ast.Constant(_empty_join(j)))

        class Swap(ast.NodeTransformer):
            def visit_Call(self, n):
                return _name(acc) if n is j else self.generic_visit(n)
        s.value = Swap().visit(v)
        new = [start, loop, s]
        for x in new:
            for n in ast.walk(x):
                if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, "lineno"):
                    ast.copy_location(n, j)
        done[0] = True
        return new

    def block(b):
        out = []
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.append(s)
                continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list):
                    setattr(s, f, block(getattr(s, f)))
            for h in getattr(s, "handlers", ()):
                h.body = block(h.body)
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)) and s.value is not None:
                out += one(s)
            else:
                out.append(s)
        return out
    fn.body = block(fn.body)
    return done[0]


def module(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            joins(fn)
            collected(fn)
    return tree
