"""Abstract interpreter: walks the syntax trees of the package and computes, for every function
reachable from an entry point, the abstract values, effects and exceptions on every path.

The program is never executed.  Statement semantics are transfer functions over State (state.py);
control-flow joins merge states, loops are solved by a widening fixpoint over loop-carried symbols
(or unrolled when the iterated collection is a known finite table, such as the 64 bits of a bitmap).
Constructs outside the modelled subset produce an unknown value, never a guess.
"""
import ast
import builtins as _pybuiltins
import os

from . import bdd
from . import terms as T
from . import rewrite
from .terms import Term, mk, const, tup
from .state import (State, c_guard, c_not, c_le0, c_eq0, c_eq, c_lt, c_le, c_odd, subterms, _mentions)
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO, GenO, CellO

MAX_STATES = 48
MAX_DEPTH = 40


class AnalysisLimit(Exception):
    pass


class FuncInfo:
    def __init__(self, node, module, qualname, cls=None):
        self.node = node
        self.module = module
        self.name = getattr(node, "name", "<lambda>")
        self.qualname = qualname
        self.cls = cls
        self.is_gen = False
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.scan()

    def scan(self):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(p.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]

        def walk(n, inside_comp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                for d in n.decorator_list:
                    walk(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.NamedExpr):
                self.locals.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not inside_comp:
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
            comp = isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
            for c in ast.iter_child_nodes(n):
                walk(c, inside_comp or comp)
        for b in body:
            walk(b)
        self.locals -= self.globals
        self.locals -= self.nonlocals


def drained(loop, fn):
    """`while L: x = L.pop()` over a list used for nothing else -> (L, the for loop it stands for) or None"""
    if hasattr(loop, "drain"):
        return loop.drain
    loop.drain = None
    t = loop.test
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
        t = t.args[0]
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) \
            and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len" \
            and len(t.left.args) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left.args[0]
    if not isinstance(t, ast.Name) or loop.orelse or not isinstance(fn, ast.FunctionDef):
        return None
    name = t.id
    first = loop.body[0]
    pops = [n for n in ast.walk(loop) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
            and isinstance(n.func.value, ast.Name) and n.func.value.id == name]
    if len(pops) != 1 or not isinstance(first, (ast.Assign, ast.Expr, ast.AnnAssign)) \
            or not any(n is pops[0] for n in ast.walk(first)):
        return None
    p = pops[0]
    back = p.func.attr == "pop" and not p.args and not p.keywords
    front = p.func.attr == "popleft" and not p.args or p.func.attr == "pop" and len(p.args) == 1 \
        and isinstance(p.args[0], ast.Constant) and p.args[0].value == 0
    if not back and not front:
        return None
    if any(isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.comprehension, ast.NamedExpr)) for n in ast.walk(first)):
        return None
    if any(isinstance(n, (ast.Break, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for n in ast.walk(loop)):
        return None
    ok = {id(t), id(p.func.value)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name \
                or isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            v = n.value
            if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and (
                    isinstance(v.func, ast.Name) and v.func.id in ("sorted", "list", "deque")
                    or isinstance(v.func, ast.Attribute) and v.func.attr == "deque"):
                ok.add(id(n.targets[0] if isinstance(n, ast.Assign) else n.target))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr in ("reverse", "sort", "append", "extend", "appendleft", "insert") \
                and isinstance(n.value.func.value, ast.Name) and not any(m is n for m in ast.walk(loop)):
            ok.add(id(n.value.func.value))
    if any(isinstance(n, ast.Name) and n.id == name and id(n) not in ok for n in ast.walk(fn)) \
            or any(isinstance(n, ast.arg) and n.arg == name for n in ast.walk(fn)):
        return None
    import copy
    tmp = "drained %s" % name

    class Swap(ast.NodeTransformer):
        def visit_Call(self, n):
            if n is p:
                return ast.copy_location(ast.Name(id=tmp, ctx=ast.Load()), n)
            return self.generic_visit(n)
    memo = {id(p): p}
    body = [Swap().visit(copy.deepcopy(b, memo)) for b in loop.body]
    it = ast.Name(id=name, ctx=ast.Load())
    if back:
        it = ast.Call(func=ast.Name(id="reversed", ctx=ast.Load()), args=[it], keywords=[])
    new = ast.For(target=ast.Name(id=tmp, ctx=ast.Store()), iter=it, body=body, orelse=[])
    for n in ast.walk(new):
        if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, "lineno"):
            ast.copy_location(n, loop)
    ast.fix_missing_locations(new)
    loop.drain = (name, new)
    return loop.drain


class ClassInfo:
    def __init__(self, name, bases, module, node):
        self.name = name
        self.bases = bases          # ClassInfo or builtin class name (str)
        self.module = module
        self.node = node
        self.attrs = {}
        self.dataclass = None       # list of (field, default term or None, factory)
        self.namedtuple = None
        self.is_enum = False
        self.term = mk("class", self, ty="class")

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                out += [c for c in b.mro() if c not in out]
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def exc_base(self):
        for c in self.mro():
            if isinstance(c, str) and is_builtin_exc(c):
                return c
        return None

    def __repr__(self):
        return "<class %s>" % self.name


def is_builtin_exc(name):
    o = getattr(_pybuiltins, name, None)
    if name in ("binascii.Error", "struct.error"):
        return True
    return isinstance(o, type) and issubclass(o, BaseException)


def builtin_exc(name):
    if name == "binascii.Error":
        import binascii
        return binascii.Error
    if name == "struct.error":
        import struct
        return struct.error
    return getattr(_pybuiltins, name)


def exc_issub(c, h):
    """class c (ClassInfo or builtin name) is a subclass of h"""
    if c == h:
        return True
    if isinstance(c, ClassInfo):
        return any(exc_issub(b, h) for b in c.bases)
    if isinstance(h, ClassInfo):
        return False
    if not (is_builtin_exc(c) and is_builtin_exc(h)):
        return h == "object"
    return issubclass(builtin_exc(c), builtin_exc(h))


class LoopRec:
    """Solution of one loop: its carried symbols, what every iteration does to them, what one
    iteration did (state at the back edge and events of that iteration)."""
    n = 0

    def __init__(self, node, kind, frame):
        LoopRec.n += 1
        self.id = LoopRec.n
        self.node = node
        self.kind = kind            # 'items' | 'range' | 'while' | 'elems' | 'unknown'
        self.where = frame.where(node)
        self.elem = None            # element symbol / abstract element
        self.items = None           # (guard, value) table the loop iterates, if kind == 'items'
        self.unordered = False
        self.range = None           # (start, stop, step)
        self.phis = {}              # symbol -> value on entry
        self.lists = {}             # symbol -> items of a list on entry
        self.backs = []             # (state, {symbol: value at back edge})
        self.pre = None
        self.head = None
        self.stable = False
        self.N = None
        self.dom = None
        self.counter = None
        self.marker = None
        self.entered = []
        self.invs = []

    def __repr__(self):
        return "<loop %s %s>" % (self.id, self.where)


class Frame:
    def __init__(self, interp, fi, env, ctx, parent, module):
        self.interp = interp
        self.fi = fi
        self.env = env
        self.ctx = ctx
        self.parent = parent
        self.module = module
        self.rets = []
        self.raises = []
        self.brks = []
        self.conts = []
        self.on_yield = None
        self.depth = 0 if parent is None else parent.depth + 1
        self.live = parent.live if parent is not None else []
        self.handling = []
        self.captured = False
        self.is_comp = False
        self.entry = frozenset()
        self.hold = 0               # > 0: inside a library function, whose temporaries stay alive
        self.cls = None

    def where(self, node=None):
        f = self.fi.qualname if self.fi else "<module>"
        return "%s:%s:%s" % (self.module.file, f, getattr(node, "lineno", "?"))


class Module:
    def __init__(self, name, file, tree):
        self.name = name
        self.file = file
        self.tree = tree
        self.env = ("static", "module", name)
        self.loaded = False
        self.term = mk("module", self, ty="module")

    def __repr__(self):
        return self.name


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.undecided = []         # (reason, where)
        self.kept = set()               # process-wide tables in which objects of a call are kept
        self.kept_reads = {}            # unknown value -> the process-wide table it comes from
        self.steps = 0
        self.step_limit = 3_000_000
        self.sinks = []
        self.joins = {}             # carried list -> symbol of the concatenation of its items
        self.funcs_seen = {}
        self.callsites = set()
        self.ctxs = {}
        self.importing = 0
        self.infos = {}
        self.classinfos = {}
        self.scenario = None
        from . import lib
        self.lib = lib.Library(self)

    # =============================================================== modules
    def find_module(self, name):
        base = os.path.join(self.repo, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        return None

    def import_module(self, name, st, fr_parent=None):
        """Abstractly runs the module body once (in the boot state)."""
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find_module(name)
        if path is None:
            return None
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = Module(name, os.path.relpath(path, self.repo), rewrite.module(ast.parse(src, path)))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.comprehension):
                n.lineno, n.col_offset = n.target.lineno, n.target.col_offset
        self.modules[name] = m
        fr = Frame(self, None, m.env, 0, None, m)
        st.heap[m.env] = EnvO({"__name__": const(name), "__file__": const(path),
                               "__doc__": T.NONE}, None, None)
        self.importing += 1
        try:
            out = self.block(m.tree.body, [st], fr)
        finally:
            self.importing -= 1
        if fr.raises:
            raise AnalysisLimit("import of %s may fail: %s" % (name, fr.raises[0][1]))
        if len(out) != 1:
            raise AnalysisLimit("import of %s has %d outcomes" % (name, len(out)))
        if out[0] is not st:
            for s in State.__slots__:
                setattr(st, s, getattr(out[0], s))
        m.loaded = True
        return m

    # =============================================================== helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisLimit("step limit")

    def undecide(self, reason, fr=None, node=None, st=None):
        w = fr.where(node) if fr is not None else "?"
        self.undecided.append((reason, w))
        if st is not None:
            st.weaken("%s at %s" % (reason, w))
        return T.top("%s at %s" % (reason, w))

    def nodekey(self, node, fr):
        return (fr.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                type(node).__name__)

    def new_addr(self, st, fr, node, tag=""):
        if self.importing and fr.fi is None:
            k = ("static", fr.ctx, self.nodekey(node, fr), tag)
        elif self.importing:
            k = ("static", fr.ctx, self.nodekey(node, fr), tag)
        else:
            k = ("h", fr.ctx, self.nodekey(node, fr), tag)
        n = st.counts.get(k, 0)
        st.counts[k] = n + 1
        return k + (n,)

    def alloc(self, st, fr, node, obj, tag=""):
        a = self.new_addr(st, fr, node, tag)
        st.heap[a] = obj
        return mk("ref", a, ty="ref")

    def obj(self, st, v):
        return st.heap.get(v.args[0]) if v.op == "ref" else None

    def write(self, st, v, obj, fr, node, what="", key=None):
        """Store a modified copy of the object v refers to; records effects on shared objects."""
        a = v.args[0]
        if a[0] == "static" and not self.importing:
            st.event("static-write", a, what, fr.where(node))
            vals = [x[1] for x in obj.items.values()] if obj.kind == "dict" else \
                [x for _, x in obj.items] if obj.kind == "list" else []
            if any(x.op == "ref" and x.args[0] in st.heap and x.args[0][0] != "static"
                   and st.heap[x.args[0]].kind in ("dict", "list", "bytearray", "set") for x in vals):
                self.kept.add(a)
        elif a[0] == "arg":
            st.event("arg-write", a, what, key, fr.where(node))
        st.heap[a] = obj
        if obj.kind == "dict" and isinstance(obj.cls, tuple) and obj.cls[0] == "attributes of":
            own = st.heap[obj.cls[1].args[0]].copy()
            for k in [k for k in own.attrs if not k.startswith("#") and k != "args"]:
                del own.attrs[k]
            for k, (g, x, s) in obj.items.items():
                if k.op == "const":
                    own.attrs[T.cval(k)] = x
            self.write(st, obj.cls[1], own, fr, node, "." + what)

    def raise_(self, st, fr, classes, origin, node, operands=()):
        """The operation at node may raise one of the given builtin exception classes."""
        e = mk("exc", tuple(classes), origin, tuple(operands), fr.where(node), ty="exc")
        fr.raises.append((st, e))

    def fork(self, st, c):
        """-> list of (state, bool) for condition term c"""
        d = st.decide(c)
        if d is not None:
            return [(st, d)]
        a, b = st.copy(), st
        out = []
        if a.assume(c, True):
            out.append((a, True))
        if b.assume(c, False):
            out.append((b, False))
        return out

    # =============================================================== merging of states
    def gc(self, st, fr, extra=()):
        """Addresses reachable from the live frames."""
        if fr.hold:
            return set(st.heap)
        roots = [fr.env] + list(fr.live) + [a for a in fr.entry]
        f = fr
        while f is not None:
            roots.append(f.env)
            for e in f.handling:
                roots.extend(self.addrs_in(e))
            f = f.parent
        for e in extra:
            roots.extend(self.addrs_in(e))
        seen = set()
        stack = roots
        while stack:
            a = stack.pop()
            if a in seen or a not in st.heap:
                continue
            seen.add(a)
            stack.extend(self.obj_addrs(st.heap[a]))
        return seen

    def addrs_in(self, v):
        out = []
        if isinstance(v, Term):
            for t in subterms(v):
                if t.op == "ref":
                    out.append(t.args[0])
                elif t.op == "func":
                    if t.args[1] is not None:
                        out.append(t.args[1])
        return out

    def obj_addrs(self, o):
        out = []
        k = o.kind
        if k == "dict":
            for kt, (g, v, s) in o.items.items():
                out += self.addrs_in(kt) + self.addrs_in(v)
        elif k == "list":
            for g, v in o.items:
                out += self.addrs_in(v)
        elif k == "set":
            for g, v in o.syms:
                out += self.addrs_in(v)
        elif k == "bytearray":
            out += self.addrs_in(o.content)
        elif k in ("inst", "attrs"):
            for v in o.attrs.values():
                out += self.addrs_in(v)
        elif k == "env":
            for v in o.vars.values():
                out += self.addrs_in(v)
            if o.parent is not None:
                out.append(o.parent)
        elif k == "gen":
            out += self.addrs_in(o.func)
            for v in o.args:
                out += self.addrs_in(v)
            for v in o.kwargs.values():
                out += self.addrs_in(v)
        return out

    def merge(self, pairs, fr, vals=True):
        """Join control-flow paths: pairs is a list of (state, value)."""
        if len(pairs) < 2:
            return pairs
        out = []
        for p in pairs:
            done = False
            for i in range(len(out)):
                m = self.merge2(out[i], p, fr)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append(p)
        if len(out) > 1 and len(out) < len(pairs):
            return self.merge(out, fr)
        return out

    def merge_states(self, states, fr):
        return [s for s, _ in self.merge([(s, None) for s in states], fr)]

    def merge2(self, p, q, fr):
        (a, va), (b, vb) = p, q
        ghost = a.ghost
        if a.ghost is not b.ghost and a.ghost != b.ghost:
            ghost = dict(a.ghost)
            for k, x in b.ghost.items():
                if ghost.setdefault(k, x) != x:
                    return None
            for k in ghost:
                if isinstance(k, str) and (k not in a.ghost or k not in b.ghost):
                    return None
        disjoint = bdd.and_(a.gpc, b.gpc) == bdd.FALSE
        samefacts = (a.facts == b.facts and a.les == b.les and a.subst == b.subst)
        guard_only = disjoint and samefacts
        if va is not vb and not guard_only:
            return None
        la = self.gc(a, fr, (va,) if va is not None else ())
        lb = self.gc(b, fr, (vb,) if vb is not None else ())
        sel = a.gpc
        heap = {}
        changes = {}
        for ad in la | lb:
            oa, ob = a.heap.get(ad), b.heap.get(ad)
            if ad not in la:
                oa = oa if oa is not None else None
            if oa is ob:
                heap[ad] = oa
                continue
            if oa is None or ob is None:
                if not guard_only:
                    return None
                heap[ad] = oa if oa is not None else ob
                continue
            m = self.merge_obj(oa, ob, sel, guard_only)
            if m is None:
                return None
            heap[ad] = m
        if va is vb:
            v = va
        else:
            v = self.merge_val(sel, va, vb)
            if v is None:
                return None
        r = State()
        r.heap = heap
        r.counts = dict(a.counts)
        for k, n in b.counts.items():
            if n > r.counts.get(k, 0):
                r.counts[k] = n
        r.ghost = ghost
        r.weak = a.weak + tuple(w for w in b.weak if w not in a.weak)
        r.gpc = bdd.or_(a.gpc, b.gpc)
        if samefacts:
            r.facts, r.les, r.subst = a.facts, a.les, a.subst
        else:
            r.facts = {c: x for c, x in a.facts.items() if b.facts.get(c) is x}
            bl = set(b.les)
            r.les = tuple(x for x in a.les if x in bl)
            r.subst = {c: x for c, x in a.subst.items() if b.subst.get(c) is x}
            ca, cb = self.delta(a, r), self.delta(b, r)
            if ca and cb:
                r.facts = dict(r.facts)
                r.facts[mk("or", ca, cb, ty="bool")] = True
        # events
        if a.events is b.events:
            r.events = a.events
        else:
            r.events = self.merge_events(a, b, r)
        r._memo = {}
        return r, v

    def delta(self, a, r):
        """Conditions of a that the join r no longer has."""
        out = []
        rl = set(r.les)
        for l in a.les:
            if l not in rl:
                out.append(c_le0(l))
        for c, x in a.facts.items():
            if r.facts.get(c) is not x:
                out.append(c if x else c_not(c))
        for c, x in a.subst.items():
            if r.subst.get(c) is not x:
                out.append(mk("same", c, x, ty="bool"))
        if a.gpc != r.gpc:
            out.append(c_guard(a.gpc))
        return tuple(out)

    def merge_events(self, a, b, r):
        ea, eb = [], []
        x = a.events
        seen = {}
        i = 0
        while x is not None:
            seen[id(x)] = x
            x = x[0]
        y = b.events
        while y is not None and id(y) not in seen:
            eb.append(y[1])
            y = y[0]
        common = y
        x = a.events
        while x is not common:
            ea.append(x[1])
            x = x[0]
        ea.reverse()
        eb.reverse()
        return (common, ("alt", ((self.delta(a, r), tuple(ea)), (self.delta(b, r), tuple(eb)))))

    def merge_val(self, sel, x, y):
        if x is y:
            return x
        if x is None or y is None:
            return None
        if x.ty == "bool" and y.ty == "bool":
            gx, gy = self.as_guard(x), self.as_guard(y)
            if gx is not None and gy is not None:
                return c_guard(bdd.ite(sel, gx, gy))
        if x.ty in ("int",) and y.ty in ("int",):
            bx, by = bits_of_const(x), bits_of_const(y)
            if bx is not None and by is not None:
                return make_bits(ite_bits(sel, bx, by))
        if x.op in ("const", "bitstr") and y.op in ("const", "bitstr") and x.ty == y.ty == "str":
            bx, by = bitstr_of(x), bitstr_of(y)
            if bx is not None and by is not None and len(bx) == len(by) and len(bx) > 0:
                return make_bitstr([bdd.ite(sel, p, q) for p, q in zip(bx, by)])
        if x.op in ("bytesof", "const") and y.op in ("bytesof", "const") and x.ty == y.ty == "bytes" \
                and x is not y:
            ex, ey = byte_elems(x), byte_elems(y)
            if ex is not None and ey is not None and len(ex) == len(ey) > 0:
                m = [self.merge_val(sel, p, q) for p, q in zip(ex, ey)]
                return make_bytesof(m)
        if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
            m = [self.merge_val(sel, p, q) for p, q in zip(x.args, y.args)]
            return tup(m)
        return mk("ite", sel, x, y, ty=x.ty if x.ty == y.ty else "any")

    def as_guard(self, x):
        if x.op == "const":
            return bdd.TRUE if T.cval(x) else bdd.FALSE
        if x.op == "guard":
            return x.args[0]
        return None

    def merge_obj(self, x, y, sel, ok):
        """Join two versions of one object; ok: the versions are told apart by the guard sel."""
        if x.kind != y.kind:
            return None
        mv = (lambda p, q: self.merge_val(sel, p, q)) if ok else (lambda p, q: p if p is q else None)
        if x.kind == "dict":
            if x.base != y.base or x.loops != y.loops:
                return None
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                p, q = x.items.get(k), y.items.get(k)
                if p is not None and q is not None and p[0] == q[0] and p[1] is q[1]:
                    items[k] = p
                    continue
                if not ok:
                    return None
                if p is None or q is None:
                    if x.base is not None:
                        return None
                    r = p or q
                    g = bdd.and_(r[0], sel if q is None else bdd.not_(sel))
                    items[k] = (g, r[1], r[2])
                    continue
                if p[0] == bdd.FALSE and q[0] == bdd.FALSE:
                    items[k] = p
                    continue
                if p[0] == bdd.FALSE:
                    v = q[1]
                elif q[0] == bdd.FALSE:
                    v = p[1]
                else:
                    v = mv(p[1], q[1])
                if v is None:
                    return None
                items[k] = (bdd.ite(sel, p[0], q[0]), v, p[2] or q[2])
            return DictO(items, x.base, x.loops, x.cls)
        if x.kind == "list":
            if x.pre is not y.pre or x.ty != y.ty:
                return None
            n = 0
            while n < len(x.items) and n < len(y.items) and x.items[n] == y.items[n]:
                n += 1
            if n == len(x.items) == len(y.items):
                return x if x.unordered else y
            if not ok:
                return None
            items = list(x.items[:n])
            if len(x.items) == len(y.items):
                rest = []
                for (g, v), (h, w) in zip(x.items[n:], y.items[n:]):
                    if g == h:
                        m = mv(v, w)
                        if m is None:
                            return None
                        rest.append((g, m))
                    else:
                        rest = None
                        break
                if rest is not None:
                    return ListO(items + rest, x.pre, x.unordered or y.unordered, x.ty)
            nsel = bdd.not_(sel)
            # one side extends the other with the same tail: keep positions in order
            items += [(bdd.and_(g, sel), v) for g, v in x.items[n:]]
            items += [(bdd.and_(g, nsel), v) for g, v in y.items[n:]]
            return ListO(items, x.pre, x.unordered or y.unordered, x.ty)
        if x.kind == "set":
            if x.syms != y.syms:
                if not ok:
                    return None
                common = [s for s in x.syms if s in y.syms]
                syms = tuple(common) + tuple((bdd.and_(g, sel), t) for g, t in x.syms if (g, t) not in y.syms) \
                    + tuple((bdd.and_(g, bdd.not_(sel)), t) for g, t in y.syms if (g, t) not in x.syms)
            else:
                syms = x.syms
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                p, q = x.items.get(k, bdd.FALSE), y.items.get(k, bdd.FALSE)
                if p != q and not ok:
                    return None
                items[k] = p if p == q else bdd.ite(sel, p, q)
            return SetO(items, syms, x.unknown or y.unknown, x.frozen)
        if x.kind == "bytearray":
            v = mv(x.content, y.content)
            return None if v is None else BArrO(v)
        if x.kind in ("inst", "attrs"):
            if x.kind == "inst" and x.cls is not y.cls:
                return None
            attrs = self.merge_vars(x.attrs, y.attrs, mv, ok, sel)
            if attrs is None:
                return None
            return InstO(x.cls, attrs) if x.kind == "inst" else CellO(attrs)
        if x.kind == "env":
            v = self.merge_vars(x.vars, y.vars, mv, ok, sel)
            return None if v is None else EnvO(v, x.parent, x.owner)
        return None

    def merge_vars(self, x, y, mv, ok, sel):
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            p, q = x.get(k), y.get(k)
            if p is q:
                out[k] = p
            elif p is None or q is None:
                if not ok:
                    return None
                u = T.top("unbound")
                out[k] = mk("ite", sel, p if p is not None else u, q if q is not None else u, ty="any")
            else:
                m = mv(p, q)
                if m is None:
                    return None
                out[k] = m
        return out

    # =============================================================== statements
    def block(self, stmts, states, fr):
        for s in stmts:
            if not states:
                return states
            out = []
            for st in states:
                out.extend(self.stmt(s, st, fr))
            if len(out) > 1:
                out = self.merge_states(out, fr)
                if len(out) > MAX_STATES:
                    raise AnalysisLimit("too many paths at %s" % fr.where(s))
            states = out
        return states

    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.undecide("statement %s" % type(s).__name__, fr, s, st)
            return [st]
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [st]

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for x, _ in self.ev(s.value, st, fr)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            fr.rets.append((st, T.NONE))
        else:
            fr.rets.extend(self.ev(s.value, st, fr))
        return []

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            sts = [x]
            for t in s.targets:
                sts = [z for y in sts for z in self.assign(t, v, y, fr)]
            out += sts
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [st]
        out = []
        for x, v in self.ev(s.value, st, fr):
            out += self.assign(s.target, v, x, fr)
        return out

    def s_AugAssign(self, s, st, fr):
        out = []
        load = ast.copy_location(_as_load(s.target), s.target)
        t = s.target
        if isinstance(t, ast.Name):
            for x, cur in self.ev(load, st, fr):
                for y, v in self.ev(s.value, x, fr):
                    for z, r in self.inplace(s.op, cur, v, y, fr, s):
                        out += self.assign(t, r, z, fr)
            return out
        if isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, st, fr):
                for y, cur in self.getattr(o, t.attr, x, fr, t):
                    for z, v in self.ev(s.value, y, fr):
                        for w, r in self.inplace(s.op, cur, v, z, fr, s):
                            out += self.setattr(o, t.attr, r, w, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            for x, o in self.ev(t.value, st, fr):
                for y, k in self.ev_index(t.slice, x, fr):
                    for z, cur in self.getitem(o, k, y, fr, t):
                        for w, v in self.ev(s.value, z, fr):
                            for u, r in self.inplace(s.op, cur, v, w, fr, s):
                                out += self.setitem(o, k, r, u, fr, t)
            return out
        self.undecide("augmented assignment", fr, s, st)
        return [st]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, st, fr):
                out += self.setattr(o, t.attr, v, x, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, o in self.ev(t.value, st, fr):
                for y, k in self.ev_index(t.slice, x, fr):
                    out += self.setitem(o, k, v, y, fr, t)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.undecide("assignment target", fr, t, st)
        return [st]

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vals = self.lib.fixed_elements(v, st)
        if vals is None:
            r = self.undecide("unpacking of %s" % v.op, fr, t, st)
            vals = [r] * n
            star = []
        if star:
            i = star[0]
            k = len(vals) - (n - 1)
            if k < 0:
                self.raise_(st, fr, ["ValueError"], "unpack", t)
                return []
            mid = self.alloc(st, fr, t, ListO([(bdd.TRUE, x) for x in vals[i:i + k]]))
            vals = vals[:i] + [mid] + vals[i + k:]
        elif len(vals) != n:
            self.raise_(st, fr, ["ValueError"], "unpack", t)
            return []
        sts = [st]
        for e, x in zip(t.elts, vals):
            sts = [z for y in sts for z in self.assign(e, x, y, fr)]
        return sts

    def s_If(self, s, st, fr):
        out = []
        for x, b in self.ev_cond(s.test, st, fr):
            out += self.block(s.body if b else s.orelse, [x], fr)
        return out

    def s_While(self, s, st, fr):
        d = drained(s, fr.fi.node) if fr.fi is not None else None
        if d is not None:
            out = []
            for x in self.s_For(d[1], st, fr):
                self.setvar(d[0], self.alloc(x, fr, s, ListO(()), "drained"), x, fr)
                out.append(x)
            return out
        return self.lib.loops.while_(s, st, fr)

    def s_For(self, s, st, fr):
        return self.lib.loops.for_(s, st, fr)

    def s_Break(self, s, st, fr):
        fr.brks.append(st)
        return []

    def s_Continue(self, s, st, fr):
        fr.conts.append(st)
        return []

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            if fr.handling:
                fr.raises.append((st, fr.handling[-1]))
            else:
                self.raise_(st, fr, ["RuntimeError"], "raise without exception", s)
            return []
        for x, v in self.ev(s.exc, st, fr):
            sts = [(x, None)]
            if s.cause is not None:
                sts = self.ev(s.cause, x, fr)
            for y, cause in sts:
                if v.op in ("class", "builtin"):
                    for z, e in self.call(v, [], {}, y, fr, s):
                        self.raise_value(e, z, fr, s, cause)
                else:
                    self.raise_value(v, y, fr, s, cause)
        return []

    def raise_value(self, v, st, fr, node, cause=None):
        if v.op == "ref" and self.obj(st, v) is not None and self.obj(st, v).kind == "inst":
            o = self.obj(st, v)
            if "#raised" not in o.attrs or cause is not None:
                o = o.copy()
                if cause is not None:
                    o.attrs["#cause"] = cause
                o.attrs["#raised"] = const(fr.where(node))
                st.heap[v.args[0]] = o
            fr.raises.append((st, v))
        elif v.op == "exc":
            fr.raises.append((st, v))
        else:
            self.undecide("raise of %s" % v.op, fr, node, st)
            self.raise_(st, fr, ["Exception"], "unknown raise", node)

    def s_Assert(self, s, st, fr):
        out = []
        for x, b in self.ev_cond(s.test, st, fr):
            if b:
                out.append(x)
            else:
                self.raise_(x, fr, ["AssertionError"], "assert", s)
        return out

    def s_Global(self, s, st, fr):
        return [st]

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    e = self.env_of(t.id, x, fr)
                    if e is not None and t.id in x.heap[e].vars:
                        o = x.heap[e].copy()
                        del o.vars[t.id]
                        x.heap[e] = o
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, o in self.ev(t.value, x, fr):
                        for z, k in self.ev_index(t.slice, y, fr):
                            nxt += self.delitem(o, k, z, fr, t)
                else:
                    self.undecide("del", fr, s, x)
                    nxt.append(x)
            sts = nxt
        return sts

    def s_Import(self, s, st, fr):
        for al in s.names:
            v = self.lib.import_(al.name, st, fr, s)
            if al.asname is None and "." in al.name:
                v = self.lib.import_(al.name.split(".")[0], st, fr, s)
            self.setvar(al.asname or al.name.split(".")[0], v, st, fr)
        return [st]

    def s_ImportFrom(self, s, st, fr):
        name = s.module or ""
        if s.level:
            pkg = fr.module.name.split(".")
            if not fr.module.file.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            name = ".".join(pkg + ([s.module] if s.module else []))
        if name == "__future__":
            return [st]
        m = self.lib.import_(name, st, fr, s)
        for al in s.names:
            if al.name == "*":
                if m.op == "module":
                    env = st.heap[m.args[0].env].vars
                    names = [n for n in env if not n.startswith("_")]
                    al_ = env.get("__all__")
                    if al_ is not None:
                        el = self.lib.fixed_elements(al_, st)
                        if el is not None:
                            names = [T.cval(x) for x in el]
                    for n in names:
                        if n in env:
                            self.setvar(n, env[n], st, fr)
                else:
                    self.undecide("star import", fr, s, st)
                continue
            sub = self.find_module(name + "." + al.name)
            v = None
            if m.op == "module" and al.name in st.heap[m.args[0].env].vars:
                v = st.heap[m.args[0].env].vars[al.name]
            elif sub and m.op == "module":
                v = self.lib.import_(name + "." + al.name, st, fr, s)
            else:
                r = self.getattr(m, al.name, st, fr, s)
                v = r[0][1] if r else T.top("import")
            self.setvar(al.asname or al.name, v, st, fr)
        return [st]

    def s_FunctionDef(self, s, st, fr):
        out = []
        for x, f in self.make_func(s, st, fr):
            pairs = [(x, f)]
            for d in reversed(s.decorator_list):
                nxt = []
                for y, fv in pairs:
                    for z, dv in self.ev(d, y, fr):
                        nxt += self.call(dv, [fv], {}, z, fr, d)
                pairs = nxt
            for y, fv in pairs:
                self.setvar(s.name, fv, y, fr)
                out.append(y)
        return out

    def s_AsyncFunctionDef(self, s, st, fr):
        self.setvar(s.name, self.undecide("async function", fr, s, st), st, fr)
        return [st]

    def make_func(self, node, st, fr):
        key = (fr.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        fi = self.infos.get((key, id(node)))
        if fi is None:
            qn = getattr(node, "name", "<lambda>")
            if fr.cls is not None:
                qn = fr.cls.name + "." + qn
            elif fr.fi is not None:
                qn = fr.fi.qualname + "." + qn
            fi = FuncInfo(node, fr.module, qn, fr.cls)
            self.infos[(key, id(node))] = fi
        a = node.args
        sts = [(st, [])]
        for d in a.defaults + a.kw_defaults:
            nxt = []
            for x, vs in sts:
                if d is None:
                    nxt.append((x, vs + [None]))
                else:
                    for y, v in self.ev(d, x, fr):
                        nxt.append((y, vs + [v]))
            sts = nxt
        out = []
        for x, vs in sts:
            env = fr.env
            # class bodies are not visible from methods
            if fr.cls is not None and fr.fi is None:
                env = fr.parent.env if fr.parent is not None else fr.module.env
            self.capture(fr)
            vs = tuple(v if v is not None else T.top("no default") for v in vs)
            out.append((x, mk("func", fi, env, vs, ty="func")))
        return out

    def capture(self, fr):
        """Some value refers to the variables of this frame: they outlive the call"""
        while fr is not None and fr.fi is not None:
            fr.captured = True
            if not fr.is_comp:
                break
            fr = fr.parent

    def s_ClassDef(self, s, st, fr):
        return self.lib.classdef(s, st, fr)

    # ------------------------------------------------------------ exceptions
    def sink_push(self, *lists):
        self.sinks.extend(lists)

    def sink_pop(self, n):
        del self.sinks[len(self.sinks) - n:]

    def s_Try(self, s, st, fr):
        saved_raises, saved = fr.raises, (fr.rets, fr.brks, fr.conts)
        body_raises = []
        fin = bool(s.finalbody)
        if fin:
            fr.rets, fr.brks, fr.conts = [], [], []
            self.sink_push(fr.rets, fr.brks, fr.conts)
        fr.raises = body_raises
        self.sink_push(body_raises)
        out_raises = []
        self.sink_push(out_raises)
        try:
            normal = self.block(s.body, [st], fr)
            fr.raises = out_raises
            if s.orelse:
                normal = self.block(s.orelse, normal, fr)
            for x, e in self.merge_raises(body_raises, fr):
                normal += self.handle(s.handlers, x, e, fr)
        finally:
            fr.raises = saved_raises
            self.sink_pop(2)
        if not fin:
            fr.raises.extend(out_raises)
            return normal
        rets, brks, conts = fr.rets, fr.brks, fr.conts
        self.sink_pop(3)
        fr.rets, fr.brks, fr.conts = saved
        out = self.block(s.finalbody, normal, fr)
        for x, v in rets:
            for y in self.block(s.finalbody, [x], fr):
                fr.rets.append((y, v))
        for x in brks:
            fr.brks.extend(self.block(s.finalbody, [x], fr))
        for x in conts:
            fr.conts.extend(self.block(s.finalbody, [x], fr))
        for x, e in out_raises:
            for y in self.block(s.finalbody, [x], fr):
                fr.raises.append((y, e))
        return out

    s_TryStar = s_Try

    def merge_raises(self, raises, fr):
        return raises

    def handle(self, handlers, st, e, fr):
        """Exception e reaches a try statement in state st.  -> normal states after handling."""
        out = []
        pend = [(st, e)]
        for h in handlers:
            nxt = []
            for x, ex in pend:
                if h.type is None:
                    classes = None
                else:
                    r = self.ev(h.type, x, fr)
                    if len(r) != 1:
                        self.undecide("handler class", fr, h, x)
                        nxt.append((x, ex))
                        continue
                    x, hv = r[0]
                    classes = self.lib.class_list(hv, x)
                    if classes is None:
                        self.undecide("handler class", fr, h, x)
                        nxt.append((x, ex))
                        continue
                caught, rest = self.split_exc(ex, classes, x)
                if caught is not None and rest is not None:
                    y = x.copy()
                    nxt.append((y, rest))
                elif caught is None:
                    nxt.append((x, ex))
                    continue
                out += self.run_handler(h, x, caught, fr)
            pend = nxt
        fr.raises.extend(pend)
        return out

    def run_handler(self, h, st, e, fr):
        if h.name:
            self.setvar(h.name, e, st, fr)
        fr.handling.append(e)
        saved = fr.raises
        try:
            res = self.block(h.body, [st], fr)
        finally:
            fr.handling.pop()
        if h.name:
            for x in res:
                env = self.env_of(h.name, x, fr)
                if env is not None and h.name in x.heap[env].vars:
                    o = x.heap[env].copy()
                    del o.vars[h.name]
                    x.heap[env] = o
        return res

    def exc_classes(self, e, st):
        if e.op == "exc":
            return list(e.args[0])
        o = self.obj(st, e)
        return [o.cls]

    def split_exc(self, e, classes, st):
        """-> (caught part, escaping part) of exception e for a handler of the given classes"""
        if classes is None:
            return e, None
        if e.op == "exc":
            c = [k for k in e.args[0] if any(exc_issub(k, h) for h in classes)]
            r = [k for k in e.args[0] if k not in c]
            ce = mk("exc", tuple(c), *e.args[1:], ty="exc") if c else None
            re_ = mk("exc", tuple(r), *e.args[1:], ty="exc") if r else None
            return ce, re_
        o = self.obj(st, e)
        if any(exc_issub(o.cls, h) for h in classes):
            return e, None
        return None, e

    # ------------------------------------------------------------ with
    def s_With(self, s, st, fr):
        return self.lib.with_(s.items, s.body, st, fr, s)

    # ------------------------------------------------------------ match
    def s_Match(self, s, st, fr):
        out = []
        for x, v in self.ev(s.subject, st, fr):
            live = [x]
            for c in s.cases:
                nxt = []
                for y in live:
                    for z, ok in self.pattern(c.pattern, v, y, fr):
                        if not ok:
                            nxt.append(z)
                            continue
                        if c.guard is None:
                            out += self.block(c.body, [z], fr)
                            continue
                        for w, b in self.ev_cond(c.guard, z, fr):
                            if b:
                                out += self.block(c.body, [w], fr)
                            else:
                                nxt.append(w)
                live = nxt
            out += live
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, k in self.ev(p.value, st, fr):
                for y, r in self.compare(ast.Eq(), v, k, x, fr, p):
                    out += self.truth(r, y, fr, p)
            return out
        if isinstance(p, ast.MatchSingleton):
            out = []
            for y, r in self.compare(ast.Is(), v, const(p.value), st, fr, p):
                out += self.truth(r, y, fr, p)
            return out
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(p.name, v, st, fr)
                return [(st, True)]
            out = []
            for x, ok in self.pattern(p.pattern, v, st, fr):
                if ok and p.name:
                    self.setvar(p.name, v, x, fr)
                out.append((x, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for q in p.patterns:
                nxt = []
                for x in live:
                    for y, ok in self.pattern(q, v, x, fr):
                        if ok:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(x, False) for x in live]
        if isinstance(p, ast.MatchSequence):
            vals = self.lib.fixed_elements(v, st)
            if vals is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(vals) != len(p.patterns):
                    return [(st, False)]
                live, out = [st], []
                for q, x in zip(p.patterns, vals):
                    nxt = []
                    for y in live:
                        for z, ok in self.pattern(q, x, y, fr):
                            (nxt if ok else out).append(z if ok else (z, False))
                    live = nxt
                return out + [(x, True) for x in live]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for x, k in self.ev(p.cls, st, fr):
                for y, r in self.lib.isinstance_(v, k, x, fr, p):
                    out += self.truth(r, y, fr, p)
            return out
        self.undecide("match pattern", fr, p, st)
        y = st.copy()
        return [(st, True), (y, False)]

    # =============================================================== variables
    def env_of(self, name, st, fr):
        """Address of the environment where the name is (or will be) bound."""
        a = fr.env
        while a is not None:
            o = st.heap[a]
            if name in o.vars:
                return a
            if o.owner is not None and name in o.owner.locals and not isinstance(o.owner, _CompScope):
                return a
            if o.owner is not None and name in getattr(o.owner, "globals", ()):
                return fr.module.env
            a = o.parent
        return None

    def setvar(self, name, v, st, fr):
        a = fr.env
        o = st.heap[a]
        own = o.owner
        # comprehension scopes: walrus binds in the enclosing function
        while isinstance(own, _CompScope) and name not in own.locals:
            a = o.parent
            o = st.heap[a]
            own = o.owner
        if own is not None and name in own.globals:
            a = fr.module.env
            while st.heap[a].parent is not None:
                a = st.heap[a].parent
        elif own is not None and name in own.nonlocals:
            a = o.parent
            while a is not None and name not in st.heap[a].vars:
                a = st.heap[a].parent
            if a is None:
                a = fr.env
        o = st.heap[a].copy()
        o.vars[name] = v
        if a[0] == "static" and not self.importing:
            st.event("static-write", a, name, fr.where(None))
        st.heap[a] = o

    def lookup(self, name, st, fr, node):
        a = fr.env
        first = True
        while a is not None:
            o = st.heap[a]
            if name in o.vars:
                v = o.vars[name]
                if v.op == "ite":
                    return self.force(v, st, fr, node)
                return [(st, v)]
            own = o.owner
            if own is not None and name in own.locals:
                self.raise_(st, fr, ["UnboundLocalError" if first else "NameError"],
                            "local variable %s is not bound" % name, node)
                return []
            if own is not None and name in own.globals:
                a = own.module.env if hasattr(own, "module") else fr.module.env
                o = st.heap[a]
                if name in o.vars:
                    return [(st, o.vars[name])]
                break
            a = o.parent
            first = False
        v = self.lib.builtin(name)
        if v is not None:
            return [(st, v)]
        self.raise_(st, fr, ["NameError"], "name %s" % name, node)
        return []

    def force(self, v, st, fr, node):
        """Split on the guard of an 'ite' value."""
        if v.op != "ite":
            if v.op == "top" and v.args[0] == "unbound":
                self.raise_(st, fr, ["UnboundLocalError"], "unbound", node)
                return []
            return [(st, v)]
        out = []
        for x, b in self.fork(st, c_guard(v.args[0])):
            out += self.force(v.args[1] if b else v.args[2], x, fr, node)
        return out

    # =============================================================== expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, self.undecide("expression %s" % type(e).__name__, fr, e, st))]
        return m(e, st, fr)

    def ev_list(self, es, st, fr):
        out = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in out:
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x, fr):
                        for z, lv in self.lib.to_list(v, y, fr, e):
                            items = self.obj(z, lv).items if lv.op == "ref" else None
                            if items is None or self.obj(z, lv).pre is not None or any(
                                    g != bdd.TRUE for g, _ in items):
                                nxt.append((z, vs + [self.undecide("star argument", fr, e, z)]))
                            else:
                                nxt.append((z, vs + [w for _, w in items]))
                else:
                    for y, v in self.ev(e, x, fr):
                        nxt.append((y, vs + [v]))
            out = nxt
        return out

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, (int, str, bytes, bool, type(None), float, type(Ellipsis))):
            return [(st, const(v))]
        return [(st, self.undecide("constant", fr, e, st))]

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_Tuple(self, e, st, fr):
        return [(x, tup(vs)) for x, vs in self.ev_list(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        if any(isinstance(z, ast.Starred) for z in e.elts):
            return self.lib.display(e, st, fr, "list")
        return [(x, self.alloc(x, fr, e, ListO([(bdd.TRUE, v) for v in vs])))
                for x, vs in self.ev_list(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        out = []
        for x, vs in self.ev_list(e.elts, st, fr):
            r = self.alloc(x, fr, e, SetO())
            for v in vs:
                self.lib.set_add(x, r, v, fr, e)
            out.append((x, r))
        return out

    def e_Dict(self, e, st, fr):
        out = [(st, DictO())]
        pend = []
        pairs = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, acc in pairs:
                if k is None:
                    for y, vv in self.ev(v, x, fr):
                        nxt.append((y, acc + [(None, vv)]))
                else:
                    for y, kk in self.ev(k, x, fr):
                        for z, vv in self.ev(v, y, fr):
                            nxt.append((z, acc + [(kk, vv)]))
            pairs = nxt
        res = []
        for x, acc in pairs:
            r = self.alloc(x, fr, e, DictO())
            sts = [x]
            for kk, vv in acc:
                if kk is None:
                    sts = [z for y in sts for z in self.lib.dict_update(r, vv, y, fr, e)]
                else:
                    sts = [z for y in sts for z in self.setitem(r, kk, vv, y, fr, e)]
            res += [(y, r) for y in sts]
        return res

    def e_JoinedStr(self, e, st, fr):
        out = [(st, [])]
        for p in e.values:
            nxt = []
            for x, acc in out:
                if isinstance(p, ast.Constant):
                    nxt.append((x, acc + [const(p.value)]))
                    continue
                for y, v in self.ev(p.value, x, fr):
                    specs = [(y, T.EMPTY_S)]
                    if p.format_spec is not None:
                        specs = self.ev(p.format_spec, y, fr)
                    for z, sp in specs:
                        for w, t in self.lib.format_value(v, sp, p.conversion, z, fr, e):
                            nxt.append((w, acc + [t]))
            out = nxt
        return [(x, self.lib.join_str(acc)) for x, acc in out]

    def e_FormattedValue(self, e, st, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st, fr)

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def e_IfExp(self, e, st, fr):
        out = []
        keep = fr.entry
        fr.entry = frozenset(st.heap)
        try:
            for x, b in self.ev_cond(e.test, st, fr):
                out += self.ev(e.body if b else e.orelse, x, fr)
            return self.merge(out, fr) if len(out) > 1 else out
        finally:
            fr.entry = keep

    def e_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            self.setvar(e.target.id, v, x, fr)
            out.append((x, v))
        return out

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        done = []
        live = [(st, None)]
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for x, _ in live:
                for y, val in self.ev(v, x, fr):
                    if last:
                        done.append((y, val))
                        continue
                    for z, b in self.truth(val, y, fr, v):
                        if b == isand:
                            nxt.append((z, None))
                        else:
                            # the operand itself is the result
                            done.append((z, const(b) if val.ty == "bool" else val))
            live = nxt
        return done

    def e_UnaryOp(self, e, st, fr):
        out = []
        for x, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                out += [(y, c_not(c)) for y, c in self.lib.conds(v, x, fr, e)]
            else:
                out += self.lib.unary(e.op, v, x, fr, e)
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for x, a in self.ev(e.left, st, fr):
            for y, b in self.ev(e.right, x, fr):
                out += self.lib.binop(e.op, a, b, y, fr, e)
        return out

    def inplace(self, op, cur, v, st, fr, node):
        return self.lib.inplace(op, cur, v, st, fr, node)

    def e_Compare(self, e, st, fr):
        out = []
        if len(e.ops) == 1:
            for x, a in self.ev(e.left, st, fr):
                for y, b in self.ev(e.comparators[0], x, fr):
                    out += self.compare(e.ops[0], a, b, y, fr, e)
            return out
        # chain: a < b < c
        live = [(x, v) for x, v in self.ev(e.left, st, fr)]
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for x, a in live:
                for y, b in self.ev(c, x, fr):
                    for z, r in self.compare(op, a, b, y, fr, e):
                        if i == len(e.ops) - 1:
                            out.append((z, r))
                            continue
                        for w, t in self.truth(r, z, fr, e):
                            if t:
                                nxt.append((w, b))
                            else:
                                out.append((w, T.FALSE))
            live = nxt
        return out

    def compare(self, op, a, b, st, fr, node):
        return self.lib.compare(op, a, b, st, fr, node)

    def e_Call(self, e, st, fr):
        out = []
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.fi is not None \
                and "super" not in fr.fi.locals:
            return self.lib.super_(st, fr, e)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec",
                                                          "__import__", "compile"):
            if self.env_of(e.func.id, st, fr) is None:
                return [(st, self.undecide(e.func.id + "()", fr, e, st))]
        for x, f in self.ev(e.func, st, fr):
            for y, args in self.ev_list(e.args, x, fr):
                kws = [(y, {})]
                for k in e.keywords:
                    nxt = []
                    for z, d in kws:
                        for w, v in self.ev(k.value, z, fr):
                            if k.arg is None:
                                m = self.lib.const_mapping(v, w)
                                if m is None:
                                    d2 = dict(d)
                                    d2["#unknown"] = self.undecide("** argument", fr, e, w)
                                    nxt.append((w, d2))
                                else:
                                    nxt.append((w, {**d, **m}))
                            else:
                                nxt.append((w, {**d, k.arg: v}))
                    kws = nxt
                for z, d in kws:
                    out += self.call(f, args, d, z, fr, e)
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for x, o in self.ev(e.value, st, fr):
            out += self.getattr(o, e.attr, x, fr, e)
        return out

    def getattr(self, o, name, st, fr, node):
        out = []
        for x, v in self.lib.getattr(o, name, st, fr, node):
            out += self.force(v, x, fr, node)
        return out

    def setattr(self, o, name, v, st, fr, node):
        return self.lib.setattr(o, name, v, st, fr, node)

    def ev_index(self, s, st, fr):
        """-> (state, key) where key is a term or ('slice', lo, hi, step)"""
        if isinstance(s, ast.Slice):
            out = []
            parts = [s.lower, s.upper, s.step]
            live = [(st, [])]
            for p in parts:
                nxt = []
                for x, acc in live:
                    if p is None:
                        nxt.append((x, acc + [T.NONE]))
                    else:
                        for y, v in self.ev(p, x, fr):
                            nxt.append((y, acc + [v]))
                live = nxt
            return [(x, mk("sliceobj", *acc, ty="slice")) for x, acc in live]
        return self.ev(s, st, fr)

    def e_Subscript(self, e, st, fr):
        out = []
        for x, o in self.ev(e.value, st, fr):
            for y, k in self.ev_index(e.slice, x, fr):
                out += self.getitem(o, k, y, fr, e)
        return out

    def e_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def getitem(self, o, k, st, fr, node):
        out = []
        for x, v in self.lib.getitem(o, k, st, fr, node):
            out += self.force(v, x, fr, node)
        return out

    def setitem(self, o, k, v, st, fr, node):
        return self.lib.setitem(o, k, v, st, fr, node)

    def delitem(self, o, k, st, fr, node):
        return self.lib.delitem(o, k, st, fr, node)

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, st, fr, kind, first=None):
        """Build the result of a comprehension by running its loops with an accumulator."""
        gens = e.generators
        if kind == "list":
            acc = self.alloc(st, fr, e, ListO())
        elif kind == "set":
            acc = self.alloc(st, fr, e, SetO())
        elif kind == "dict":
            acc = self.alloc(st, fr, e, DictO())
        sub = self.comp_frame(e, st, fr)
        fr.live.append(acc.args[0])
        fr.live.append(sub.env)

        def emit(x):
            out = []
            if kind == "dict":
                for y, k in self.ev(e.key, x, sub):
                    for z, v in self.ev(e.value, y, sub):
                        out += self.setitem(acc, k, v, z, sub, e)
                return out
            for y, v in self.ev(e.elt, x, sub):
                if kind == "list":
                    o = self.obj(y, acc).copy()
                    o.items = o.items + ((bdd.TRUE, v),)
                    y.heap[acc.args[0]] = o
                    out.append(y)
                else:
                    self.lib.set_add(y, acc, v, sub, e)
                    out.append(y)
            return out
        try:
            sts = self.comp_loops(gens, 0, st, sub, emit, acc, first)
        finally:
            fr.live.remove(acc.args[0])
            fr.live.remove(sub.env)
        if not sub.captured:
            for x in sts:
                x.heap.pop(sub.env, None)
        return [(x, acc) for x in sts]

    def comp_frame(self, e, st, fr):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        scope = _CompScope(names, fr.fi)
        env = self.new_addr(st, fr, e, "comp")
        st.heap[env] = EnvO({}, fr.env, scope)
        sub = Frame(self, fr.fi, env, fr.ctx, fr.parent, fr.module)
        sub.raises = fr.raises
        sub.live = fr.live
        sub.handling = fr.handling
        sub.entry = frozenset(st.heap)
        sub.cls = fr.cls
        sub.depth = fr.depth
        sub.on_yield = fr.on_yield
        sub.parent = fr
        sub.is_comp = True
        return sub

    def comp_loops(self, gens, i, st, sub, emit, acc, first=None):
        if i == len(gens):
            return emit(st)
        g = gens[i]
        out = []
        # the first iterable is evaluated in the enclosing scope, which the parent chain gives
        for x, it in self.ev(g.iter, st, sub) if first is None else [(st, first)]:
            def body(y, v):
                res = []
                live = self.assign(g.target, v, y, sub)
                for c in g.ifs:
                    nxt = []
                    for z in live:
                        for w, b in self.ev_cond(c, z, sub):
                            if b:
                                nxt.append(w)
                            else:
                                res.append(w)
                    live = nxt
                for z in live:
                    res += self.comp_loops(gens, i + 1, z, sub, emit, acc)
                return res
            out += self.lib.loops.each(g, it, x, sub, body)
        return out

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    def e_GeneratorExp(self, e, st, fr):
        out = []
        for z, it in self.ev(e.generators[0].iter, st, fr):
            if self.lib.elements(it, z, fr, e, peek=True) is None:
                # of unknown length: a suspended generator
                f = mk("func", self.genexpr(e, fr), fr.env, (), ty="func")
                self.capture(fr)
                out.append((z, self.alloc(z, fr, e, GenO(f, (it,), {}, e), "gen")))
                continue
            # evaluated eagerly into a one-shot iterator
            for x, acc in self.comp(e, z, fr, "list", it):
                o = self.obj(x, acc).copy()
                o.ty = "iter"
                x.heap[acc.args[0]] = o
                out.append((x, acc))
        return out

    def genexpr(self, e, fr):
        """The generator function a generator expression stands for"""
        fi = self.infos.get(("genexpr", id(e)))
        if fi is None:
            body = ast.Expr(ast.Yield(e.elt))
            for k, g in reversed(list(enumerate(e.generators))):
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                body = ast.For(g.target, ast.Name(".0", ast.Load()) if k == 0 else g.iter, [body], [])
            a = ast.arguments(posonlyargs=[], args=[ast.arg(".0")], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
            n = ast.FunctionDef("<genexpr>", a, [body], [])
            ast.copy_location(n, e)
            for x in ast.walk(n):
                if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr, ast.arg)):
                    ast.copy_location(x, e)
            fi = FuncInfo(n, fr.module, (fr.fi.qualname + "." if fr.fi is not None else "") + "<genexpr>")
            fi.locals -= {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
            self.infos[("genexpr", id(e))] = fi
        return fi

    def e_Yield(self, e, st, fr):
        if fr.on_yield is None:
            return [(st, self.undecide("yield", fr, e, st))]
        out = []
        vals = [(st, T.NONE)] if e.value is None else self.ev(e.value, st, fr)
        for x, v in vals:
            for y in fr.on_yield(x, v, fr):
                out.append((y, T.NONE))
        return out

    def e_YieldFrom(self, e, st, fr):
        if fr.on_yield is None:
            return [(st, self.undecide("yield from", fr, e, st))]
        out = []
        for x, it in self.ev(e.value, st, fr):
            sts = self.lib.loops.each(e, it, x, fr, lambda y, v: fr.on_yield(y, v, fr))
            out += [(y, T.NONE) for y in sts]
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, v, st, fr, node):
        return self.lib.cond(v, st, fr, node)

    def truth(self, v, st, fr, node):
        out = []
        for x, c in self.lib.conds(v, st, fr, node):
            out += self.fork(x, c)
        return out

    def ev_cond(self, e, st, fr):
        """Evaluate an expression as a condition -> [(state, bool)]; short-circuits are followed so
        that each outcome is refined by all operands."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            keep = frozenset(st.heap)
            out, live = [], [st]
            for v in e.values:
                nxt = []
                for x in live:
                    for y, b in self.ev_cond(v, x, fr):
                        if b == isand:
                            nxt.append(y)
                        else:
                            out.append((y, b))
                live = nxt
            res = out + [(x, isand) for x in live]
            if len(res) > 2:
                keep, fr.entry = fr.entry, keep
                t = self.merge_states([x for x, b in res if b], fr)
                f = self.merge_states([x for x, b in res if not b], fr)
                fr.entry = keep
                res = [(x, True) for x in t] + [(x, False) for x in f]
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.ev_cond(e.operand, st, fr)]
        out = []
        for x, v in self.ev(e, st, fr):
            out += self.truth(v, x, fr, e)
        return out

    # =============================================================== calls
    def call(self, f, args, kwargs, st, fr, node):
        self.tick()
        if fr.depth > MAX_DEPTH:
            return [(st, self.undecide("call depth", fr, node, st))]
        self.callsites.add(fr.where(node))
        out = []
        for x, fv in self.force(f, st, fr, node):
            if fv.op == "func":
                out += self.call_func(fv, args, kwargs, x, fr, node)
            else:
                fr.hold += 1
                try:
                    out += self.lib.call(fv, args, kwargs, x, fr, node)
                finally:
                    fr.hold -= 1
        return out

    def bind(self, f, args, kwargs, st, fr, node):
        """Parameter binding -> dict of variables, or None after raising TypeError"""
        fi, env, defaults = f.args
        a = fi.node.args
        pos = a.posonlyargs + a.args
        vars = {}
        nd = len(a.defaults)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(st, fr, ["TypeError"], "too many arguments for %s" % fi.qualname, node)
            return None
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tup(args[len(pos):])
        for i, p in enumerate(pos):
            if p.arg in vars:
                if p.arg in kwargs and p not in a.posonlyargs:
                    self.raise_(st, fr, ["TypeError"], "duplicate argument", node)
                    return None
                continue
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
                continue
            j = i - (len(pos) - nd)
            if j >= 0:
                vars[p.arg] = defaults[j]
            elif "#unknown" in kwargs:
                vars[p.arg] = kwargs["#unknown"]
            else:
                self.raise_(st, fr, ["TypeError"], "missing argument %s of %s" % (p.arg, fi.qualname), node)
                return None
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                vars[p.arg] = defaults[nd + i]
            elif "#unknown" in kwargs:
                vars[p.arg] = kwargs["#unknown"]
            else:
                self.raise_(st, fr, ["TypeError"], "missing argument %s of %s" % (p.arg, fi.qualname), node)
                return None
        kwargs.pop("#unknown", None)
        if a.kwarg is not None:
            d = DictO()
            for k, v in kwargs.items():
                d.items[const(k)] = (bdd.TRUE, v, fr.where(node))
            vars[a.kwarg.arg] = self.alloc(st, fr, node, d, "kwargs")
        elif kwargs:
            self.raise_(st, fr, ["TypeError"], "unexpected argument %s of %s" % (list(kwargs)[0], fi.qualname), node)
            return None
        return vars

    def call_func(self, f, args, kwargs, st, fr, node):
        fi = f.args[0]
        vars = self.bind(f, args, kwargs, st, fr, node)
        if vars is None:
            return []
        if fi.is_gen:
            return [(st, self.alloc(st, fr, node, GenO(f, tuple(args), dict(kwargs), node), "gen"))]
        return self.run_func(f, vars, st, fr, node)

    def run_func(self, f, vars, st, fr, node, on_yield=None, raises=None):
        fi, envp, _ = f.args
        depth_same = 0
        g = fr
        while g is not None:
            if g.fi is fi:
                depth_same += 1
            g = g.parent
        if depth_same > 3:
            return [(st, self.undecide("recursion in %s" % fi.qualname, fr, node, st))]
        self.funcs_seen[fi.qualname] = (fi.module.file, fi.node.lineno)
        ck = (fr.ctx, self.nodekey(node, fr), fi.qualname)
        ctx = self.ctxs.setdefault(ck, len(self.ctxs) + 1)
        entry = frozenset(st.heap)
        env = self.new_addr(st, fr, node, "env:" + fi.qualname)
        st.heap[env] = EnvO(vars, envp, fi)
        sub = Frame(self, fi, env, ctx, fr, fi.module)
        sub.entry = entry
        sub.cls = None
        sub.on_yield = on_yield
        self.sink_push(sub.rets, sub.raises)
        fr.live.append(env)
        try:
            body = fi.node.body
            if isinstance(body, list):
                for x in self.block(body, [st], sub):
                    sub.rets.append((x, T.NONE))
            else:
                sub.rets.extend(self.ev(body, st, sub))
        finally:
            fr.live.remove(env)
            self.sink_pop(2)
        if not sub.captured:
            for x, _ in sub.rets:
                x.heap.pop(env, None)
            for x, _ in sub.raises:
                x.heap.pop(env, None)
        if len(sub.rets) > 1:
            # join the return paths in the context of the caller
            sub.rets = self.merge(sub.rets, fr_for_merge(sub, env))
        fr.raises.extend(sub.raises)
        return sub.rets


def fr_for_merge(sub, env):
    """Frame whose environment is gone: liveness is what existed before the call plus the result."""
    f = Frame(sub.interp, sub.fi, sub.parent.env, sub.ctx, sub.parent, sub.module)
    f.entry = sub.entry
    f.live = sub.live
    f.handling = []
    return f


class _CompScope:
    def __init__(self, names, fi):
        self.locals = names
        self.globals = set()
        self.nonlocals = set()
        self.fi = fi


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return t


# ------------------------------------------------------------------ bit vectors
def bits_of_const(x):
    if x.op == "const" and isinstance(T.cval(x), int) and T.cval(x) >= 0:
        v = int(T.cval(x))
        out = []
        while v:
            out.append(bdd.TRUE if v & 1 else bdd.FALSE)
            v >>= 1
        return out
    if x.op == "bits":
        return list(x.args)
    return None


def ite_bits(g, a, b):
    n = max(len(a), len(b))
    a = a + [bdd.FALSE] * (n - len(a))
    b = b + [bdd.FALSE] * (n - len(b))
    return [bdd.ite(g, p, q) for p, q in zip(a, b)]


def make_bits(bs):
    bs = list(bs)
    while bs and bs[-1] == bdd.FALSE:
        bs.pop()
    if all(b in (bdd.TRUE, bdd.FALSE) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            if b == bdd.TRUE:
                v |= 1 << i
        return const(v)
    return mk("bits", *bs, ty="int")


def bitstr_of(x):
    """string over '0'/'1' -> list of guards"""
    if x.op == "bitstr":
        return list(x.args)
    if x.op == "const" and isinstance(T.cval(x), str) and set(T.cval(x)) <= {"0", "1"}:
        return [bdd.TRUE if c == "1" else bdd.FALSE for c in T.cval(x)]
    return None


def make_bitstr(gs):
    if all(g in (bdd.TRUE, bdd.FALSE) for g in gs):
        return const("".join("1" if g == bdd.TRUE else "0" for g in gs))
    return mk("bitstr", *gs, ty="str")


def byte_elems(x):
    x = T.strip_copy(x)
    if x.op == "bytesof":
        return list(x.args)
    if x.op == "const" and isinstance(T.cval(x), bytes):
        return [const(b) for b in T.cval(x)]
    return None


def make_bytesof(elems):
    if all(e.op == "const" for e in elems):
        return const(bytes(T.cval(e) & 255 for e in elems))
    return mk("bytesof", *elems, ty="bytes")
