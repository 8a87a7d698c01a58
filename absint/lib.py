"""Transfer functions of the Python built-ins and standard-library calls the package can use.

Every function returns a list of (state, value).  Operations that can fail add a raise outcome with
the exact exception classes CPython raises; the success state keeps the condition under which it
succeeded.  Anything not listed gives an unknown value (Interp.undecide)."""
import ast
import builtins as _pyb

from . import bdd
from . import terms as T
from .terms import Term, mk, const, tup
from .state import c_guard, c_not, c_le0, c_eq0, c_eq, c_lt, c_le, c_odd
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO, GenO, CellO

AMBIENT = {
    "time", "random", "os", "datetime", "locale", "secrets", "uuid", "socket", "subprocess", "tempfile",
    "shutil", "pathlib", "platform", "getpass", "threading", "multiprocessing", "asyncio", "signal",
    "gc", "weakref", "contextvars", "urllib", "http", "pickle", "shelve", "sqlite3", "resource", "select",
}
OUTPUT_MODULES = {"logging", "warnings", "traceback", "syslog", "pprint"}
TRANSPARENT = {"typing", "typing_extensions", "collections.abc", "abc", "__future__", "types"}

BUILTIN_FUNCS = """abs all any ascii bin bool bytearray bytes callable chr classmethod dict dir divmod
enumerate filter float format frozenset getattr hasattr hash hex id input int isinstance issubclass iter
len list map max memoryview min next object oct open ord pow print property range repr reversed round set
setattr slice sorted staticmethod str sum super tuple type zip complex delattr NotImplemented
Ellipsis""".split()

TYPE_NAMES = {"int", "str", "bytes", "bytearray", "bool", "dict", "list", "tuple", "set", "frozenset",
              "float", "memoryview", "object", "type", "range", "complex", "slice"}

STR_PREDS = {"isnumeric", "isdigit", "isdecimal", "isascii", "isalpha", "isalnum", "isspace", "isupper",
             "islower", "isidentifier", "isprintable", "istitle"}


def builtin_term(name, ty="func"):
    return mk("builtin", name, ty="class" if name in TYPE_NAMES else ty)


PLAIN_TYPES = {"int", "str", "bytes", "bytearray", "bool", "float", "list", "tuple", "dict", "set", "frozenset", "memoryview", "range", "object", "type",
               "NoneType", "complex", "slice"}
KIND_OF = {

    "int": ("bool",), "Mapping": ("dict",), "MutableMapping": ("dict",),
    "Sequence": ("list", "tuple", "str", "bytes", "bytearray", "range", "memoryview"),
    "Iterable": ("list", "tuple", "str", "bytes", "bytearray", "dict", "set", "frozenset", "range", "view",
         "iter", "generator"),
    "Callable": ("func", "class"), "ByteString": ("bytes", "bytearray"),
    "Set": ("set", "frozenset"), "Sized": ("list", "tuple", "str", "bytes", "bytearray", "dict", "set"),
    "Collection": ("list", "tuple", "str", "bytes", "bytearray", "dict", "set", "frozenset"),
    "Hashable": ("str", "bytes", "int", "tuple", "none", "bool", "float"),
}


class Library:
    def __init__(self, interp):
        self.i = interp
        from . import loops
        self.loops = loops.Loops(interp, self)
        self.classdecl = {}

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name == "__name__":
            return const("?")
        if name in BUILTIN_FUNCS:
            return builtin_term(name)
        o = getattr(_pyb, name, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return mk("builtin", name, ty="class")
        if name == "__debug__":
            return T.TRUE
        if hasattr(_pyb, name):
            return mk("builtin", name, ty="func")
        return None

    def import_(self, name, st, fr, node):
        if self.i.find_module(name):
            m = self.i.modules.get(name)
            if m is None:
                if not self.i.importing:
                    self.i.importing += 1
                    try:
                        m = self.i.import_module(name, st)
                    finally:
                        self.i.importing -= 1
                else:
                    parent = name.rpartition(".")[0]
                    if parent and self.i.modules.get(parent) is None:
                        self.i.import_module(parent, st)
                    m = self.i.import_module(name, st)
            return m.term
        return mk("extmod", name, ty="module")

    def class_list(self, v, st):
        """Class or tuple of classes -> list, or None when unknown"""
        if v.op == "tuple":
            out = []
            for x in v.args:
                c = self.class_list(x, st)
                if c is None:
                    return None
                out += c
            return out
        if v.op == "class":
            return [v.args[0]]
        if v.op == "builtin":
            return [v.args[0]]
        return None

    # ------------------------------------------------------------ kinds
    def kind(self, v, st):
        """Type name of a value, 'any' when unknown"""
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o is None:
                return "any"
            if o.kind == "inst":
                return "inst"
            if o.kind == "list":
                return o.ty
            if o.kind == "set":
                return "frozenset" if o.frozen else "set"
            if o.kind == "gen":
                return "generator"
            return o.kind
        if v.op == "exc":
            return "exc"
        return v.ty

    def content(self, v, st):
        """bytes content of a bytearray object, the value itself otherwise"""
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o is not None and o.kind == "bytearray":
                return o.content
        return v

    def typename(self, v, st):
        k = self.kind(v, st)
        if k == "inst":
            c = self.i.obj(st, v).cls
            return c if isinstance(c, str) else c.name
        return {"none": "NoneType"}.get(k, k)

    def is_bytes(self, v, st):
        return self.kind(v, st) in ("bytes", "bytearray", "memoryview")

    # ------------------------------------------------------------ conditions
    def conds(self, v, st, fr, node):
        """Truth of a value -> [(state, condition)]; may call __bool__ or __len__ of the package"""
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o is not None and o.kind == "inst" and not isinstance(o.cls, str):
                for m in ("__bool__", "__len__"):
                    f = o.cls.lookup(m)[1]
                    if f is not None and f.op == "func":
                        return [(x, self.cond(r, x, fr, node))
                                for x, r in self.i.call(f, [v], {}, st, fr, node)]
        return [(st, self.cond(v, st, fr, node))]

    def cond(self, v, st, fr, node):
        if v.op == "const":
            return const(bool(T.cval(v)))
        if v.ty == "bool":
            if v.op == "top":
                return mk("pred", "truthy", v, ty="bool")
            return v
        if v.op == "bits":
            return c_guard(bdd.any_(v.args))
        if v.ty == "int":
            return c_not(c_eq0(st.norm(v)))
        if v.ty in ("str", "bytes", "bytearray", "memoryview"):
            return c_not(c_le0(self.slen(v, st)))
        if v.op == "tuple":
            return const(len(v.args) > 0)
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o.kind == "dict":
                gs = [g for g, _, _ in o.items.values()]
                if o.base is None and not o.loops:
                    return c_guard(bdd.any_(gs))
                return mk("pred", "truthy", v, ty="bool")
            if o.kind == "list":
                if o.pre is not None:
                    if any(g == bdd.TRUE for g, _ in o.items):
                        return T.TRUE
                    return mk("pred", "truthy", o.pre, ty="bool")
                return c_guard(bdd.any_([g for g, _ in o.items]))
            if o.kind == "set":
                if o.unknown:
                    return mk("pred", "truthy", v, ty="bool")
                return c_guard(bdd.any_(list(o.items.values()) + [g for g, _ in o.syms]))
            if o.kind == "bytearray":
                return c_not(c_le0(T.length(o.content)))
            if o.kind == "inst" and not isinstance(o.cls, str):
                for m in ("__bool__", "__len__"):
                    if o.cls.lookup(m)[1] is not None:
                        self.i.undecide(m, fr, node, st)
                        return mk("pred", "truthy", v, ty="bool")
            return T.TRUE
        if v.op in ("func", "class", "builtin", "module", "extmod", "bound", "partial", "sliceobj", "exc"):
            return T.TRUE
        if v.ty == "none":
            return T.FALSE
        if v.ty in ("stream",):
            return mk("pred", "truthy", v, ty="bool")
        return mk("pred", "truthy", v, ty="bool")

    # ------------------------------------------------------------ sequences
    def fixed_elements(self, v, st):
        """Elements of a sequence whose length is known, else None"""
        if v.op == "tuple":
            return list(v.args)
        if v.op == "const" and isinstance(T.cval(v), (str,)):
            return [const(c) for c in T.cval(v)]
        if v.op == "const" and isinstance(T.cval(v), (bytes,)):
            return [const(c) for c in T.cval(v)]
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o.kind == "list" and o.pre is None and all(g == bdd.TRUE for g, _ in o.items):
                return [x for _, x in o.items]
            if o.kind == "inst" and not isinstance(o.cls, str) and o.cls.namedtuple:
                return [o.attrs[f] for f in o.cls.namedtuple]
        return None

    def elements(self, v, st, fr, node, peek=False):
        """Guarded elements of an iterable as (list of (guard, value), unordered) or None"""
        if v.op in ("ref",):
            o = self.i.obj(st, v)
            if o.kind == "list":
                if o.pre is not None:
                    return None
                if o.ty == "iter" and not peek:
                    st.heap[v.args[0]] = ListO((), None, False, "iter")
                return list(o.items), o.unordered
            if o.kind == "set":
                if o.unknown:
                    return None
                return self.set_items(o, st), len(o.items) + len(o.syms) > 1
            if o.kind == "dict":
                return self.dict_keys(v, st)
            if o.kind == "bytearray":
                return self.elements(o.content, st, fr, node)
            if o.kind == "inst" and not isinstance(o.cls, str) and o.cls.namedtuple:
                return [(bdd.TRUE, o.attrs[f]) for f in o.cls.namedtuple], False
            return None
        if v.op == "tuple":
            return [(bdd.TRUE, x) for x in v.args], False
        if v.op == "range":
            a, b, s = v.args
            if all(x.op == "const" for x in (a, b, s)):
                if T.cval(s) == 0:
                    return None
                r = range(T.cval(a), T.cval(b), T.cval(s))
                if len(r) <= 4096:
                    return [(bdd.TRUE, const(n)) for n in r], False
            return None
        if v.op == "view":
            what, d = v.args
            ks = self.dict_keys(d, st)
            if ks is None:
                return None
            items, unordered = ks
            out = []
            for g, k in items:
                if what == "keys":
                    out.append((g, k))
                    continue
                val = self.dict_peek(d, k, st)
                if val is None:
                    return None
                out.append((g, val if what == "values" else tup([k, val])))
            return out, unordered
        if v.op == "const":
            e = self.fixed_elements(v, st)
            return None if e is None else ([(bdd.TRUE, x) for x in e], False)
        if v.op == "bitstr":
            from .interp import make_bitstr
            return [(bdd.TRUE, make_bitstr([g])) for g in v.args], False
        if v.ty in ("bytes", "bytearray", "memoryview"):
            n = st.norm(T.length(v))
            if n.op == "const" and T.cval(n) <= 64:
                return [(bdd.TRUE, self.byte_at(v, k, st)) for k in range(T.cval(n))], False
            if n.op != "const" and st.prove_le0(T.sub(n, const(16))):
                # few bytes, but not known how many
                top = max(k for k in range(17) if k == 0 or not st.prove_le0(T.sub(n, const(k - 1))))
                return [(bdd.var(("gt", n, k)), self.byte_at(v, k, st)) for k in range(top)], False
            return None
        return None

    def set_items(self, o, st):
        items = {}
        for k, g in o.items.items():
            items[k] = g
        ints = any(t.ty == "int" for _, t in o.syms)
        live = [(g, t) for g, t in o.syms if bdd.and_(st.gpc, g) != bdd.FALSE]
        out = []
        for g, t in live:
            if t.ty == "int":
                other = bdd.and_(st.gpc, g)
                for n in self.i.scenario.int_universe:
                    k = const(n)
                    e = bdd.and_(g, bdd.var(("eqn", t, n)))
                    items[k] = bdd.or_(items.get(k, bdd.FALSE), e)
                    other = bdd.and_(other, bdd.not_(bdd.var(("eqn", t, n))))
                if other != bdd.FALSE:
                    # it may be another number
                    out.append((bdd.and_(g, bdd.not_(bdd.any_([bdd.var(("eqn", t, n)) for n in self.i.scenario.int_universe]))), t))
            else:
                out.append((g, t))
        try:
            ks = sorted(items, key=lambda k: T.cval(k))
        except TypeError:
            ks = list(items)
        return [(items[k], k) for k in ks] + out

    def dict_keys(self, v, st):
        o = self.i.obj(st, v)
        if o is None or o.loops:
            return None
        out = []
        seen = set()
        unordered = False
        if o.base is not None:
            ks = self.i.scenario.base_keys(o.base, st)
            if ks is None:
                return None
            unordered = True
            for g, k in ks:
                it = o.items.get(k)
                seen.add(k)
                out.append((g if it is None else it[0], k))
        for k, (g, _, _) in o.items.items():
            if k not in seen:
                out.append((g, k))
        return [(g, k) for g, k in out if bdd.and_(g, st.gpc) != bdd.FALSE], unordered

    def dict_peek(self, d, k, st):
        o = self.i.obj(st, d)
        it = o.items.get(k)
        if it is not None:
            return it[1]
        if o.base is not None:
            return self.i.scenario.base_item(o.base, k, st)
        return None

    def byte_at(self, x, k, st):
        """k-th byte (constant k) as an integer"""
        from .interp import byte_elems, make_bits
        x = T.strip_copy(st.norm(x))
        e = byte_elems(x)
        if e is not None:
            return e[k]
        if x.op == "slice" and x.args[1].op == "const" and False:
            pass
        return make_bits([bdd.var(("bit", x, k * 8 + (8 - b))) for b in range(8)])

    def to_bits(self, v, st):
        """integer -> list of guards (least significant first), or None"""
        from .interp import bits_of_const
        b = bits_of_const(v)
        if b is not None:
            return b
        if v.op == "from_bytes" and not (v.args[2].op == "const" and T.cval(v.args[2])):
            n = st.norm(T.length(v.args[0]))
            if n.op == "const" and T.cval(n) <= 64 and v.args[1].op == "const":
                out = []
                ks = range(T.cval(n))
                for k in (reversed(ks) if T.cval(v.args[1]) == "big" else ks):
                    e = self.to_bits(self.byte_at(v.args[0], k, st), st)
                    if e is None:
                        return None
                    out += e + [bdd.FALSE] * (8 - len(e))
                return out
        if v.op == "int_of_str" and T.cval(v.args[1]) == 16:
            x = v.args[0]
            n = st.norm(T.length(x))
            if n.op == "const" and T.cval(n) % 2 == 0 and T.cval(n) <= 128:
                u = self.unhex_term(x)
                if u.op == "unhex" and st.decide(pred("hexstr", x)) is not True:
                    # int() takes more than hexadecimal digits
                    u = mk("to_bytes", v, const(T.cval(n) // 2), const("big"), ty="bytes")
                    return self._bits_of_unhex(u, T.cval(n) // 2)
                return self.to_bits(mk("from_bytes", u, const("big"), T.FALSE, ty="int"), st) \
                    if st.norm(T.length(u)).op == "const" else self._bits_of_unhex(u, T.cval(n) // 2)
        if v.op == "guardint":
            return [v.args[0]]
        if v.op == "bool" or v.ty == "bool":
            g = self.i.as_guard(v)
            return None if g is None else [g]
        return None

    def _bits_of_unhex(self, u, n):
        out = []
        for k in reversed(range(n)):
            out += [bdd.var(("bit", u, k * 8 + (8 - b))) for b in range(8)]
        return out

    def unhex_term(self, x):
        if x.op == "hex":
            return T.tobytes(x.args[0])
        if x.op in ("upper", "lower") and x.args[0].op == "hex":
            return T.tobytes(x.args[0].args[0])
        return mk("unhex", x, ty="bytes")

    def to_list(self, v, st, fr, node):
        """list(v) -> [(state, ref)]"""
        e = self.elements(v, st, fr, node)
        if e is not None:
            return [(st, self.i.alloc(st, fr, node, ListO(e[0], None, e[1]), "list"))]
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o.kind == "list" and o.ty != "iter" and o.pre in self.i.joins:
                return [(st, self.i.alloc(st, fr, node, ListO(o.items, o.pre, o.unordered), "list"))]
        acc = self.i.alloc(st, fr, node, ListO(), "list")
        fr.live.append(acc.args[0])

        def body(y, x, *a):
            o = self.i.obj(y, acc).copy()
            o.items = o.items + ((bdd.TRUE, x),)
            y.heap[acc.args[0]] = o
            return [y]
        try:
            sts = self.loops.each(node, v, st, fr, body)
        finally:
            fr.live.remove(acc.args[0])
        return [(y, acc) for y in sts]

    # ------------------------------------------------------------ strings
    def join_str(self, parts):
        if all(p.op == "const" for p in parts):
            return const("".join(T.cval(p) for p in parts))
        flat = [p for p in parts if not T.is_const(p, "")]
        return T.concat(flat, "str") if flat else T.EMPTY_S

    def str_(self, v, st, fr, node):
        k = self.kind(v, st)
        if k == "str":
            return [(st, v)]
        if v.op == "const" and not isinstance(T.cval(v), bytes):
            return [(st, const(str(T.cval(v))))]
        if v.op == "bits":
            return [(st, mk("str_of_int", v, ty="str"))]
        if k == "int":
            if v.op == "int_of_str" and v.args[0].op == "key" and v.args[0].args[0] == "big":
                return [(st, v.args[0])]
            return [(st, mk("str_of_int", st.norm(v), ty="str"))]
        if v.op == "ref" and k == "inst":
            o = self.i.obj(st, v)
            if not isinstance(o.cls, str):
                c, m = o.cls.lookup("__str__")
                if m is not None:
                    return self.i.call(mk("bound", v, "__str__", m, ty="func"), [], {}, st, fr, node)
                if o.cls.exc_base():
                    a = o.attrs.get("args")
                    if a is not None and a.op == "tuple" and len(a.args) == 1:
                        return self.str_(a.args[0], st, fr, node)
                    return [(st, mk("strof", v, a if a is not None else T.NONE, ty="str"))]
                c, m = o.cls.lookup("__repr__")
                if m is not None:
                    return self.i.call(mk("bound", v, "__repr__", m, ty="func"), [], {}, st, fr, node)
        if v.op == "ref" or v.op == "tuple":
            return [(st, mk("strof", self.snapshot(v, st), ty="str"))]
        return [(st, mk("strof", v, ty="str"))]

    def snapshot(self, v, st, depth=0):
        """Immutable picture of a container's contents"""
        if depth > 3:
            return mk("obj", "deep", ty="any")
        if v.op == "tuple":
            return mk("contents", "tuple", *[self.snapshot(x, st, depth + 1) for x in v.args], ty="any")
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o is None:
                return v
            if o.kind == "list":
                its = [self.snapshot(x, st, depth + 1) for g, x in o.items if bdd.and_(g, st.gpc) != bdd.FALSE]
                return mk("contents", "list", *its, ty="any")
            if o.kind == "set":
                return mk("contents", "set", *(list(o.items) + [t for _, t in o.syms]), ty="any")
            if o.kind == "dict":
                parts = []
                for k, (g, x, s) in o.items.items():
                    parts += [k, self.snapshot(x, st, depth + 1)]
                if o.base is not None:
                    parts.append(mk("allof", o.base if isinstance(o.base, str) else str(o.base), ty="any"))
                return mk("contents", "dict", *parts, ty="any")
            if o.kind == "bytearray":
                return o.content
            if o.kind == "inst":
                return mk("contents", "inst", *[self.snapshot(x, st, depth + 1) for k, x in o.attrs.items()
                                                if not k.startswith("#")], ty="any")
        return v

    def repr_(self, v, st):
        v = self.content_repr(v, st)
        if v.op == "const":
            return const(repr(T.cval(v)))
        return mk("repr", v, ty="str")

    def content_repr(self, v, st):
        if v.op in ("ref", "tuple"):
            return self.snapshot(v, st)
        return v

    def format_value(self, v, spec, conv, st, fr, node):
        """format(v, spec) after an optional conversion -> [(state, str term)]"""
        if conv == 114:
            v = self.repr_(v, st)
        elif conv == 97:
            v = mk("ascii", v, ty="str")
        elif conv == 115:
            r = self.str_(v, st, fr, node)
            out = []
            for x, s in r:
                out += self.format_value(s, spec, -1, x, fr, node)
            return out
        if T.is_const(spec, ""):
            return self.str_(v, st, fr, node)
        # spec: concatenation of constants and values
        parts = list(spec.args) if spec.op == "concat" else [spec]
        k = self.kind(v, st)
        p = _parse_spec(parts)
        if p is None:
            r = mk("fmt", v if v.op != "ref" else self.snapshot(v, st), spec, ty="str")
            return [(st, r)]
        fill, align, zero, width, typ, alt = p
        if width is not None and width.op == "str_of_int":
            width = width.args[0]
        if k in ("int", "bool") or v.op == "bits":
            if typ in ("", "d", "n"):
                if width is None:
                    return self.str_(v, st, fr, node)
                if st.decide(c_le(const(0), width)) is not True:
                    out = []
                    for x, ok in self.i.fork(st, c_le(const(0), width)):
                        if ok:
                            out += self.format_value(v, spec, -1, x, fr, node)
                        elif zero and align == "":
                            self.i.raise_(x, fr, ["ValueError"], "format", node)
                        else:
                            out.append((x, self.i.undecide("negative width", fr, node, x)))
                    return out
                if zero and align in ("", "="):
                    return [(st, self.fmt0(v, width, st))]
                if fill == "0" and (align == "=" or align == ">" and st.decide(c_le(const(0), v))):
                    return [(st, self.fmt0(v, width, st))]
                s = self.str_(v, st, fr, node)
                return [(x, self.pad(y, width, align or ">", fill, x)) for x, y in s]
            if typ in ("x", "X", "b") and not alt:
                r = self.fmt_bits(v, width, typ, zero or fill == "0", st)
                if r is not None:
                    return [(st, r)]
        if k == "str":
            if typ in ("", "s"):
                if width is None:
                    return [(st, v)]
                if st.decide(c_le(const(0), width)) is not True:
                    out = []
                    for x, ok in self.i.fork(st, c_le(const(0), width)):
                        if ok:
                            out += self.format_value(v, spec, -1, x, fr, node)
                        else:
                            self.i.raise_(x, fr, ["ValueError"], "format", node)
                    return out
                if zero and align == "":
                    return [(st, self.pad(v, width, "<", "0", st))]
                return [(st, self.pad(v, width, align or "<", fill, st))]
            self.i.raise_(st, fr, ["ValueError"], "format", node)
            return []
        return [(st, mk("fmt", v if v.op != "ref" else self.snapshot(v, st), spec, ty="str"))]

    def fmt0(self, v, width, st):
        width = st.norm(width)
        v = st.norm(v)
        if v.op == "const" and width.op == "const":
            return const(("%0*d" % (T.cval(width), T.cval(v))))
        return mk("fmt0", v, width, ty="str")

    def fmt_bits(self, v, width, typ, zero, st):
        from .interp import make_bits, make_bytesof, make_bitstr
        if width is None or width.op != "const" or not zero:
            return None
        if v.op == "int_of_str":
            return None
        b = self.to_bits(v, st)
        if b is None:
            return None
        w = T.cval(width)
        if typ == "b":
            if len(b) > w:
                return None
            b = b + [bdd.FALSE] * (w - len(b))
            return make_bitstr(list(reversed(b)))
        if len(b) > 4 * w or w % 2:
            return None
        b = b + [bdd.FALSE] * (4 * w - len(b))
        els = [make_bits(b[8 * k:8 * k + 8]) for k in reversed(range(w // 2))]
        h = T.hexstr(make_bytesof(els))
        return T.upper(h) if typ == "X" else h

    def pad(self, v, width, align, fill, st):
        if v.op == "const" and width.op == "const":
            s, w = T.cval(v), T.cval(width)
            return const(s.ljust(w, fill) if align == "<" else s.rjust(w, fill) if align == ">" else s.center(w, fill) if align == "c" else format(s, "%s^%d" % (fill, w)))
        if v.op == "str_of_int" and fill == "0" and align == ">" and st.decide(c_le(const(0), v.args[0])):
            return self.fmt0(v.args[0], width, st)
        return mk("pad", v, width, align, fill, ty="str")

    def percent(self, f, args, st, fr, node):
        """'...' % args"""
        import re
        if f.op != "const":
            return [(st, mk("fmt", f, args if args.op != "ref" else self.snapshot(args, st), ty="str"))]
        vals = list(args.args) if args.op == "tuple" else [args]
        if self.kind(args, st) == "dict":
            return [(st, mk("fmt", f, self.snapshot(args, st), ty="str"))]
        toks = re.split(r"(%[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[diouxXeEfFgGcrsa%])", T.cval(f))
        acc = [(st, [], 0)]
        for t in toks:
            if not t:
                continue
            if not t.startswith("%") or t == "%%":
                acc = [(x, a + [const("%" if t == "%%" else t)], j) for x, a, j in acc]
                continue
            m = re.match(r"%([-+ #0]*)(\*|\d+)?(\.(?:\*|\d+))?([a-zA-Z])", t)
            nxt = []
            for x, a, j in acc:
                flags, w, prec, c = m.groups()
                width = None
                if w == "*":
                    if j >= len(vals):
                        self.i.raise_(x, fr, ["TypeError"], "% format", node)
                        continue
                    width = vals[j]
                    j += 1
                elif w:
                    width = const(int(w))
                if j >= len(vals):
                    self.i.raise_(x, fr, ["TypeError"], "% format", node)
                    continue
                v = vals[j]
                j += 1
                if prec:
                    nxt.append((x, a + [mk("fmt", v if v.op != "ref" else self.snapshot(v, x), const(t), ty="str")], j))
                    continue
                if c in "di":
                    if width is not None and x.decide(c_le(const(0), width)) is not True:
                        rs = []
                        for y, ok in self.i.fork(x, c_le(const(0), width)):
                            if "0" in flags and ok and "-" not in flags:
                                rs.append((y, self.fmt0(v, width, y)))
                            else:
                                left = not ok or "-" in flags
                                rs += [(z, self.pad(q, width if ok else T.scale(width, -1), "<" if left else ">", " ", z)) for z, q in self.str_(v, y, fr, node)]
                    elif "0" in flags and "-" not in flags and width is not None:
                        rs = [(x, self.fmt0(v, width, x))]
                    elif width is not None:
                        rs = [(y, self.pad(s, width, "<" if "-" in flags else ">", " ", y)) for y, s in self.str_(v, x, fr, node)]
                    else:
                        rs = self.str_(v, x, fr, node)
                elif c == "r":
                    rs = [(x, self.repr_(v, x))]
                elif c == "s":
                    rs = self.str_(v, x, fr, node)
                    if width is not None and x.decide(c_le(const(0), width)) is not True:
                        rs = [(z, self.pad(s, width if ok else T.scale(width, -1), "<" if "-" in flags or not ok else ">", " ", z))
                              for y, s in rs for z, ok in self.i.fork(y, c_le(const(0), width))]
                    elif width is not None:
                        rs = [(y, self.pad(s, width, "<" if "-" in flags else ">", " ", y)) for y, s in rs]
                elif c in "xX" and "0" in flags and width is not None:
                    r = self.fmt_bits(v, width, c, True, x)
                    rs = [(x, r if r is not None else mk("fmt", v, const(t), ty="str"))]
                else:
                    rs = [(x, mk("fmt", v if v.op != "ref" else self.snapshot(v, x), const(t), ty="str"))]
                nxt += [(y, a + [s], j) for y, s in rs]
            acc = nxt
        out = []
        for x, a, j in acc:
            if j != len(vals):
                self.i.raise_(x, fr, ["TypeError"], "% format", node)
                continue
            out.append((x, self.join_str(a)))
        return out

    def str_format(self, f, args, kwargs, st, fr, node):
        """'...'.format(...)"""
        import string
        if f.op != "const":
            parts = [f] + [a if a.op != "ref" else self.snapshot(a, st) for a in args]
            return [(st, mk("fmt", *parts, ty="str"))]
        try:
            toks = list(string.Formatter().parse(T.cval(f)))
        except ValueError:
            self.i.raise_(st, fr, ["ValueError"], "format", node)
            return []
        return self._format_toks(toks, args, kwargs, st, fr, node, [0])

    def _format_toks(self, toks, args, kwargs, st, fr, node, auto):
        import string
        acc = [(st, [])]
        for lit, name, spec, conv in toks:
            if lit:
                acc = [(x, a + [const(lit)]) for x, a in acc]
            if name is None:
                continue
            nxt = []
            first, rest = string._string.formatter_field_name_split(name) if hasattr(string, "_string") \
                else __import__("_string").formatter_field_name_split(name)
            if first == "":
                first = auto[0]
                auto[0] += 1
            rest = list(rest)
            for x, a in acc:
                if isinstance(first, int):
                    if first >= len(args):
                        self.i.raise_(x, fr, ["IndexError"], "format", node)
                        continue
                    v = args[first]
                else:
                    if first not in kwargs:
                        self.i.raise_(x, fr, ["KeyError"], "format", node)
                        continue
                    v = kwargs[first]
                vs = [(x, v)]
                for isattr, key in rest:
                    n2 = []
                    for y, o in vs:
                        if isattr:
                            n2 += self.i.getattr(o, key, y, fr, node)
                        else:
                            n2 += self.i.getitem(o, const(key), y, fr, node)
                    vs = n2
                sptoks = list(string.Formatter().parse(spec or ""))
                for y, o in vs:
                    for z, sp in self._format_toks(sptoks, args, kwargs, y, fr, node, auto):
                        c = {None: -1, "r": 114, "s": 115, "a": 97}[conv]
                        for w, t in self.format_value(o, sp, c, z, fr, node):
                            nxt.append((w, a + [t]))
            acc = nxt
        return [(x, self.join_str(a)) for x, a in acc]

    # ------------------------------------------------------------ operators
    def unary(self, op, v, st, fr, node):
        if isinstance(op, ast.USub):
            if self.kind(v, st) in ("int", "bool"):
                return [(st, T.neg(v))]
        elif isinstance(op, ast.UAdd):
            if self.kind(v, st) == "int":
                return [(st, v)]
        elif isinstance(op, ast.Invert) and v.op == "const":
            return [(st, const(~T.cval(v)))]
        elif isinstance(op, ast.Invert) and v.ty == "int":
            return [(st, T.sub(const(-1), v))]
        return [(st, self.i.undecide("unary operator", fr, node, st))]

    def typeerror(self, st, fr, node, what=""):
        self.i.raise_(st, fr, ["TypeError"], what, node)
        return []

    def need(self, v, st, fr, node, kinds, classes=("TypeError",)):
        """v is of unknown type and is used as one of kinds.  Splits: the values of other types
        raise.  -> state in which v has the type, or None"""
        c = mk("isinst", v, kinds[0], ty="bool")
        out = []
        d = st.decide(c)
        if d is not True:
            b = st.copy()
            if b.assume(c, False):
                self.i.raise_(b, fr, classes, "operand type", node)
            if d is False:
                return None
        if not st.assume(c, True):
            return None
        return st

    def binop(self, op, a, b, st, fr, node):
        ka, kb = self.kind(a, st), self.kind(b, st)
        o = type(op).__name__
        if "top" in (a.op, b.op):
            return [(st, self.i.undecide("operator on unknown", fr, node, st))]
        num = ("int", "bool")
        if o == "Mod" and ka == "str":
            return self.percent(a, b, st, fr, node)
        if ka in num and kb in num:
            return self.int_op(o, a, b, st, fr, node)
        if o == "Add":
            if ka == "str" and kb == "str":
                return [(st, self.join_str([a, b]) if a.op == b.op == "const" else T.concat([a, b], "str"))]
            if ka in ("bytes", "bytearray") and kb in ("bytes", "bytearray", "memoryview"):
                ca, cb = self.content(a, st), self.content(b, st)
                r = T.concat([T.tobytes(ca), T.tobytes(cb)], "bytes")
                if ka == "bytearray":
                    if a.op == "ref":
                        return [(st, self.i.alloc(st, fr, node, BArrO(r)))]
                    return [(st, mk("bytearrayof", r, ty="bytearray"))]
                return [(st, r)]
            if ka == "list" and kb == "list":
                oa, ob = self.i.obj(st, a), self.i.obj(st, b)
                if ob.pre is None:
                    return [(st, self.i.alloc(st, fr, node, ListO(oa.items + ob.items, oa.pre,
                                                                  oa.unordered or ob.unordered)))]
            if ka == "tuple" and kb == "tuple" and a.op == b.op == "tuple":
                return [(st, tup(a.args + b.args))]
            if ka == "any" or kb == "any":
                return self.any_op(a, b, ka, kb, "Add", st, fr, node)
            if ka in ("str", "bytes", "bytearray", "int", "list", "tuple", "none", "dict") and \
                    kb in ("str", "bytes", "bytearray", "int", "list", "tuple", "none", "dict"):
                return self.typeerror(st, fr, node, "+")
        if o == "Mult":
            if kb in ("str", "bytes", "bytearray", "list", "tuple") and ka == "int":
                a, b, ka, kb = b, a, kb, ka
            if ka in ("str", "bytes") and kb == "int":
                st.event("alloc", "repeat", b, fr.where(node), self.alloc_ok(b, st))
                if a.op == "const" and b.op == "const":
                    return [(st, const(T.cval(a) * T.cval(b)))]
                return [(st, mk("repeat", a, b, ty=ka))]
            if ka == "list" and b.op == "const":
                oa = self.i.obj(st, a)
                if oa.pre is None:
                    return [(st, self.i.alloc(st, fr, node, ListO(oa.items * T.cval(b))))]
            if ka == "list" and kb == "int":
                st.event("alloc", "repeat", b, fr.where(node), self.alloc_ok(b, st))
        if ka in ("set", "frozenset") and kb in ("set", "frozenset"):
            m = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference",
                 "BitXor": "symmetric_difference"}.get(o)
            if m:
                return self.set_op(a, [b], m, st, fr, node)
        if o == "BitOr" and ka == "dict" and kb == "dict":
            oa = self.i.obj(st, a)
            r = self.i.alloc(st, fr, node, oa.copy())
            return [(x, r) for x in self.dict_update(r, b, st, fr, node)]
        if o == "BitOr" and (ka == "class" or kb == "class"):
            return [(st, tup([a, b]))]
        if ka == "any" or kb == "any":
            return self.any_op(a, b, ka, kb, o, st, fr, node)
        if o == "Div" and ka in num and kb in num:
            return [(st, mk("truediv", a, b, ty="float"))]
        if a.op == "const" and b.op == "const" and not isinstance(op, ast.Pow):
            return [(st, self.i.undecide("operator %s on constants" % o, fr, node, st))]
        return [(st, self.i.undecide("operator %s on %s and %s" % (o, ka, kb), fr, node, st))]

    def any_op(self, a, b, ka, kb, o, st, fr, node):
        """An operand of unknown type (a document value that may be anything)."""
        if o == "Add":
            other = kb if ka == "any" else ka
            if other in ("str", "bytes"):
                v = a if ka == "any" else b
                x = self.need(v, st, fr, node, [other])
                if x is None:
                    return []
                return [(x, T.concat([a, b], other))]
        c = st.copy()
        self.i.raise_(c, fr, ["TypeError"], "operand", node)
        return [(st, mk("op" + o, a, b, ty="any"))]

    def alloc_ok(self, n, st):
        """Is this size bounded by the input or the specification?  (facts at this point)"""
        return self.i.scenario.bounded(n, st) if self.i.scenario is not None else True

    def int_op(self, o, a, b, st, fr, node):
        from .interp import make_bits, bits_of_const
        if a.ty == "bool":
            a = self.bool_int(a, st)
        if b.ty == "bool":
            b = self.bool_int(b, st)
        if a is None or b is None:
            return [(st, self.i.undecide("arithmetic on condition", fr, node, st))]
        if a.op == "const" and b.op == "const":
            x, y = int(T.cval(a)), int(T.cval(b))
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y,
                     "FloorDiv": lambda: x // y, "Mod": lambda: x % y,
                     "LShift": lambda: x << y if y < 100000 else None, "RShift": lambda: x >> y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Pow": lambda: x ** y if abs(y) < 10000 else None, "Div": lambda: x / y}[o]()
                if r is None:
                    return [(st, self.i.undecide("huge constant", fr, node, st))]
                return [(st, const(r))]
            except ZeroDivisionError:
                self.i.raise_(st, fr, ["ZeroDivisionError"], o, node)
                return []
            except ValueError:
                self.i.raise_(st, fr, ["ValueError"], o, node)
                return []
        if o == "Add":
            if a.op == "bits" and b.op == "bits" or (a.op == "bits" or b.op == "bits"):
                x, y = bits_of_const(a), bits_of_const(b)
                if x is not None and y is not None:
                    # disjoint bit sets add like OR
                    n = max(len(x), len(y))
                    x2 = x + [bdd.FALSE] * (n - len(x))
                    y2 = y + [bdd.FALSE] * (n - len(y))
                    if all(bdd.and_(p, q) == bdd.FALSE for p, q in zip(x2, y2)):
                        return [(st, make_bits([bdd.or_(p, q) for p, q in zip(x2, y2)]))]
                    return [(st, make_bits(self.add_bits(x2, y2)))]
            return [(st, T.add(a, b))]
        if o == "Sub":
            return [(st, T.sub(a, b))]
        if o == "Mult":
            if a.op == "bits" and b.op == "const" and T.cval(b) > 0 and T.cval(b) & (T.cval(b) - 1) == 0:
                return [(st, make_bits([bdd.FALSE] * (T.cval(b).bit_length() - 1) + list(a.args)))]
            if b.op == "bits" and a.op == "const":
                return self.int_op("Mult", b, a, st, fr, node)
            return [(st, T.mul(a, b))]
        if o in ("LShift", "RShift") and st.decide(c_le(const(0), b)) is not True:
            out = []
            for x, ok in self.i.fork(st, c_le(const(0), b)):
                if ok:
                    out += self.int_op(o, a, b, x, fr, node)
                else:
                    self.i.raise_(x, fr, ["ValueError"], "negative shift count", node)
            return out
        if o in ("FloorDiv", "RShift"):
            if o == "RShift":
                if b.op != "const":
                    return [(st, self.i.undecide("shift by unknown", fr, node, st))]
                x = self.to_bits(a, st)
                if x is not None:
                    return [(st, make_bits(x[T.cval(b):]))]
                return [(st, T.floordiv(st.norm(a), const(1 << T.cval(b))))]
            if b.op == "const":
                k = T.cval(b)
                if a.op == "bits" and k > 0 and k & (k - 1) == 0:
                    return [(st, make_bits(a.args[k.bit_length() - 1:]))]
                return [(st, T.floordiv(st.norm(a), b))]
            z = st.copy()
            if z.assume(c_eq0(b), True):
                self.i.raise_(z, fr, ["ZeroDivisionError"], o, node)
            if not st.assume(c_eq0(b), False):
                return []
            return [(st, T.floordiv(a, b))]
        if o == "Mod":
            if b.op == "const" and T.cval(b) > 0:
                k = T.cval(b)
                if a.op == "bits" and k & (k - 1) == 0:
                    return [(st, make_bits(a.args[:k.bit_length() - 1]))]
                if k == 2:
                    return [(st, parity(st.norm(a)))]
                return [(st, T.mod(st.norm(a), b))]
            if st.decide(c_eq0(b)) is not False:
                z = st.copy()
                if z.assume(c_eq0(b), True):
                    self.i.raise_(z, fr, ["ZeroDivisionError"], o, node)
                if not st.assume(c_eq0(b), False):
                    return []
            return [(st, T.mod(a, b))]
        if o in ("BitAnd", "BitOr", "BitXor"):
            if o == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if T.is_const(y, 1) and x.op not in ("bits", "from_bytes"):
                        return [(st, parity(st.norm(x)))]
            x, y = self.to_bits(a, st), self.to_bits(b, st)
            if x is not None and y is not None:
                n = max(len(x), len(y))
                x += [bdd.FALSE] * (n - len(x))
                y += [bdd.FALSE] * (n - len(y))
                f = {"BitAnd": bdd.and_, "BitOr": bdd.or_, "BitXor": bdd.xor_}[o]
                return [(st, make_bits([f(p, q) for p, q in zip(x, y)]))]
            if o == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.op == "const" and T.cval(y) > 0 and (T.cval(y) + 1) & T.cval(y) == 0:
                        if T.cval(y) == 1:
                            return [(st, parity(st.norm(x)))]
                        return [(st, T.mod(st.norm(x), const(T.cval(y) + 1)))]
            return [(st, mk("bitop", o, a, b, ty="int"))]
        if o == "LShift":
            if b.op == "const":
                x = self.to_bits(a, st) if a.op != "const" else None
                if x is not None and a.op in ("bits", "from_bytes"):
                    return [(st, make_bits([bdd.FALSE] * T.cval(b) + x))]
                return [(st, T.scale(a, 1 << T.cval(b)))]
            st.event("alloc", "shift", b, fr.where(node), self.alloc_ok(b, st))
            return [(st, mk("shl", a, b, ty="int"))]
        if o == "Pow":
            return [(st, mk("pow", a, b, ty="int"))]
        if o == "Div":
            return [(st, mk("truediv", a, b, ty="float"))]
        return [(st, self.i.undecide("integer operator %s" % o, fr, node, st))]

    def add_bits(self, x, y):
        out, c = [], bdd.FALSE
        for p, q in zip(x, y):
            s = bdd.xor_(bdd.xor_(p, q), c)
            c = bdd.or_(bdd.and_(p, q), bdd.and_(c, bdd.xor_(p, q)))
            out.append(s)
        return out + [c]

    def bool_int(self, v, st):
        from .interp import make_bits
        if v.op == "const":
            return const(int(T.cval(v)))
        g = self.i.as_guard(v)
        if g is not None:
            return make_bits([g])
        if v.op == "odd":
            return parity(v.args[0])
        d = st.decide(v)
        if d is not None:
            return const(int(d))
        return mk("boolint", v, ty="int")

    def inplace(self, op, cur, v, st, fr, node):
        k = self.kind(cur, st)
        o = type(op).__name__
        if cur.op == "ref":
            ob = self.i.obj(st, cur)
            if k == "bytearray" and o == "Add":
                kv = self.kind(v, st)
                if kv in ("bytes", "bytearray", "memoryview"):
                    c = ob.copy()
                    c.content = T.concat([c.content, T.tobytes(self.content(v, st))], "bytes")
                    self.i.write(st, cur, c, fr, node, "+=")
                    return [(st, cur)]
                if kv == "str":
                    return self.typeerror(st, fr, node, "+=")
                r = self.i.call(mk("bound", cur, "extend", ty="func"), [v], {}, st, fr, node)
                return [(x, cur) for x, _ in r]
            if k == "list" and o == "Add":
                r = self.i.call(mk("bound", cur, "extend", ty="func"), [v], {}, st, fr, node)
                return [(x, cur) for x, _ in r]
            if k == "set":
                m = {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update",
                     "BitXor": "symmetric_difference_update"}.get(o)
                if m:
                    r = self.i.call(mk("bound", cur, m, ty="func"), [v], {}, st, fr, node)
                    return [(x, cur) for x, _ in r]
            if k == "dict" and o == "BitOr":
                return [(x, cur) for x in self.dict_update(cur, v, st, fr, node)]
        if k == "bytearray" and cur.op != "ref" and o == "Add":
            # the caller's own bytearray grows in place
            st.event("arg-write", ("arg", "s"), "+=", None, fr.where(node))
            return [(st, self.i.undecide("in-place += on input", fr, node, st))]
        return self.binop(op, cur, v, st, fr, node)

    # ------------------------------------------------------------ comparisons
    def compare(self, op, a, b, st, fr, node):
        o = type(op).__name__
        if o in ("NotEq", "IsNot", "NotIn"):
            inv = {"NotEq": ast.Eq, "IsNot": ast.Is, "NotIn": ast.In}[o]()
            return [(x, c_not(self.cond(r, x, fr, node))) for x, r in self.compare(inv, a, b, st, fr, node)]
        if o == "In":
            return self.contains(b, a, st, fr, node)
        if "top" in (a.op, b.op):
            self.i.undecide("comparison of unknown", fr, node, st)
            return [(st, mk("cmp", o, a, b, ty="bool"))]
        if o == "Is":
            return [(st, self.is_(a, b, st))]
        if o == "Eq":
            return self.eq(a, b, st, fr, node)
        ka, kb = self.kind(a, st), self.kind(b, st)
        if ka in ("int", "bool") and kb in ("int", "bool"):
            if a.ty == "bool":
                a = self.bool_int(a, st)
            if b.ty == "bool":
                b = self.bool_int(b, st)
            if o == "Gt":
                a, b, o = b, a, "Lt"
            elif o == "GtE":
                a, b, o = b, a, "LtE"
            if a.op == "bits" or b.op == "bits":
                g = self.cmp_bits(a, b, o, st)
                if g is not None:
                    return [(st, c_guard(g))]
            return [(st, c_lt(a, b) if o == "Lt" else c_le(a, b))]
        if ka in ("set", "frozenset") and kb in ("set", "frozenset"):
            if o == "LtE":
                return self.issubset(a, b, st, fr, node)
            if o == "GtE":
                return self.issubset(b, a, st, fr, node)
        if a.op == "const" and b.op == "const":
            x, y = T.cval(a), T.cval(b)
            try:
                return [(st, const({"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y,
                                    "GtE": lambda: x >= y}[o]()))]
            except TypeError:
                return self.typeerror(st, fr, node, o)
        if a.op == "tuple" and b.op == "tuple":
            # the first elements that differ decide
            if o in ("Gt", "GtE"):
                a, b, o = b, a, {"Gt": "Lt", "GtE": "LtE"}[o]
            out, live = [], [st]
            for x, y in zip(a.args, b.args):
                nxt = []
                for z in live:
                    for w, r in self.eq(x, y, z, fr, node):
                        for u, t in self.i.truth(r, w, fr, node):
                            if t:
                                nxt.append(u)
                            else:
                                out += self.compare(ast.Lt(), x, y, u, fr, node)
                live = nxt
            n, m = len(a.args), len(b.args)
            return out + [(x, const(n < m or o == "LtE" and n == m)) for x in live]
        if "any" in (ka, kb):
            c = st.copy()
            self.i.raise_(c, fr, ["TypeError"], "comparison", node)
        elif (ka == "str") != (kb == "str") or (ka == "none") or (kb == "none"):
            return self.typeerror(st, fr, node, o)
        return [(st, mk("cmp", o, a, b, ty="bool"))]

    def cmp_bits(self, a, b, o, st):
        x, y = self.to_bits(a, st), self.to_bits(b, st)
        if x is None or y is None:
            if o == "Lt" and a.op == "const" and T.cval(a) < 0 and b.op == "bits":
                return bdd.TRUE
            if o == "LtE" and a.op == "const" and T.cval(a) <= 0 and b.op == "bits":
                return bdd.TRUE
            return None
        n = max(len(x), len(y))
        x += [bdd.FALSE] * (n - len(x))
        y += [bdd.FALSE] * (n - len(y))
        lt, eq = bdd.FALSE, bdd.TRUE
        for p, q in reversed(list(zip(x, y))):
            lt = bdd.or_(lt, bdd.and_(eq, bdd.and_(bdd.not_(p), q)))
            eq = bdd.and_(eq, bdd.not_(bdd.xor_(p, q)))
        return lt if o == "Lt" else bdd.or_(lt, eq)

    def is_(self, a, b, st):
        if a is b:
            if a.op in ("ref", "const", "sym", "class", "builtin", "func", "exc"):
                return T.TRUE
        ka, kb = self.kind(a, st), self.kind(b, st)
        for x, y, kx in ((a, b, ka), (b, a, kb)):
            if T.is_const(y, None):
                if x.op == "const":
                    return const(T.cval(x) is None)
                if kx != "any":
                    return T.FALSE
                return mk("isinst", x, "none", ty="bool")
            if y.op == "const" and isinstance(T.cval(y), bool):
                if kx not in ("any", "bool"):
                    return T.FALSE
                if kx == "bool":
                    return x if T.cval(y) else c_not(x)
        if a.op in ("class", "builtin") and b.op in ("class", "builtin"):
            return const(a is b)
        if a.op == "ref" and b.op == "ref":
            return const(a is b)
        if ka != "any" and kb != "any" and ka != kb:
            return T.FALSE
        return mk("same_object", a, b, ty="bool")

    def eq(self, a, b, st, fr, node):
        if a is b and a.op not in ("top",):
            return [(st, T.TRUE)]
        ka, kb = self.kind(a, st), self.kind(b, st)
        num = ("int", "bool")
        if ka == "inst" or kb == "inst":
            oa, ob = (self.i.obj(st, x) if kx == "inst" else None for x, kx in ((a, ka), (b, kb)))
            for x, y, o in ((a, b, oa), (b, a, ob)):
                if o is not None and not isinstance(o.cls, str):
                    c, m = o.cls.lookup("__eq__")
                    if m is not None:
                        return self.i.call(mk("bound", x, "__eq__", m, ty="func"), [y], {}, st, fr, node)
            nt = [x if o is None else tup([o.attrs[f] for f in o.cls.namedtuple]) if not isinstance(o.cls, str) and o.cls.namedtuple else None
                  for x, o in ((a, oa), (b, ob))]
            if None not in nt and "inst" not in (self.kind(x, st) for x in nt):
                return self.eq(nt[0], nt[1], st, fr, node)
            if oa is not None and ob is not None and oa.cls is ob.cls and not isinstance(oa.cls, str) and oa.cls.dataclass \
                    and all(n in o.attrs for n, _ in oa.cls.dataclass for o in (oa, ob)):
                return self.eq(tup([oa.attrs[n] for n, _ in oa.cls.dataclass]), tup([ob.attrs[n] for n, _ in oa.cls.dataclass]), st, fr, node)
        if ka in num and kb in num:
            if ka == "bool" and kb == "bool":
                if a.op == "const":
                    a, b = b, a
                if b.op == "const":
                    return [(st, a if T.cval(b) else c_not(a))]
                ga, gb = self.i.as_guard(a), self.i.as_guard(b)
                if ga is not None and gb is not None:
                    return [(st, c_guard(bdd.not_(bdd.xor_(ga, gb))))]
            if a.ty == "bool":
                a = self.bool_int(a, st)
            if b.ty == "bool":
                b = self.bool_int(b, st)
            if a.op == "bits" or b.op == "bits":
                x, y = self.to_bits(a, st), self.to_bits(b, st)
                if x is not None and y is not None:
                    n = max(len(x), len(y))
                    x += [bdd.FALSE] * (n - len(x))
                    y += [bdd.FALSE] * (n - len(y))
                    return [(st, c_guard(bdd.all_([bdd.not_(bdd.xor_(p, q)) for p, q in zip(x, y)])))]
            return [(st, c_eq0(st.norm(T.sub(a, b))))]
        bl = ("bytes", "bytearray", "memoryview")
        if ka in bl and kb in bl:
            x, y = T.strip_copy(self.content(a, st)), T.strip_copy(self.content(b, st))
            return [(st, self.eq_seq(x, y, st))]
        if ka == "str" and kb == "str":
            return [(st, self.eq_seq(a, b, st))]
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return [(st, T.FALSE)]
            out, live = [], [st]
            for x, y in zip(a.args, b.args):
                nxt = []
                for z in live:
                    for w, r in self.eq(x, y, z, fr, node):
                        for u, t in self.i.truth(r, w, fr, node):
                            if t:
                                nxt.append(u)
                            else:
                                out.append((u, T.FALSE))
                live = nxt
            return out + [(x, T.TRUE) for x in live]
        if ka == "any" or kb == "any":
            if a.op == "key" or b.op == "key":
                pass
            return [(st, c_eq(a, b))]
        if a.op == "ref" and b.op == "ref" and ka == kb:
            if ka in ("set", "frozenset"):
                oa, ob = self.i.obj(st, a), self.i.obj(st, b)
                if not oa.syms and not ob.syms and not oa.unknown and not ob.unknown:
                    g = bdd.TRUE
                    for k in set(oa.items) | set(ob.items):
                        g = bdd.and_(g, bdd.not_(bdd.xor_(oa.items.get(k, 0), ob.items.get(k, 0))))
                    return [(st, c_guard(g))]
            if ka == "list":
                x, y = self.fixed_elements(a, st), self.fixed_elements(b, st)
                if x is not None and y is not None:
                    return self.eq(tup(x), tup(y), st, fr, node)
            if ka == "inst":
                oa = self.i.obj(st, a)
                if isinstance(oa.cls, str) or oa.cls.lookup("__eq__")[1] is None and not oa.cls.dataclass \
                        and not oa.cls.namedtuple:
                    return [(st, T.FALSE)]
            if ka == "list" and (not self.i.obj(st, a).items and self.i.obj(st, a).pre is None
                                 or not self.i.obj(st, b).items and self.i.obj(st, b).pre is None):
                v = b if not self.i.obj(st, a).items else a
                return [(st, c_not(self.cond(v, st, fr, node)))]
            if ka == "dict":
                for x, y in ((a, b), (b, a)):
                    ox = self.i.obj(st, x)
                    if not ox.items and ox.base is None and not ox.loops:
                        return [(st, c_not(self.cond(y, st, fr, node)))]
            self.i.undecide("comparison of containers", fr, node, st)
            return [(st, mk("cmp", "Eq", a, b, ty="bool"))]
        if "view" in (ka, kb) and {ka, kb} <= {"view", "set", "frozenset"} and all(x.args[0] != "values" for x in (a, b) if x.op == "view"):
            from . import calls
            out = []
            for x, u in calls.b_set(self, [a], {}, st, fr, node) if ka == "view" else [(st, a)]:
                for y, v in calls.b_set(self, [b], {}, x, fr, node) if kb == "view" else [(x, b)]:
                    out += self.eq(u, v, y, fr, node)
            return out
        if ka != kb and not (ka in num + ("float",) and kb in num + ("float",)):
            if {ka, kb} <= {"set", "frozenset"} or {ka, kb} <= {"list", "iter"}:
                pass
            else:
                return [(st, T.FALSE)]
        if a.op == "const" and b.op == "const":
            return [(st, const(T.cval(a) == T.cval(b)))]
        if a.op in ("class", "builtin", "func", "bound") or b.op in ("class", "builtin", "func", "bound"):
            return [(st, T.FALSE)]
        return [(st, c_eq(a, b))]

    def eq_seq(self, a, b, st):
        from .interp import bitstr_of
        if a.op == "const" and b.op == "const":
            return const(T.cval(a) == T.cval(b))
        a, b = st.norm(a), st.norm(b)
        if a is b:
            return T.TRUE
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and len(T.cval(y)) == 0:
                return c_le0(T.length(x))
            if x.op == "key":
                k = x.args[0]
                if y.op == "const" and k != "other":
                    return T.FALSE
                if y.op == "str_of_int" and y.args[0].op == "int_of_str" and y.args[0].args[0] is x:
                    return const(k == "big")
                if y.op == "fmt0" and y.args[0].op == "int_of_str":
                    pass
                if y.op == "key" and y.args[0] != k:
                    return T.FALSE
                if y.op == "str_of_int" and k in ("zero", "arab", "supers", "frac", "signed", "other"):
                    return T.FALSE
            if x.op == "bitstr" and y.op == "const":
                z = bitstr_of(y)
                if z is None or len(z) != len(x.args):
                    return T.FALSE
                return c_guard(bdd.all_([bdd.not_(bdd.xor_(p, q)) for p, q in zip(x.args, z)]))
            if x.op == "str_of_int" and y.op == "const":
                v = T.cval(y)
                w = v[1:] if v[:1] == "-" else v
                if not (w.isascii() and w.isdigit() and str(int(v)) == v):
                    return T.FALSE
                return c_eq0(T.sub(x.args[0], const(int(v))))
        if a.op == "str_of_int" and b.op == "str_of_int":
            return c_eq0(T.sub(a.args[0], b.args[0]))
        return c_eq(a, b)

    def contains(self, cont, x, st, fr, node):
        k = self.kind(cont, st)
        if cont.op == "ref":
            o = self.i.obj(st, cont)
            if o.kind == "dict":
                if self.symbolic_keys(cont, x, st):
                    return [(y, self.haskey(cont, kk, y)) for y, kk in self.which_key(cont, x, st, fr, node)]
                return [(st, self.haskey(cont, x, st))]
            if o.kind == "set":
                r = self.in_set(o, x, st)
                if r.op == "cmp" and not o.unknown and r.args[-1].op == "top":
                    few = [(g, v) for g, v in list((g, k) for k, g in o.items.items()) + list(o.syms) if bdd.and_(g, st.gpc) != bdd.FALSE]
                    if len(few) <= 4:
                        return self.contains_items(few, x, st, fr, node)
                return [(st, r)]
            if o.kind == "list" and o.pre is None:
                return self.contains_items(o.items, x, st, fr, node)
            if o.kind == "inst" and not isinstance(o.cls, str):
                c, m = o.cls.lookup("__contains__")
                if m is not None:
                    return self.i.call(mk("bound", cont, "__contains__", m, ty="func"), [x], {}, st, fr, node)
        if cont.op == "view" and cont.args[0] == "keys":
            return [(st, self.haskey(cont.args[1], x, st))]
        if cont.op == "tuple":
            return self.contains_items([(bdd.TRUE, v) for v in cont.args], x, st, fr, node)
        if cont.op == "range":
            a, b, s = cont.args
            if self.kind(x, st) == "int" and T.is_const(s, 1):
                out = []
                for y, t in self.i.fork(st, c_le(a, x)):
                    if not t:
                        out.append((y, T.FALSE))
                    else:
                        out.append((y, c_lt(x, b)))
                return out
        if k == "str" and self.kind(x, st) == "str":
            if cont.op == "const" and x.op == "const":
                return [(st, const(T.cval(x) in T.cval(cont)))]
            # a one-character (or empty) string against a constant alphabet
            return [(st, mk("pred", "contains", cont, x, ty="bool"))]
        if k in ("bytes", "bytearray"):
            return [(st, mk("pred", "contains", cont, x, ty="bool"))]
        self.i.undecide("membership in %s" % k, fr, node, st)
        return [(st, mk("cmp", "In", x, cont, ty="bool"))]

    def contains_items(self, items, x, st, fr, node):
        out, live = [], [st]
        if x.op == "const" and all(v.op == "const" for _, v in items):
            g = bdd.any_([g for g, v in items if T.cval(v) == T.cval(x) and type(T.cval(v)) is type(T.cval(x))])
            return [(st, c_guard(g))]
        for g, v in items:
            nxt = []
            for y in live:
                for z, r in self.eq(x, v, y, fr, node):
                    for w, t in self.i.truth(r, z, fr, node):
                        if not t:
                            nxt.append(w)
                        elif g == bdd.TRUE:
                            out.append((w, T.TRUE))
                        else:
                            for u, h in self.i.fork(w, c_guard(g)):
                                if h:
                                    out.append((u, T.TRUE))
                                else:
                                    nxt.append(u)
            live = nxt
        return out + [(y, T.FALSE) for y in live]

    # ------------------------------------------------------------ dictionaries
    def key_domain(self, k, st):
        """k = a function of a loop element with a finite domain -> [(guard, concrete key)] or None"""
        if k.op == "str_of_int":
            x, wrap = k.args[0], lambda n: const(str(n))
        elif k.ty == "int" and k.op != "const":
            x, wrap = k, const
        else:
            return None
        c, d = T.lin(x)
        if len(d) != 1:
            return None
        (a, co), = d.items()
        dom = st.ghost.get(("domain", a))
        if dom is None:
            return None
        return [(g, wrap(c + co * n)) for g, n in dom if bdd.and_(g, st.gpc) != bdd.FALSE]

    def haskey(self, d, k, st):
        """Condition: key k is present in dictionary d"""
        o = self.i.obj(st, d)
        k = st.norm(k)
        it = o.items.get(k)
        if it is not None:
            return c_guard(it[0])
        dom = self.key_domain(k, st)
        if dom is not None:
            allin, some = True, False
            for g, c in dom:
                p = self.haskey(d, c, st)
                pg = self.i.as_guard(p)
                if pg is None:
                    allin = False
                    some = True
                    break
                gg = bdd.and_(g, st.gpc)
                if allin and not bdd.implies(gg, pg):
                    allin = False
                if not some and bdd.and_(gg, pg) != bdd.FALSE:
                    some = True
                if some and not allin:
                    break
            if allin and dom:
                return T.TRUE
            if not some:
                # another iteration of the same loop may have stored it: elements are distinct
                return T.FALSE
            return mk("haskey", d, k, ty="bool")
        if o.loops:
            for rec in o.loops:
                if k.op == "const" and rec.items is not None:
                    if any(v is k and bdd.and_(g, st.gpc) != bdd.FALSE for g, v in rec.items):
                        return mk("haskey", d, k, ty="bool")
                elif k.op != "const" and rec.elem is not None and k is rec.elem:
                    continue
                elif k.op != "const":
                    return mk("haskey", d, k, ty="bool")
        if k.op == "const":
            for other, (g, v, s) in o.items.items():
                if other.op != "const" and st.decide(c_eq(other, k)) is not False and g != bdd.FALSE:
                    if self.may_equal(other, k, st):
                        return mk("haskey", d, k, ty="bool")
        if o.base is not None:
            return self.i.scenario.base_has(o.base, k, st)
        if k.op != "const":
            may = [x for x, (h, v, s) in o.items.items() if h != bdd.FALSE and self.may_equal(x, k, st)]
            if may:
                if not o.loops and all(x.op == "const" and x.ty == k.ty and o.items[x][0] == bdd.TRUE for x in may) \
                        and k.ty in ("str", "int", "bytes"):
                    return mk("oneof", k, tuple(may), ty="bool")
                return mk("haskey", d, k, ty="bool")
        return T.FALSE

    def may_equal(self, a, b, st):
        if a is b:
            return True
        if a.op == "const" and b.op == "const":
            return T.cval(a) == T.cval(b)
        static = ("unbound", "func", "builtin", "class", "module", "extattr", "bound")
        if a.op in static and b.op in static + ("const",) or b.op in static and a.op in static + ("const",):
            return False
        if a.op == "tuple" and b.op == "tuple" and st.facts.get(c_eq(a, b)) is False:
            return False
        if a.op == "tuple" and b.op == "tuple":
            return len(a.args) == len(b.args) and all(self.may_equal(x, y, st) for x, y in zip(a.args, b.args))
        prim = ("int", "bool", "float", "str", "bytes", "none", "tuple")
        if a.ty in prim and b.ty in prim and a.ty != b.ty and not (
                a.ty in prim[:3] and b.ty in prim[:3]):
            return False
        d = None
        if a.ty == b.ty and a.ty in ("str", "bytes"):
            d = st.decide(c_eq(a, b))
        elif a.ty == b.ty == "int":
            d = st.decide(c_eq0(T.sub(a, b)))
        if d is not None:
            return d
        if a.op == "key" or b.op == "key":
            e = self.eq_seq(a, b, st)
            return not T.is_const(e, False)
        return True

    def in_set(self, o, x, st):
        if o.unknown:
            return mk("cmp", "In", x, T.top(o.unknown), ty="bool")
        x = st.norm(x)
        if x.op == "const":
            g = o.items.get(x, bdd.FALSE)
            for h, t in o.syms:
                if t is x:
                    g = bdd.or_(g, h)
                elif t.ty == x.ty and bdd.and_(h, st.gpc) != bdd.FALSE:
                    if t.ty == "int":
                        g = bdd.or_(g, bdd.and_(h, bdd.var(("eqn", t, T.cval(x))) if st.decide(c_eq0(T.sub(t, x))) is not False else bdd.FALSE))
                    elif self.may_equal(t, x, st):
                        g = bdd.or_(g, bdd.and_(h, bdd.var(("eqs", t, T.cval(x)))))
            return c_guard(g)
        dom = self.key_domain(x, st)
        if dom is not None:
            yes = all(bdd.implies(bdd.and_(g, st.gpc), o.items.get(c, bdd.FALSE)) for g, c in dom)
            if yes and dom:
                return T.TRUE
            no = all(bdd.and_(bdd.and_(g, st.gpc), o.items.get(c, bdd.FALSE)) == bdd.FALSE for g, c in dom)
            if no and not o.syms:
                return T.FALSE
            return mk("memb", x, tuple(sorted((T.cval(c), o.items.get(c, 0)) for g, c in dom)), ty="bool")
        for h, t in o.syms:
            if t is x:
                return c_guard(h)
        if not o.syms and not any(self.may_equal(k, x, st) for k in o.items if o.items[k] != bdd.FALSE):
            return T.FALSE
        if all(g == bdd.TRUE for g in o.items.values()) and not o.syms:
            return mk("oneof", x, tuple(o.items), ty="bool")
        return mk("cmp", "In", x, T.top("set"), ty="bool")

    def dict_get(self, d, k, st, fr, node, default=None, raising=True, known=False):
        """-> [(state, value)]; absent: default or KeyError"""
        o = self.i.obj(st, d)
        k = st.norm(k)
        kk = self.kind(k, st)
        if kk in ("list", "dict", "set"):
            return self.typeerror(st, fr, node, "unhashable key")
        if not known and self.symbolic_keys(d, k, st):
            ks = self.which_key(d, k, st, fr, node)
            if len(ks) != 1 or ks[0][0] is not st or ks[0][1] is not k:
                return [z for x, kk in ks for z in self.dict_get(d, kk, x, fr, node, default, raising, True)]
        c = self.haskey(d, k, st)
        out = []
        for x, b in self.i.fork(st, c):
            if not b:
                if raising:
                    self.i.raise_(x, fr, ["KeyError"], "missing key %s" % T.show(k), node, (k,))
                else:
                    out.append((x, default))
                continue
            v = self.dict_value(d, k, x, fr, node)
            out += self.i.force(v, x, fr, node)
        return out

    def dict_value(self, d, k, st, fr, node):
        """Value under k, which is present"""
        o = self.i.obj(st, d)
        it = o.items.get(k)
        if it is not None:
            return it[1]
        for rec in o.loops:
            if k is rec.elem or (k.op != "const" and rec.elem is not None and rec.items is not None
                                 and self.key_domain(k, st) is not None and k is rec.elem):
                continue
            if k.op == "const" and rec.items is not None and not any(v is k for g, v in rec.items):
                continue
            return self.i.undecide("entry stored by a loop", fr, node, st)
        dom = self.key_domain(k, st)
        if dom is not None and o.items:
            # entries overwritten for some elements of the domain
            hit = [c for g, c in dom if c in o.items]
            if hit:
                vals = {o.items[c][1] for c in hit}
                if len(hit) == len(dom) and len(vals) == 1:
                    return vals.pop()
                if len(hit) == len(dom) and all(v.op == "const" for v in vals):
                    return mk("lookup", k, tuple((c, o.items[c][1]) for g, c in dom), ty=_common_ty(vals))
                if len(hit) == len(dom):
                    return self.table_value(k, dom, o, st, fr, node)
                return self.i.undecide("entry may be overwritten", fr, node, st)
        if k.op != "const":
            for other, (g, v, s) in o.items.items():
                if g != bdd.FALSE and self.may_equal(other, k, st):
                    if o.base is None and all(x[0] == bdd.TRUE for x in o.items.values()):
                        return mk("lookup", k, tuple((c, x[1]) for c, x in o.items.items()),
                                  ty=_common_ty([x[1] for x in o.items.values()]))
                    return self.i.undecide("entry with unknown key", fr, node, st)
        if o.base is not None:
            return self.i.scenario.base_item(o.base, k, st)
        v = self.i.undecide("dictionary entry %s" % T.show(k), fr, node, st)
        if d.args[0][0] == "static":
            self.i.kept_reads[v] = d.args[0]
        return v

    def table_value(self, k, dom, o, st, fr, node):
        vals = [o.items[c][1] for g, c in dom]
        if len(set(vals)) == 1:
            return vals[0]
        return self.i.undecide("table entry", fr, node, st)

    def dict_update(self, d, other, st, fr, node):
        """d.update(other) -> [state]"""
        k = self.kind(other, st)
        if k == "dict":
            o1, o2 = self.i.obj(st, d), self.i.obj(st, other)
            if o2 is not None and o2.kind == "dict" and o2.cls is None and o1.base is None and not o1.loops \
                    and not any(g != bdd.FALSE for g, _, _ in o1.items.values()):
                o = o1.copy()
                o.items, o.base, o.loops = dict(o2.items), o2.base, o2.loops
                self.i.write(st, d, o, fr, node, "update")
                return [st]
            e = self.elements(mk("view", "items", other, ty="view"), st, fr, node)
            o2 = self.i.obj(st, other)
            if e is None or o2.base is not None:
                if o2.base is not None and not self.i.obj(st, d).items:
                    o = self.i.obj(st, d).copy()
                    o.items = dict(o2.items)
                    o.base = o2.base
                    o.loops = o2.loops
                    self.i.write(st, d, o, fr, node, "update")
                    return [st]
                self.i.undecide("update from unknown mapping", fr, node, st)
                return [st]
            sts = [st]
            for g, kv in e[0]:
                nxt = []
                for x in sts:
                    for y, b in self.i.fork(x, c_guard(g)):
                        if b:
                            nxt += self.setitem(d, kv.args[0], kv.args[1], y, fr, node)
                        else:
                            nxt.append(y)
                sts = self.i.merge_states(nxt, fr) if len(nxt) > 1 else nxt
            return sts
        e = self.elements(other, st, fr, node)
        if e is not None:
            sts = [st]
            for g, kv in e[0]:
                el = self.fixed_elements(kv, st)
                if g != bdd.TRUE or el is None or len(el) != 2:
                    self.i.undecide("update", fr, node, st)
                    return sts
                sts = [z for y in sts for z in self.setitem(d, el[0], el[1], y, fr, node)]
            return sts
        self.i.undecide("update", fr, node, st)
        return [st]

    def const_mapping(self, v, st):
        if v.op != "ref":
            return None
        o = self.i.obj(st, v)
        if o.kind != "dict" or o.base is not None or o.loops:
            return None
        out = {}
        for k, (g, x, s) in o.items.items():
            if g != bdd.TRUE or k.op != "const" or not isinstance(T.cval(k), str):
                return None
            out[T.cval(k)] = x
        return out

    # ------------------------------------------------------------ items
    def getitem(self, o, k, st, fr, node):
        kind = self.kind(o, st)
        if o.op == "top":
            return [(st, self.i.undecide("subscript of unknown", fr, node, st))]
        if o.op in ("class", "builtin", "extmod", "extattr"):
            return [(st, o)]          # typing subscripts
        if k.op == "sliceobj":
            return self.getslice(o, k, st, fr, node)
        if o.op == "ref":
            ob = self.i.obj(st, o)
            if ob.kind == "dict":
                if ob.cls is not None and ob.cls[0] == "defaultdict":
                    return self.defaultdict_get(o, ob, k, st, fr, node)
                return self.dict_get(o, k, st, fr, node)
            if ob.kind == "list":
                return self.index_items(ob, k, st, fr, node)
            if ob.kind == "bytearray":
                return self.index_bytes(ob.content, k, st, fr, node)
            if ob.kind == "inst" and not isinstance(ob.cls, str):
                if ob.cls.namedtuple and k.op == "const":
                    return [(st, ob.attrs[ob.cls.namedtuple[T.cval(k)]])]
                c, m = ob.cls.lookup("__getitem__")
                if m is not None:
                    return self.i.call(mk("bound", o, "__getitem__", m, ty="func"), [k], {}, st, fr, node)
        if o.op == "tuple" and k.op == "const" and isinstance(T.cval(k), int):
            try:
                return [(st, o.args[T.cval(k)])]
            except IndexError:
                self.i.raise_(st, fr, ["IndexError"], "tuple index", node)
                return []
        if o.op == "tuple" and self.kind(k, st) in ("bool",):
            out = []
            for x, b in self.i.fork(st, self.cond(k, st, fr, node)):
                out.append((x, o.args[1 if b else 0]))
            return out
        if o.op == "tuple" and self.kind(k, st) == "int":
            # split on the possible indices
            out, live = [], [st]
            for n, v in enumerate(o.args):
                nxt = []
                for x in live:
                    for y, b in self.i.fork(x, self.int_eq(k, const(n), x)):
                        if b:
                            out.append((y, v))
                        else:
                            nxt.append(y)
                live = nxt
            for x in live:
                self.i.undecide("tuple index", fr, node, x)
                self.i.raise_(x, fr, ["IndexError"], "tuple index", node)
            return out
        if kind in ("bytes", "bytearray", "memoryview"):
            return self.index_bytes(o, k, st, fr, node)
        if kind == "str":
            return self.index_str(o, k, st, fr, node)
        if kind == "range" and k.op == "const":
            e = self.elements(o, st, fr, node)
            if e is not None:
                try:
                    return [(st, e[0][T.cval(k)][1])]
                except IndexError:
                    self.i.raise_(st, fr, ["IndexError"], "range index", node)
                    return []
        if kind in ("int", "none", "bool", "float"):
            return self.typeerror(st, fr, node, "not subscriptable")
        if kind == "any":
            c = st.copy()
            self.i.raise_(c, fr, ["TypeError"], "subscript", node)
            return [(st, mk("sub", o, k, ty="any"))]
        return [(st, self.i.undecide("subscript of %s" % kind, fr, node, st))]

    def int_eq(self, a, b, st):
        if a.op == "bits":
            x, y = self.to_bits(a, st), self.to_bits(b, st)
            n = max(len(x), len(y))
            x += [bdd.FALSE] * (n - len(x))
            y += [bdd.FALSE] * (n - len(y))
            return c_guard(bdd.all_([bdd.not_(bdd.xor_(p, q)) for p, q in zip(x, y)]))
        return c_eq0(st.norm(T.sub(a, b)))

    def defaultdict_get(self, d, ob, k, st, fr, node):
        out = []
        for x, b in self.i.fork(st, self.haskey(d, k, st)):
            if b:
                out += self.i.force(self.dict_value(d, k, x, fr, node), x, fr, node)
            else:
                for y, v in self.i.call(ob.cls[1], [], {}, x, fr, node):
                    for z in self.setitem(d, k, v, y, fr, node):
                        out.append((z, v))
        return out

    def index_items(self, ob, k, st, fr, node):
        if ob.pre is None and all(g == bdd.TRUE for g, _ in ob.items):
            if k.op == "const" and isinstance(T.cval(k), int):
                try:
                    return [(st, ob.items[T.cval(k)][1])]
                except IndexError:
                    self.i.raise_(st, fr, ["IndexError"], "list index", node)
                    return []
            return self.getitem(tup([v for _, v in ob.items]), k, st, fr, node)
        if ob.pre is not None and k.op == "const" and isinstance(T.cval(k), int) and T.cval(k) < 0 \
                and -T.cval(k) <= len(ob.items) and all(g == bdd.TRUE for g, _ in ob.items):
            return [(st, ob.items[T.cval(k)][1])]
        return [(st, self.i.undecide("list index", fr, node, st))]

    def index_bytes(self, x, k, st, fr, node):
        n = st.norm(T.length(x))
        k = st.norm(k)
        if k.op == "const" and n.op == "const":
            i = T.cval(k)
            if not -T.cval(n) <= i < T.cval(n):
                self.i.raise_(st, fr, ["IndexError"], "index", node)
                return []
            return [(st, self.byte_at(x, i % T.cval(n) if T.cval(n) else 0, st))]
        if k.ty != "int":
            return self.typeerror(st, fr, node, "index")
        if k.op == "const" and T.cval(k) < 0:
            k2 = T.add(n, k)
        else:
            k2 = k
        out = []
        for y, b in self.i.fork(st, c_lt(k2, n)):
            if not b:
                self.i.raise_(y, fr, ["IndexError"], "index", node)
                continue
            for z, p in self.i.fork(y, c_le(const(0), k2)):
                if p:
                    out.append((z, mk("byteat", T.strip_copy(x), k2, ty="int")))
                else:
                    if k.op == "const":
                        self.i.raise_(z, fr, ["IndexError"], "index", node)
                    else:
                        for w, q in self.i.fork(z, c_le(const(0), T.add(n, k))):
                            if q:
                                out.append((w, mk("byteat", T.strip_copy(x), w.norm(T.add(n, k)), ty="int")))
                            else:
                                self.i.raise_(w, fr, ["IndexError"], "index", node)
        return out

    def index_str(self, x, k, st, fr, node):
        from .interp import make_bitstr
        k = st.norm(k)
        if x.op == "const" and k.op == "const":
            try:
                return [(st, const(T.cval(x)[T.cval(k)]))]
            except IndexError:
                self.i.raise_(st, fr, ["IndexError"], "index", node)
                return []
        if x.op == "bitstr" and k.op == "const" and -len(x.args) <= T.cval(k) < len(x.args):
            return [(st, make_bitstr([x.args[T.cval(k)]]))]
        if k.ty != "int":
            return self.typeerror(st, fr, node, "index")
        n = T.length(x)
        k2 = T.add(n, k) if k.op == "const" and T.cval(k) < 0 else k
        out = []
        for y, b in self.i.fork(st, c_lt(k2, n)):
            if not b:
                self.i.raise_(y, fr, ["IndexError"], "index", node)
                continue
            for z, p in self.i.fork(y, c_le(const(0), k2)):
                if p:
                    out.append((z, self.slice_term(x, k2, T.add(k2, const(1)), z)))
                elif k.op == "const":
                    self.i.raise_(z, fr, ["IndexError"], "index", node)
                else:
                    for w, q in self.i.fork(z, c_le(const(0), T.add(n, k))):
                        if q:
                            out.append((w, self.slice_term(x, T.add(n, k), T.add(T.add(n, k), const(1)), w)))
                        else:
                            self.i.raise_(w, fr, ["IndexError"], "index", node)
        return out

    def getslice(self, o, k, st, fr, node):
        lo, hi, step = k.args
        x = self.content(o, st)
        kind = self.kind(o, st)
        for v in (lo, hi, step):
            if v.ty not in ("int", "none", "bool"):
                if v.ty == "any" or v.op == "top":
                    c = st.copy()
                    self.i.raise_(c, fr, ["TypeError"], "slice", node)
                else:
                    return self.typeerror(st, fr, node, "slice")
        if o.op == "tuple" or (o.op == "ref" and kind in ("list", "iter")):
            if all(v.op == "const" for v in (lo, hi, step)):
                sl = slice(T.cval(lo), T.cval(hi), T.cval(step))
                if o.op == "tuple":
                    return [(st, tup(o.args[sl]))]
                ob = self.i.obj(st, o)
                if ob.pre is None and all(g == bdd.TRUE for g, _ in ob.items):
                    return [(st, self.i.alloc(st, fr, node, ListO(ob.items[sl], None, ob.unordered)))]
                if ob.pre is None and sl == slice(None, None, None):
                    return [(st, self.i.alloc(st, fr, node, ob.copy()))]
            return [(st, self.i.undecide("slice of sequence", fr, node, st))]
        if kind not in ("str", "bytes", "bytearray", "memoryview"):
            if kind == "any":
                c = st.copy()
                self.i.raise_(c, fr, ["TypeError"], "slice", node)
                return [(st, mk("sub", o, k, ty="any"))]
            if kind in ("int", "none", "dict", "set", "bool", "float"):
                return self.typeerror(st, fr, node, "slice")
            return [(st, self.i.undecide("slice of %s" % kind, fr, node, st))]
        if kind == "bytearray" and o.op == "ref":
            pass
        if x.op == "const" and all(v.op == "const" for v in (lo, hi, step)):
            return [(st, const(T.cval(x)[slice(T.cval(lo), T.cval(hi), T.cval(step))]))]
        if not (T.is_const(step, None) or T.is_const(step, 1)):
            e = self.elements(x, st, fr, node)
            if x.op == "bitstr" and all(v.op == "const" for v in (lo, hi, step)):
                from .interp import make_bitstr
                return [(st, make_bitstr(x.args[slice(T.cval(lo), T.cval(hi), T.cval(step))]))]
            return [(st, mk("stepslice", x, lo, hi, step, ty=x.ty))]
        if x.op in ("bytesof", "bitstr") and all(v.op == "const" for v in (lo, hi)):
            from .interp import make_bitstr, make_bytesof
            a = x.args[slice(T.cval(lo), T.cval(hi))]
            return [(st, make_bitstr(list(a)) if x.op == "bitstr" else make_bytesof(list(a)))]
        return self.slices(x, lo, hi, st, fr, node)

    def slices(self, x, lo, hi, st, fr, node):
        lo = const(0) if T.is_const(lo, None) else st.norm(lo)
        hi = None if T.is_const(hi, None) else st.norm(hi)
        n = T.length(x)
        res = []

        def bound(v, y):
            """-> [(state, non-negative bound or None when unknown)]"""
            d = y.decide(c_le(const(0), v))
            if d is True:
                return [(y, v)]
            if v.op == "const":
                out = []
                for z, b in self.i.fork(y, c_le(T.neg(v), n)):
                    out.append((z, T.add(n, v) if b else const(0)))
                return out
            if d is False:
                return [(y, None)]
            return [(y, None)]
        for y, a in bound(lo, st):
            for z, b in ([(y, "end")] if hi is None else bound(hi, y)):
                if a is None or b is None:
                    res.append((z, mk("rawslice", x, lo, hi if hi is not None else T.NONE, ty=x.ty)))
                    continue
                b2 = None if b == "end" else b
                res.append((z, self.slice_term(x, a, b2, z)))
        return res

    def slice_term(self, x, a, b, st):
        """x[a:b] with 0 <= a, 0 <= b"""
        a = st.norm(a)
        b = None if b is None else st.norm(b)
        if b is not None:
            if not st.prove_le0(T.sub(a, b)):
                if st.prove_le0(T.sub(b, a)):
                    return const(b"" if T.bytes_like(x.ty) else "") if x.ty != "bytearray" else T.EMPTY_B
                return mk("rawslice", x, a, b, ty=x.ty)
            if T.is_const(a, 0) and st.prove_eq(b, T.length(x)) and x.ty != "bytearray":
                return x
        elif T.is_const(a, 0) and x.ty == "bytearray":
            return T.mk_slice(x, a, None)
        core = T.strip_copy(x)
        if x.op == "concat":
            # inside one part?
            off = const(0)
            for p in x.args:
                n = T.length(p)
                end = T.add(off, n)
                if st.prove_le0(T.sub(off, a)) and (
                        p is x.args[-1] or (b is not None and st.prove_le0(T.sub(b, end)))):
                    return self.slice_term(p, T.sub(a, off), None if b is None else T.sub(b, off), st)
                off = end
            off = const(0)
            # whole parts
            lo = hi = None
            offs = [const(0)]
            for p in x.args:
                offs.append(T.add(offs[-1], T.length(p)))
            for i, o in enumerate(offs):
                if lo is None and st.prove_eq(o, a):
                    lo = i
                if b is not None and st.prove_eq(o, b):
                    hi = i
            if b is None:
                hi = len(x.args)
            if lo is not None and hi is not None and lo <= hi:
                return T.concat(list(x.args[lo:hi]), x.ty)
        if x.op == "slice" and x.args[2] is not None:
            base, i, j = x.args
            if b is None:
                if st.prove_le0(T.sub(T.add(i, a), j)):
                    return T.mk_slice(base, T.add(i, a), j)
            elif st.prove_le0(T.sub(T.add(i, b), j)):
                return T.mk_slice(base, T.add(i, a), T.add(i, b))
        if x.op == "tobytes":
            return T.tobytes(self.slice_term(x.args[0], a, b, st))
        return T.mk_slice(x, a, b)

    def which_key(self, d, k, st, fr, node, most=8):
        """The same key may already be in a small table under another name: one state per entry it
        can be -> [(state, key)]"""
        k = st.norm(k)
        ob = self.i.obj(st, d)
        if k.ty not in ("str", "int", "bytes", "tuple") or k in ob.items or ob.loops or ob.base is not None \
                or (k.op != "const" and self.key_domain(k, st) is not None):
            return [(st, k)]
        may = [x for x, (g, v, s) in ob.items.items() if g != bdd.FALSE and x is not k
               and not (x.op == "const" and k.op == "const") and x.ty == k.ty and self.may_equal(x, k, st)]
        if not may or len(may) > most or any(x.op != "const" and self.key_domain(x, st) is not None for x in may):
            return [(st, k)]
        out, live = [], [st]
        for x in may:
            nxt = []
            for y in live:
                for z, c in self.eq(k, x, y, fr, node):
                    for w, b in self.i.fork(z, c):
                        if b:
                            out.append((w, x))
                        else:
                            if k.ty == "tuple":
                                w.facts[c_eq(k, x)] = False
                            nxt.append(w)
            live = nxt
        return out + [(x, k) for x in live]

    def symbolic_keys(self, d, k, st):
        """Entries under keys that are not constants, in a table of this call"""
        ob = self.i.obj(st, d)
        k = st.norm(k)
        return not (ob.loops or ob.base is not None or k in ob.items) and any(
            x.op != "const" and g != bdd.FALSE and x.ty == k.ty and self.key_domain(x, st) is None
            for x, (g, v, s) in ob.items.items())

    def setitem(self, o, k, v, st, fr, node):
        if o.op == "ref":
            ob = self.i.obj(st, o)
            site = fr.where(node)
            if ob.kind == "dict":
                ks = self.which_key(o, k, st, fr, node)
                if len(ks) != 1 or ks[0][0] is not st:
                    out = []
                    for x, kk in ks:
                        out += self.setitem(o, kk, v, x, fr, node) if kk is not k else self.store(o, kk, v, x, fr, node)
                    return out
        return self.store(o, k, v, st, fr, node)

    def store(self, o, k, v, st, fr, node):
        if o.op == "ref":
            ob = self.i.obj(st, o)
            site = fr.where(node)
            if ob.kind == "dict":
                k = st.norm(k)
                n = ob.copy()
                # a store through an unknown key may overwrite other entries
                if k.op != "const" and k not in n.items:
                    for other in list(n.items):
                        if other is not k and n.items[other][0] != bdd.FALSE and self.may_equal(other, k, st):
                            dom = self.key_domain(k, st)
                            if dom is not None and (other.op != "const" or not any(c is other for _, c in dom)):
                                if other.op == "const":
                                    continue
                                if other.op != "const" and self.key_domain(other, st) is not None:
                                    continue
                            self.i.undecide("store through unknown key", fr, node, st)
                elif k.op == "const":
                    for other in list(n.items):
                        if other.op != "const" and self.may_equal(other, k, st):
                            self.i.undecide("store through unknown key", fr, node, st)
                n.items[k] = (bdd.TRUE, v, site)
                self.i.write(st, o, n, fr, node, "[]=", k)
                return [st]
            if ob.kind == "list":
                if k.op == "const" and isinstance(T.cval(k), int) and ob.pre is None \
                        and all(g == bdd.TRUE for g, _ in ob.items):
                    it = list(ob.items)
                    try:
                        it[T.cval(k)] = (bdd.TRUE, v)
                    except IndexError:
                        self.i.raise_(st, fr, ["IndexError"], "assignment index", node)
                        return []
                    self.i.write(st, o, ListO(it, None, ob.unordered), fr, node, "[]=")
                    return [st]
                self.i.write(st, o, ListO((), T.top("list"), True), fr, node, "[]=")
                self.i.undecide("list store", fr, node, st)
                return [st]
            if ob.kind == "bytearray" and k.op == "sliceobj":
                r = self.splice(o, ob, k, v, st, fr, node)
                if r is not None:
                    return r
            if ob.kind == "bytearray":
                from .interp import byte_elems, make_bytesof
                e = byte_elems(ob.content)
                k = st.norm(k)
                if e is None:
                    n = st.norm(T.length(ob.content))
                    if n.op == "const" and T.cval(n) <= 64:
                        e = [self.byte_at(ob.content, j, st) for j in range(T.cval(n))]
                if e is not None and k.op == "const" and isinstance(T.cval(k), int):
                    if not -len(e) <= T.cval(k) < len(e):
                        self.i.raise_(st, fr, ["IndexError"], "bytearray index", node)
                        return []
                    e[T.cval(k)] = v
                    b = self.to_bits(v, st)
                    if b is None:
                        self.i.undecide("byte value", fr, node, st)
                    elif len(b) > 8:
                        hi = bdd.any_(b[8:])
                        if bdd.and_(hi, st.gpc) != bdd.FALSE:
                            z = st.copy()
                            z.gpc = bdd.and_(z.gpc, hi)
                            self.i.raise_(z, fr, ["ValueError"], "byte must be in range(0, 256)", node)
                            st.gpc = bdd.and_(st.gpc, bdd.not_(hi))
                            if st.gpc == bdd.FALSE:
                                return []
                    self.i.write(st, o, BArrO(make_bytesof(e)), fr, node, "[]=")
                    return [st]
                if e is not None and k.op == "bits":
                    out = []
                    live = [st]
                    for n in range(len(e)):
                        nxt = []
                        for x in live:
                            for y, b in self.i.fork(x, self.int_eq(k, const(n), x)):
                                if b:
                                    out += self.setitem(o, const(n), v, y, fr, node)
                                else:
                                    nxt.append(y)
                        live = nxt
                    for x in live:
                        self.i.raise_(x, fr, ["IndexError"], "bytearray index", node)
                    return out
                self.i.write(st, o, BArrO(T.top("bytearray store", "bytes")), fr, node, "[]=")
                self.i.undecide("bytearray store", fr, node, st)
                return [st]
            if ob.kind == "inst" and not isinstance(ob.cls, str):
                c, m = ob.cls.lookup("__setitem__")
                if m is not None:
                    return [x for x, _ in self.i.call(mk("bound", o, "__setitem__", m, ty="func"), [k, v], {}, st, fr, node)]
        if self.kind(o, st) == "bytearray":
            st.event("arg-write", ("arg", "s"), "[]=", None, fr.where(node))
            return [st]
        if self.kind(o, st) in ("str", "bytes", "int", "tuple", "none", "bool"):
            return self.typeerror(st, fr, node, "item assignment")
        self.i.undecide("store into %s" % self.kind(o, st), fr, node, st)
        return [st]

    def splice(self, o, ob, k, v, st, fr, node):
        """b[i:j] = v for a bytearray -> states, None when it is not understood"""
        lo, hi, step = [st.norm(x) for x in k.args]
        if not (T.is_const(step, None) or T.is_const(step, 1)):
            return None
        if self.kind(v, st) not in ("bytes", "bytearray", "memoryview"):
            return None
        new = T.tobytes(self.content(v, st))
        ints = [x for x in (lo, hi) if not T.is_const(x, None)]
        if any(x.ty != "int" for x in ints):
            return None
        zero = const(0)
        if any(st.decide(c_le(zero, x)) is not True for x in ints):
            return None
        if len(ints) == 2 and st.decide(c_le(lo, hi)) is not True:
            return None
        c = T.tobytes(ob.content)
        none = T.NONE
        out = []
        heads = [(st, T.EMPTY_B)] if T.is_const(lo, None) else self.getslice(c, mk("sliceobj", none, lo, none, ty="slice"), st, fr, node)
        for x, h in heads:
            tails = [(x, T.EMPTY_B)] if T.is_const(hi, None) else self.getslice(c, mk("sliceobj", hi, none, none, ty="slice"), x, fr, node)
            for y, t in tails:
                self.i.write(y, o, BArrO(y.norm(T.concat([h, new, t], "bytes"))), fr, node, "[:]=")
                out.append(y)
        return out

    def delitem(self, o, k, st, fr, node):
        if o.op == "ref":
            ob = self.i.obj(st, o)
            if ob.kind == "dict":
                return [x for x, _ in self.dict_pop(o, k, None, st, fr, node)]
            if ob.kind == "bytearray" and k.op == "sliceobj":
                r = self.splice(o, ob, k, T.EMPTY_B, st, fr, node)
                if r is not None:
                    return r
            if ob.kind == "bytearray":
                self.i.write(st, o, BArrO(T.top("del", "bytes")), fr, node, "del")
                self.i.undecide("del bytearray item", fr, node, st)
                return [st]
            if ob.kind == "list" and k.op == "const" and ob.pre is None and all(g == bdd.TRUE for g, _ in ob.items):
                it = list(ob.items)
                try:
                    del it[T.cval(k)]
                except IndexError:
                    self.i.raise_(st, fr, ["IndexError"], "del", node)
                    return []
                self.i.write(st, o, ListO(it, None, ob.unordered), fr, node, "del")
                return [st]
        if self.kind(o, st) == "bytearray":
            st.event("arg-write", ("arg", "s"), "del", None, fr.where(node))
        self.i.undecide("del item", fr, node, st)
        return [st]

    def dict_pop(self, d, k, default, st, fr, node):
        out = []
        for x, kk in self.which_key(d, k, st, fr, node):
            out += self.dict_remove(d, kk, default, x, fr, node)
        return out

    def dict_remove(self, d, k, default, st, fr, node):
        k = st.norm(k)
        out = []
        c = self.haskey(d, k, st)
        g = self.i.as_guard(c)
        ob = self.i.obj(st, d)
        if default is not None and g is not None and g not in (bdd.TRUE, bdd.FALSE) and k.op == "const":
            # removed either way; the result is one or the other
            v = mk("ite", g, self.dict_peek(d, k, st) or T.top("pop"), default, ty="any")
            n = ob.copy()
            n.items[k] = (bdd.FALSE, T.NONE, None)
            self.i.write(st, d, n, fr, node, "pop", k)
            return [(st, v)]
        for x, b in self.i.fork(st, c):
            if not b:
                if default is None:
                    self.i.raise_(x, fr, ["KeyError"], "pop", node, (k,))
                else:
                    out.append((x, default))
                continue
            v = self.dict_value(d, k, x, fr, node)
            n = self.i.obj(x, d).copy()
            if n.base is None and k.op != "const" and k not in n.items and self.key_domain(k, x) is None:
                self.i.undecide("pop of unknown key", fr, node, x)
            n.items[k] = (bdd.FALSE, T.NONE, None)
            if n.base is None and k.op == "const":
                del n.items[k]
            self.i.write(x, d, n, fr, node, "pop", k)
            out += self.i.force(v, x, fr, node)
        return out

    # ------------------------------------------------------------ sets
    def set_add(self, st, s, v, fr, node):
        o = self.i.obj(st, s).copy()
        if v.op == "const":
            o.items[v] = bdd.TRUE
        elif v.op == "top":
            o.unknown = "unknown element"
        elif v.op == "ref" and self.kind(v, st) in ("list", "dict", "set", "bytearray"):
            self.i.raise_(st.copy(), fr, ["TypeError"], "unhashable", node)
            o.unknown = "unhashable"
        else:
            o.syms = o.syms + ((bdd.TRUE, st.norm(v)),)
        self.i.write(st, s, o, fr, node, "add")

    def as_set(self, v, st, fr, node):
        """-> SetO (contents of any iterable) or None"""
        if v.op == "ref":
            o = self.i.obj(st, v)
            if o.kind == "set":
                return o
        e = self.elements(v, st, fr, node)
        if e is None:
            return None
        s = SetO()
        for g, x in e[0]:
            if x.op == "const":
                s.items[x] = bdd.or_(s.items.get(x, bdd.FALSE), g)
            elif x.op == "top":
                s.unknown = "unknown element"
            else:
                s.syms = s.syms + ((g, st.norm(x)),)
        return s

    def make_set(self, v, st, fr, node, frozen=False):
        if v is None:
            return [(st, self.i.alloc(st, fr, node, SetO(frozen=frozen), "set"))]
        s = self.as_set(v, st, fr, node)
        if s is not None:
            s = s.copy()
            s.frozen = frozen
            return [(st, self.i.alloc(st, fr, node, s, "set"))]
        out = []
        for x, l in self.to_list(v, st, fr, node):
            s = self.as_set(l, x, fr, node)
            if s is None:
                s = SetO(unknown="contents")
                self.i.undecide("set of unknown", fr, node, x)
            s = s.copy()
            s.frozen = frozen
            out.append((x, self.i.alloc(x, fr, node, s, "set")))
        return out

    def set_calc(self, a, bs, m, st):
        """-> SetO or None"""
        r = a.copy()
        r.frozen = a.frozen
        for b in bs:
            if r.unknown or b.unknown:
                r.unknown = r.unknown or b.unknown
                continue
            if m == "union":
                items = dict(r.items)
                for k, g in b.items.items():
                    items[k] = bdd.or_(items.get(k, bdd.FALSE), g)
                r = SetO(items, r.syms + tuple(x for x in b.syms if x not in r.syms), None, r.frozen)
            elif m in ("intersection", "difference"):
                items = {}
                keys = list(r.items)
                syms = ()
                if r.syms:
                    live = [(g, t) for g, t in r.syms if bdd.and_(g, st.gpc) != bdd.FALSE]
                    ints = [x for x in live if x[1].ty == "int"]
                    base = dict(r.items)
                    if ints:
                        for n in self.i.scenario.int_universe:
                            c = const(n)
                            e = bdd.any_([bdd.and_(g, bdd.var(("eqn", t, n))) for g, t in ints])
                            base[c] = bdd.or_(base.get(c, bdd.FALSE), e)
                    if m == "difference":
                        syms = tuple(live)      # an element outside the universe stays
                        if b.syms:
                            return None
                        src = r.items
                    else:
                        src = base
                else:
                    src = r.items
                for k, g in src.items():
                    h = b.items.get(k, bdd.FALSE)
                    if b.syms and k.ty == "int":
                        for q, t in b.syms:
                            h = bdd.or_(h, bdd.and_(q, bdd.var(("eqn", t, T.cval(k)))))
                    items[k] = bdd.and_(g, h) if m == "intersection" else bdd.and_(g, bdd.not_(h))
                if m == "difference" and r.syms:
                    # drop symbolic elements known to lie in b only through their universe value
                    pass
                r = SetO(items, syms, None, r.frozen)
            elif m == "symmetric_difference":
                if r.syms or b.syms:
                    return None
                items = dict(r.items)
                for k, g in b.items.items():
                    items[k] = bdd.xor_(items.get(k, bdd.FALSE), g)
                r = SetO(items, (), None, r.frozen)
        r.items = {k: g for k, g in r.items.items() if g != bdd.FALSE}
        return r

    def set_op(self, a, others, m, st, fr, node, inplace=False):
        oa = self.as_set(a, st, fr, node)
        bs = []
        cur = [(st, [])]
        for v in others:
            nxt = []
            for x, acc in cur:
                s = self.as_set(v, x, fr, node)
                if s is None:
                    for y, r in self.make_set(v, x, fr, node):
                        nxt.append((y, acc + [self.i.obj(y, r)]))
                else:
                    nxt.append((x, acc + [s]))
            cur = nxt
        out = []
        for x, bs in cur:
            oa = self.as_set(a, x, fr, node)
            r = self.set_calc(oa, bs, m, x)
            if r is None:
                r = SetO(unknown=m)
                self.i.undecide("set " + m, fr, node, x)
            if inplace:
                self.i.write(x, a, r, fr, node, m)
                out.append((x, T.NONE))
            else:
                r = SetO(r.items, r.syms, r.unknown, oa.frozen)
                out.append((x, self.i.alloc(x, fr, node, r, "set")))
        return out

    def inrange(self, t, lo, hi, st):
        """Guard: lo <= t < hi"""
        if t.ty == "int":
            a, b = st.decide(c_le(const(lo), t)), st.decide(c_lt(t, const(hi)))
            if a is False or b is False:
                return bdd.FALSE
            if a and b:
                return bdd.TRUE
        return bdd.var(("inrange", t, lo, hi))

    def issubset(self, a, b, st, fr, node):
        oa = self.as_set(a, st, fr, node)
        if b.op == "range" and all(z.op == "const" for z in b.args):
            r = range(*[T.cval(z) for z in b.args])
            if oa is None or oa.unknown:
                return [(st, mk("cmp", "subset", a, T.top("set"), ty="bool"))]
            g = bdd.TRUE
            for k, h in oa.items.items():
                if not (isinstance(T.cval(k), int) and T.cval(k) in r):
                    g = bdd.and_(g, bdd.not_(h))
            for h, t in oa.syms:
                g = bdd.and_(g, bdd.or_(bdd.not_(h), self.inrange(t, r.start, r.stop, st)))
            return [(st, c_guard(g))]
        ob = self.as_set(b, st, fr, node)
        if oa is None or ob is None or oa.unknown or ob.unknown or ob.syms:
            self.i.undecide("issubset", fr, node, st)
            return [(st, mk("cmp", "subset", a, T.top("set"), ty="bool"))]
        g = bdd.TRUE
        for k, h in oa.items.items():
            g = bdd.and_(g, bdd.or_(bdd.not_(h), ob.items.get(k, bdd.FALSE)))
        for h, t in oa.syms:
            inb = bdd.any_([bdd.and_(q, bdd.var(("eqn", t, T.cval(k)))) for k, q in ob.items.items()
                            if isinstance(T.cval(k), int)])
            ks = sorted(T.cval(k) for k in ob.items if isinstance(T.cval(k), int))
            if ks and ks == list(range(ks[0], ks[-1] + 1)):
                inb = self.inrange(t, ks[0], ks[-1] + 1, st)
            g = bdd.and_(g, bdd.or_(bdd.not_(h), inb))
        return [(st, c_guard(g))]

    def slen(self, x, st):
        """Length of a text, with the length of y[i:] as len(y) - i where i is inside y"""
        n = st.norm(T.length(x))
        y = T.strip_copy(x)
        if y.op == "slice" and y.args[2] is None and st.prove_le0(T.sub(y.args[1], T.length(y.args[0]))):
            n = st.norm(T.sub(T.length(y.args[0]), y.args[1]))
        return n

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, fr, node):
        if o.op == "top":
            return [(st, self.i.undecide("attribute of unknown", fr, node, st))]
        if o.op == "module":
            env = st.heap[o.args[0].env].vars
            if name in env:
                return [(st, env[name])]
            if name == "__name__":
                return [(st, const(o.args[0].name))]
            if self.i.find_module(o.args[0].name + "." + name):
                return [(st, self.import_(o.args[0].name + "." + name, st, fr, node))]
            self.i.raise_(st, fr, ["AttributeError"], name, node)
            return []
        if o.op == "extmod":
            return [(st, self.extattr(o.args[0], name, st, fr, node))]
        if o.op == "extattr":
            return [(st, mk("extattr", o.args[0] + "." + name, ty="any"))]
        if o.op == "ref":
            ob = self.i.obj(st, o)
            if ob.kind == "inst":
                return self.inst_attr(o, ob, name, st, fr, node)
            if name == "__class__":
                return [(st, builtin_term(self.typename(o, st)))]
            return [(st, mk("bound", o, name, ty="func"))]
        if o.op == "class":
            ci = o.args[0]
            over = st.heap.get(("static", "classattrs", ci.name))
            if over is not None and name in over.attrs:
                return [(st, over.attrs[name])]
            c, v = ci.lookup(name)
            if v is not None:
                return self.bind_class_attr(v, o, ci, st, fr, node)
            if name == "__name__" or name == "__qualname__":
                return [(st, const(ci.name))]
            if name == "__mro__":
                return [(st, T.top("mro"))]
            if name == "__init__" and ci.exc_base():
                return [(st, mk("unbound", ci.exc_base(), "__init__", ty="func"))]
            if name in ("__reduce__", "__str__", "__repr__", "__eq__", "__hash__", "__new__"):
                return [(st, mk("unbound", ci.exc_base() or "object", name, ty="func"))]
            if ci.is_enum and name == "__members__":
                return [(st, self.i.undecide("enum members", fr, node, st))]
            self.i.raise_(st, fr, ["AttributeError"], name, node)
            return []
        if o.op == "builtin":
            if name == "__name__":
                return [(st, const(o.args[0]))]
            return [(st, mk("unbound", o.args[0], name, ty="func"))]
        if o.op == "func":
            cell = st.heap.get(("static", "funcattrs", o.args[0].qualname))
            if cell is not None and name in cell.attrs:
                return [(st, cell.attrs[name])]
            if name in ("__name__", "__qualname__"):
                w = st.heap.get(("static", "wraps", o.args[0].qualname))
                if w is not None:
                    w = w.attrs.get("of")
                    return [(st, const(w.args[0].name) if w is not None and w.op == "func" else self.i.undecide("name of a wrapper", fr, node, st))]
                return [(st, const(o.args[0].name))]
            if name == "__doc__":
                return [(st, T.NONE)]
            self.i.raise_(st, fr, ["AttributeError"], name, node)
            return []
        if o.op == "exc":
            if name == "args":
                return [(st, mk("excargs", o, ty="any"))]
            if name in ("__class__",):
                return [(st, mk("sym", "class of exception", ty="class"))]
            if name == "__name__":
                return [(st, mk("sym", "exception class name", ty="str"))]
            if name in ("with_traceback", "__reduce__"):
                return [(st, mk("bound", o, name, ty="func"))]
            return [(st, mk("excattr", o, name, ty="any"))]
        if o.op == "super":
            return self.super_attr(o, name, st, fr, node)
        k = self.kind(o, st)
        if name == "__class__":
            if k == "any":
                return [(st, mk("classof", o, ty="class"))]
            return [(st, builtin_term(self.typename(o, st)))]
        if o.op == "classof" and name in ("__name__", "__qualname__"):
            return [(st, mk("typename", o.args[0], ty="str"))]
        if o.op == "bound" and name == "__name__":
            return [(st, const(o.args[1]))]
        if k in ("str", "bytes", "bytearray", "memoryview", "int", "bool", "tuple", "none", "range", "view",
                 "float", "stream", "slice", "list", "dict", "set", "frozenset"):
            if getattr(self, "mixins", False) and name in ("value", "name", "_value_", "_name_"):
                return [(st, o if "value" in name else self.i.undecide("name of an enum member", fr, node, st))]
            pyt = {"list": list, "dict": dict, "set": set, "frozenset": frozenset, "str": str, "bytes": bytes, "bytearray": bytearray, "int": int, "bool": bool, "tuple": tuple,
                   "float": float, "memoryview": memoryview, "none": type(None), "range": range}.get(k)
            if pyt is not None and not hasattr(pyt, name):
                self.i.raise_(st, fr, ["AttributeError"], name, node)
                return []
            if k == "range" and name in ("start", "stop", "step"):
                return [(st, o.args[("start", "stop", "step").index(name)])]
            return [(st, mk("bound", o, name, ty="func"))]
        if k == "any":
            return [(st, mk("bound", o, name, ty="func"))]
        return [(st, self.i.undecide("attribute %s of %s" % (name, k), fr, node, st))]

    def super_attr(self, o, name, st, fr, node):
        ci, self_v = o.args
        ob = self.i.obj(st, self_v) if self_v.op == "ref" else None
        if ob is not None and ob.kind == "inst" and not isinstance(ob.cls, str):
            mro = ob.cls.mro()
        elif self_v.op == "class":
            mro = self_v.args[0].mro()
        else:
            mro = ci.mro()
        for c in (mro[mro.index(ci) + 1:] if ci in mro else mro[1:]):
            if isinstance(c, str):
                break
            if name in c.attrs:
                v = c.attrs[name]
                if v.op == "prop":
                    return self.i.call(v.args[0], [self_v], {}, st, fr, node)
                if v.op == "func":
                    return [(st, mk("bound", o, name, ty="func"))]
                if v.op == "classmeth":
                    own = self_v if self_v.op == "class" or ob is None or isinstance(ob.cls, str) else ob.cls.term
                    return [(st, mk("bound", own, v.args[0].args[0].name, v.args[0], ty="func"))]
                if v.op == "staticmeth":
                    return [(st, v.args[0])]
                over = st.heap.get(("static", "classattrs", c.name))
                return [(st, over.attrs.get(name, v) if over is not None else v)]
        return [(st, mk("bound", o, name, ty="func"))]

    def bind_class_attr(self, v, o, ci, st, fr, node):
        if v.op == "classmeth":
            return [(st, mk("bound", o, v.args[0].args[0].name, v.args[0], ty="func"))]
        if v.op == "staticmeth":
            return [(st, v.args[0])]
        return [(st, v)]

    def inst_attr(self, o, ob, name, st, fr, node):
        if isinstance(ob.cls, str):
            if name == "__class__":
                return [(st, builtin_term(ob.cls))]
            if name in ob.attrs:
                return [(st, ob.attrs[name])]
            return [(st, mk("bound", o, name, ty="func"))]
        c, v = ob.cls.lookup(name)
        if v is not None and v.op == "prop":
            return self.i.call(v.args[0], [o], {}, st, fr, node)
        if name in ob.attrs:
            return [(st, ob.attrs[name])]
        if name == "__class__":
            return [(st, ob.cls.term)]
        if name == "__dict__":
            d = DictO(cls=("attributes of", o))
            for k, x in ob.attrs.items():
                if not k.startswith("#") and k not in ("args",):
                    d.items[const(k)] = (bdd.TRUE, x, None)
            return [(st, self.i.alloc(st, fr, node, d, "__dict__"))]
        if v is not None:
            if v.op == "func":
                return [(st, mk("bound", o, name, v, ty="func"))]
            if v.op == "classmeth":
                return [(st, mk("bound", ob.cls.term, name, v.args[0], ty="func"))]
            if v.op == "staticmeth":
                return [(st, v.args[0])]
            over = st.heap.get(("static", "classattrs", c.name))
            if over is not None and name in over.attrs:
                return [(st, over.attrs[name])]
            return [(st, v)]
        if ob.cls.exc_base() or name in ("__reduce__", "__reduce_ex__", "__str__", "__repr__", "__init__"):
            if name in ("with_traceback", "add_note", "__reduce__", "__reduce_ex__", "__str__", "__repr__",
                        "__init__", "__setstate__"):
                return [(st, mk("bound", o, name, ty="func"))]
            if name == "__cause__":
                return [(st, ob.attrs.get("#cause", T.NONE))]
            if name in ("__context__", "__traceback__"):
                return [(st, self.i.undecide(name, fr, node, st))]
        c, m = ob.cls.lookup("__getattr__")
        if m is not None:
            return self.i.call(mk("bound", o, "__getattr__", m, ty="func"), [const(name)], {}, st, fr, node)
        if ob.cls.namedtuple and name in ("_asdict", "_replace", "count", "index"):
            return [(st, mk("bound", o, name, ty="func"))]
        self.i.raise_(st, fr, ["AttributeError"], name, node)
        return []

    def setattr(self, o, name, v, st, fr, node):
        if o.op == "ref":
            ob = self.i.obj(st, o)
            if ob.kind == "inst":
                if not isinstance(ob.cls, str):
                    c, p = ob.cls.lookup(name)
                    if p is not None and p.op == "prop":
                        if len(p.args) > 1:
                            return [x for x, _ in self.i.call(p.args[1], [o, v], {}, st, fr, node)]
                        self.i.raise_(st, fr, ["AttributeError"], name, node)
                        return []
                    c, m = ob.cls.lookup("__setattr__")
                    if m is not None:
                        return [x for x, _ in self.i.call(mk("bound", o, "__setattr__", m, ty="func"),
                                                          [const(name), v], {}, st, fr, node)]
                    if ob.cls.namedtuple or getattr(ob.cls, "frozen", False) and "#init" not in ob.attrs:
                        self.i.raise_(st, fr, ["AttributeError"], name, node)
                        return []
                n = ob.copy()
                n.attrs[name] = v
                self.i.write(st, o, n, fr, node, "." + name)
                return [st]
            self.i.raise_(st, fr, ["AttributeError"], name, node)
            return []
        if o.op == "class":
            ci = o.args[0]
            if self.i.importing:
                ci.attrs[name] = v
            else:
                a = ("static", "classattrs", ci.name)
                st.event("static-write", a, name, fr.where(node))
                c = st.heap.get(a)
                c = c.copy() if c is not None else CellO()
                c.attrs[name] = v
                st.heap[a] = c
            return [st]
        if o.op == "module":
            a = o.args[0].env
            if not self.i.importing:
                st.event("static-write", a, name, fr.where(node))
            e = st.heap[a].copy()
            e.vars[name] = v
            st.heap[a] = e
            return [st]
        if o.op in ("extmod", "extattr", "builtin"):
            st.event("static-write", ("static", "ext", str(o.args[0])), name, fr.where(node))
            return [st]
        if o.op == "func":
            a = ("static", "funcattrs", o.args[0].qualname)
            if not self.i.importing and o.args[1] is not None and o.args[1][0] == "static":
                st.event("static-write", a, name, fr.where(node))
            c = st.heap.get(a)
            c = c.copy() if c is not None else CellO()
            c.attrs[name] = v
            st.heap[a] = c
            return [st]
        if o.op == "exc":
            return [st]
        self.i.undecide("attribute store", fr, node, st)
        return [st]

    # ------------------------------------------------------------ external modules
    def extattr(self, mod, name, st, fr, node):
        if mod == "sys" and name in ("stdout", "stderr", "stdin"):
            if self.i.importing and fr.fi is None:
                return T.sym("sys.%s at import time" % name, "stream")
            st.event("ambient-read", "sys." + name, fr.where(node))
            return T.sym("sys." + name, "stream")
        if mod == "sys" and name in ("maxsize",):
            return const(2 ** 63 - 1)
        if mod == "sys" and name == "byteorder":
            return mk("extattr", "sys.byteorder", ty="str")
        if mod == "string":
            import string
            if hasattr(string, name) and isinstance(getattr(string, name), str):
                return const(getattr(string, name))
        if mod == "binascii" and name in ("Error", "Incomplete"):
            return mk("builtin", "binascii.Error", ty="class")
        if mod in TRANSPARENT or mod.split(".")[0] in ("typing", "typing_extensions"):
            if name == "NamedTuple":
                return mk("extattr", "typing.NamedTuple", ty="class")
            if name == "TYPE_CHECKING":
                return T.FALSE
            return mk("extattr", mod + "." + name, ty="any")
        if mod == "builtins":
            b = self.builtin(name)
            if b is not None:
                return b
        if mod == "collections" and name == "abc":
            return mk("extmod", "collections.abc", ty="module")
        return mk("extattr", mod + "." + name, ty="any")

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, v, k, st, fr, node):
        classes = self.class_list_loose(k, st)
        if classes is None:
            self.i.undecide("isinstance class", fr, node, st)
            return [(st, mk("cmp", "isinstance", v, k, ty="bool"))]
        kind = self.kind(v, st)
        if v.op == "top":
            self.i.undecide("isinstance of unknown", fr, node, st)
            return [(st, mk("cmp", "isinstance", v, k, ty="bool"))]
        if v.op == "exc":
            from .interp import exc_issub
            r = [any(c == "object" or exc_issub(x, c) for c in classes) for x in v.args[0]]
            if all(r) or not any(r):
                return [(st, const(all(r)))]
            self.i.undecide("isinstance of an exception of several classes", fr, node, st)
            return [(st, mk("cmp", "isinstance", v, k, ty="bool"))]
        if kind == "any":
            # a value of unknown type: one condition per class
            out, live = [], [st]
            for c in classes:
                cn = c if isinstance(c, str) else c.name
                nxt = []
                for x in live:
                    if cn == "object":
                        out.append((x, T.TRUE))
                        continue
                    for y, b in self.i.fork(x, mk("isinst", v, cn, ty="bool")):
                        (out if b else nxt).append((y, T.TRUE) if b else y)
                live = nxt
            return out + [(x, T.FALSE) for x in live]
        from .interp import is_builtin_exc
        if any(isinstance(c, str) and c not in KIND_OF and c not in PLAIN_TYPES and not is_builtin_exc(c) for c in classes) and \
                not any(self.is_kind(v, kind, c, st) for c in classes) and kind != "inst":
            self.i.undecide("isinstance class", fr, node, st)
            return [(st, mk("cmp", "isinstance", v, k, ty="bool"))]
        return [(st, const(any(self.is_kind(v, kind, c, st) for c in classes)))]

    def class_list_loose(self, k, st):
        if k.op == "tuple":
            out = []
            for x in k.args:
                c = self.class_list_loose(x, st)
                if c is None:
                    return None
                out += c
            return out
        if k.op == "extattr":
            n = k.args[0].split(".")[-1]
            m = {"Mapping": "Mapping", "MutableMapping": "MutableMapping", "Dict": "dict", "List": "list",
                 "Sequence": "Sequence", "Iterable": "Iterable", "Callable": "Callable", "ByteString": "ByteString",
                 "Set": "Set", "Hashable": "Hashable", "Sized": "Sized", "Collection": "Collection"}.get(n)
            return [m] if m else None
        if T.is_const(k, None):
            return None
        return self.class_list(k, st)

    def is_kind(self, v, kind, c, st):
        if kind == "inst":
            ob = self.i.obj(st, v)
            from .interp import exc_issub, ClassInfo
            if isinstance(ob.cls, str):
                return exc_issub(ob.cls, c) if not isinstance(c, ClassInfo) else False
            if isinstance(c, str):
                return c == "object" or c in ob.cls.mro() or (
                    ob.cls.exc_base() is not None and exc_issub(ob.cls.exc_base(), c)) or (
                    c == "tuple" and bool(ob.cls.namedtuple)) or any(
                    isinstance(b, str) and b == c for b in ob.cls.mro())
            return c in ob.cls.mro()
        if not isinstance(c, str):
            return False
        if c == "object" or c == kind:
            return True
        if c == "type" and kind == "class":
            return True
        if c == "NoneType":
            return kind == "none"
        return kind in KIND_OF.get(c, ())

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, fr, node):
        from . import calls
        return calls.call(self, f, args, kwargs, st, fr, node)

    def super_(self, st, fr, node):
        g = fr
        while isinstance(getattr(st.heap[g.env], "owner", None), object) and g.fi is not None and g.fi.cls is None \
                and g.parent is not None and g.parent.fi is g.fi:
            g = g.parent
        ci = g.fi.cls
        if ci is None:
            return [(st, self.i.undecide("super", fr, node, st))]
        first = g.fi.node.args.posonlyargs + g.fi.node.args.args
        a = fr.env
        while a is not None and first[0].arg not in st.heap[a].vars:
            a = st.heap[a].parent
        self_v = st.heap[a].vars[first[0].arg]
        return [(st, mk("super", ci, self_v, ty="super"))]

    def classdef(self, s, st, fr):
        from . import classes
        return classes.classdef(self, s, st, fr)

    def with_(self, items, body, st, fr, node):
        from . import classes
        return classes.with_(self, items, body, st, fr, node)

    def display(self, e, st, fr, kind):
        """[*a, b]"""
        acc = self.i.alloc(st, fr, e, ListO())
        cur = [st]
        fr.live.append(acc.args[0])
        try:
            for x in e.elts:
                nxt = []
                for y in cur:
                    if isinstance(x, ast.Starred):
                        for z, v in self.i.ev(x.value, y, fr):
                            for w, l in self.to_list(v, z, fr, e):
                                o = self.i.obj(w, acc).copy()
                                lo = self.i.obj(w, l)
                                if lo.pre is not None:
                                    self.i.undecide("star of unknown", fr, e, w)
                                o.items = o.items + lo.items
                                o.unordered = o.unordered or lo.unordered
                                w.heap[acc.args[0]] = o
                                nxt.append(w)
                    else:
                        for z, v in self.i.ev(x, y, fr):
                            o = self.i.obj(z, acc).copy()
                            o.items = o.items + ((bdd.TRUE, v),)
                            z.heap[acc.args[0]] = o
                            nxt.append(z)
                cur = nxt
        finally:
            fr.live.remove(acc.args[0])
        return [(x, acc) for x in cur]


def parity(n):
    """n % 2 (also n & 1) for an integer term"""
    c, d = T.lin(n)
    r = T.from_lin(c % 2, {x: k % 2 for x, k in d.items()})
    if r.op == "const":
        return const(T.cval(r) % 2)
    return mk("parity", r, ty="int")


def _common_ty(vals):
    t = {v.ty for v in vals}
    return t.pop() if len(t) == 1 else "any"


def _parse_spec(parts):
    """[[fill]align][0][width][type] with constants and at most one computed width.
    -> (fill, align, zero, width term or None, type, alt) or None"""
    import re
    s = ""
    width = None
    for p in parts:
        if p.op == "const":
            s += T.cval(p)
        else:
            if width is not None:
                return None
            width = p
            s += "\0"
    m = re.fullmatch(r"(?:(.)?([<>=^]))?([+ -])?(#)?(0)?(\0|\d+)?([bcdeEfFgGnosxX%]?)", s, re.S)
    if m is None:
        return None
    fill, align, sign, alt, zero, w, typ = m.groups()
    if sign and sign != "-":
        return None
    if align == "^":
        return None
    if w == "\0":
        wt = width
    elif width is not None:
        return None
    elif w:
        wt = const(int(w))
    else:
        wt = None
    if zero and wt is None:
        wt = const(0)
        zero = None
    return (fill or " ", align or "", bool(zero), wt, typ, bool(alt))
