"""Calls of built-in functions, methods of built-in types and standard-library functions."""
import ast
import codecs as _codecs

from . import bdd
from . import terms as T
from .terms import mk, const, tup
from .state import c_guard, c_not, c_le0, c_eq0, c_eq, c_lt, c_le, c_odd
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO, GenO, CellO

BYTESLIKE = ("bytes", "bytearray", "memoryview")

# which str predicates hold for the abstract classes of dictionary keys
KEY_PREDS = {
    "big": {"isnumeric", "isdigit", "isdecimal", "isascii", "isalnum", "isprintable"},
    "zero": {"isnumeric", "isdigit", "isdecimal", "isascii", "isalnum", "isprintable"},
    "arab": {"isnumeric", "isdigit", "isdecimal", "isalnum", "isprintable"},
    "supers": {"isnumeric", "isdigit", "isalnum", "isprintable"},
    "frac": {"isnumeric", "isalnum", "isprintable"},
    "signed": {"isascii", "isprintable"},
}


def guarded(lib, st, c, fr, node, classes, origin, operands=()):
    """Operation that succeeds iff c: the other case raises.  -> success state or None"""
    d = st.decide(c)
    if d is True:
        return st
    if d is False:
        lib.i.raise_(st, fr, classes, origin, node, operands)
        return None
    z = st.copy()
    if z.assume(c, False):
        lib.i.raise_(z, fr, classes, origin, node, operands)
    return st if st.assume(c, True) else None


def split_guarded(lib, st, c, kinds, fr, node, origin, operands=()):
    """As guarded; kinds: (class when the predicate holds, predicate, class otherwise)"""
    hi, p, lo = kinds
    d = st.decide(c)
    if d is True:
        return st
    z = st.copy() if d is None else st
    if d is False or z.assume(c, False):
        for w, b in lib.i.fork(z, p):
            lib.i.raise_(w, fr, [hi if b else lo], origin, node, operands)
    if d is False:
        return None
    return st if st.assume(c, True) else None


def pred(name, *args):
    return mk("pred", name, *args, ty="bool")


def call(lib, f, args, kwargs, st, fr, node):
    i = lib.i
    if f.op == "top":
        i.undecide("call of unknown", fr, node, st)
        return [(st, T.top("result of unknown call"))]
    if f.op == "bound":
        return bound(lib, f, args, kwargs, st, fr, node)
    if f.op == "class":
        from .classes import construct
        return construct(lib, f.args[0], args, kwargs, st, fr, node)
    if f.op == "builtin":
        if "#unknown" in kwargs:
            return unknown(lib, "unknown keyword arguments", st, fr, node)
        return builtin(lib, f.args[0], args, kwargs, st, fr, node)
    if f.op == "unbound":
        return unbound(lib, f.args[0], f.args[1], args, kwargs, st, fr, node)
    if f.op == "partial":
        kw = dict(f.args[2])
        kw.update(kwargs)
        return i.call(f.args[0], list(f.args[1]) + list(args), kw, st, fr, node)
    if f.op == "extattr":
        return external(lib, f.args[0], args, kwargs, st, fr, node)
    if f.op == "cached":
        return i.call(f.args[0], args, kwargs, st, fr, node)
    if f.op == "ctxfactory":
        out = []
        for x, v in i.call(f.args[0], args, kwargs, st, fr, node):
            if v.op == "ref" and i.obj(x, v).kind == "gen":
                out.append((x, mk("ctxgen", v, ty="any")))
            else:
                out.append((x, i.undecide("context manager", fr, node, x)))
        return out
    if f.op == "getter":
        what, keys = f.args[0], f.args[1]
        if what == "item":
            if len(keys) == 1:
                return i.getitem(args[0], keys[0], st, fr, node)
            sts = [(st, [])]
            for k in keys:
                sts = [(y, acc + [v]) for x, acc in sts for y, v in i.getitem(args[0], k, x, fr, node)]
            return [(x, tup(acc)) for x, acc in sts]
        if what == "attr" and len(keys) == 1:
            return i.getattr(args[0], T.cval(keys[0]), st, fr, node)
        if what == "method":
            return method(lib, args[0], T.cval(keys[0]), list(keys[1:]), {}, st, fr, node)
    if f.op == "decor":
        # decorator factory of the standard library applied to a function
        return decorate(lib, f.args[0], args, kwargs, st, fr, node, f.args[1:])
    if f.op == "lookup":
        # one of several known callables
        out, live = [], [st]
        for k, v in f.args[1]:
            nxt = []
            for x in live:
                for y, c in lib.eq(f.args[0], k, x, fr, node):
                    for z, b in i.fork(y, c):
                        if b:
                            out += i.call(v, args, kwargs, z, fr, node)
                        else:
                            nxt.append(z)
            live = nxt
        return out
    if f.op == "ref":
        o = i.obj(st, f)
        if o.kind == "inst" and not isinstance(o.cls, str):
            c, m = o.cls.lookup("__call__")
            if m is not None:
                return i.call(m, [f] + list(args), kwargs, st, fr, node)
        i.raise_(st, fr, ["TypeError"], "not callable", node)
        return []
    if f.op in ("const", "tuple") or f.ty in ("str", "int", "bytes", "none", "bool"):
        i.raise_(st, fr, ["TypeError"], "not callable", node)
        return []
    return unknown(lib, "call of %s" % f.op, st, fr, node)


def unknown(lib, what, st, fr, node):
    return [(st, lib.i.undecide(what, fr, node, st))]


def bound(lib, f, args, kwargs, st, fr, node):
    i = lib.i
    o, name = f.args[0], f.args[1]
    if len(f.args) > 2:
        m = f.args[2]
        return i.call(m, [o] + list(args), kwargs, st, fr, node)
    if o.op == "super":
        return super_call(lib, o, name, args, kwargs, st, fr, node)
    return method(lib, o, name, args, kwargs, st, fr, node)


def super_call(lib, sup, name, args, kwargs, st, fr, node):
    return super_attr(lib, sup, name, args, kwargs, st, fr, node)


def super_attr(lib, sup, name, args, kwargs, st, fr, node):
    i = lib.i
    ci, self_v = sup.args
    o = i.obj(st, self_v)
    mro = o.cls.mro() if o is not None and o.kind == "inst" and not isinstance(o.cls, str) else ci.mro()
    rest = mro[mro.index(ci) + 1:] if ci in mro else mro[1:]
    for c in rest:
        if not isinstance(c, str):
            if name in c.attrs:
                return i.call(c.attrs[name], [self_v] + list(args), kwargs, st, fr, node)
        else:
            return unbound(lib, c, name, [self_v] + list(args), kwargs, st, fr, node)
    return unbound(lib, "object", name, [self_v] + list(args), kwargs, st, fr, node)


def unbound(lib, cls, name, args, kwargs, st, fr, node):
    """Class.method(obj, ...)"""
    i = lib.i
    if cls in ("int", "bytes", "bytearray", "str", "dict") and name in ("from_bytes", "fromhex", "maketrans", "fromkeys"):
        return static_method(lib, cls, name, args, kwargs, st, fr, node)
    if not args:
        i.raise_(st, fr, ["TypeError"], "unbound method", node)
        return []
    self_v = args[0]
    o = i.obj(st, self_v) if self_v.op == "ref" else None
    if o is not None and o.kind == "inst":
        if name == "__init__":
            from .interp import is_builtin_exc
            if cls in ("object",):
                return [(st, T.NONE)]
            if is_builtin_exc(cls):
                n = o.copy()
                n.attrs["args"] = tup(list(args[1:]))
                i.write(st, self_v, n, fr, node, ".args")
                return [(st, T.NONE)]
        if name == "__setattr__":
            n = o.copy()
            n.attrs[T.cval(args[1])] = args[2]
            i.write(st, self_v, n, fr, node, "." + T.cval(args[1]))
            return [(st, T.NONE)]
        return inst_method(lib, self_v, o, name, args[1:], kwargs, st, fr, node)
    return method(lib, self_v, name, list(args[1:]), kwargs, st, fr, node)


def static_method(lib, cls, name, args, kwargs, st, fr, node):
    if name == "from_bytes":
        return from_bytes(lib, args, kwargs, st, fr, node)
    if name == "fromhex":
        return fromhex(lib, cls, args, st, fr, node)
    if name == "fromkeys":
        e = lib.elements(args[0], st, fr, node)
        if e is not None:
            d = DictO()
            v = args[1] if len(args) > 1 else T.NONE
            for g, k in e[0]:
                d.items[k] = (g, v, fr.where(node))
            return [(st, lib.i.alloc(st, fr, node, d))]
    return unknown(lib, "%s.%s" % (cls, name), st, fr, node)


def inst_method(lib, self_v, o, name, args, kwargs, st, fr, node):
    i = lib.i
    if name in ("with_traceback", "add_note", "__setstate__"):
        return [(st, self_v if name == "with_traceback" else T.NONE)]
    if name in ("__reduce__", "__reduce_ex__") and not isinstance(o.cls, str) and o.cls.exc_base():
        d = DictO()
        for k, x in o.attrs.items():
            if not k.startswith("#") and k != "args":
                d.items[const(k)] = (bdd.TRUE, x, None)
        parts = [o.cls.term, o.attrs.get("args", tup([]))]
        if d.items:
            parts.append(i.alloc(st, fr, node, d, "__dict__"))
        return [(st, tup(parts))]
    if name == "__str__":
        a = o.attrs.get("args")
        if a is not None and a.op == "tuple" and len(a.args) == 1:
            return lib.str_(a.args[0], st, fr, node)
        return [(st, mk("strof", lib.snapshot(self_v, st), ty="str"))]
    if name == "__repr__":
        return [(st, mk("repr", lib.snapshot(self_v, st), ty="str"))]
    if name == "__init__":
        return [(st, T.NONE)]
    if not isinstance(o.cls, str) and o.cls.namedtuple:
        if name == "_asdict":
            d = DictO()
            for k in o.cls.namedtuple:
                d.items[const(k)] = (bdd.TRUE, o.attrs[k], None)
            return [(st, i.alloc(st, fr, node, d))]
        if name == "_replace":
            n = o.copy()
            n.attrs.update(kwargs)
            return [(st, i.alloc(st, fr, node, n, "inst"))]
    return unknown(lib, "method %s" % name, st, fr, node)


# ------------------------------------------------------------------ built-in functions
def builtin(lib, n, args, kw, st, fr, node):
    i = lib.i
    from .interp import is_builtin_exc
    if n == "vars" and len(args) == 1 and not kw:
        return i.getattr(args[0], "__dict__", st, fr, node)
    if is_builtin_exc(n):
        return [(st, i.alloc(st, fr, node, InstO(n, {"args": tup(args)}), "exc"))]
    h = globals().get("b_" + n)
    if h is not None:
        return h(lib, args, kw, st, fr, node)
    return unknown(lib, "builtin %s" % n, st, fr, node)


def b_isinstance(lib, a, kw, st, fr, node):
    return lib.isinstance_(a[0], a[1], st, fr, node)


def b_issubclass(lib, a, kw, st, fr, node):
    from .interp import exc_issub
    x, ys = a[0], lib.class_list(a[1], st)
    if x.op in ("class", "builtin") and ys is not None:
        return [(st, const(any(exc_issub(x.args[0], y) or x.args[0] == y for y in ys)))]
    return unknown(lib, "issubclass", st, fr, node)


def b_callable(lib, a, kw, st, fr, node):
    if a[0].op in ("func", "class", "builtin", "bound", "partial", "unbound"):
        return [(st, T.TRUE)]
    if a[0].ty in ("str", "int", "bytes", "none"):
        return [(st, T.FALSE)]
    return unknown(lib, "callable", st, fr, node)


def b_len(lib, a, kw, st, fr, node):
    v = a[0]
    i = lib.i
    k = lib.kind(v, st)
    if v.op == "top":
        return unknown(lib, "len of unknown", st, fr, node)
    if k in ("str",) + BYTESLIKE:
        return [(st, lib.slen(lib.content(v, st), st))]
    if v.op == "tuple":
        return [(st, const(len(v.args)))]
    if v.op == "view":
        v = v.args[1]
        k = "dict"
    if v.op == "range":
        e = lib.elements(v, st, fr, node)
        if e is not None:
            return [(st, const(len(e[0])))]
        x, y, s = v.args
        if T.is_const(s, 1):
            out = []
            for z, b in i.fork(st, c_le(x, y)):
                out.append((z, T.sub(y, x) if b else const(0)))
            return out
        return [(st, mk("len", v, ty="int"))]
    if v.op == "ref":
        o = i.obj(st, v)
        if o.kind == "list":
            if o.pre is None:
                return [(st, count_guards([g for g, _ in o.items], st))]
            if all(g == bdd.TRUE for g, _ in o.items):
                return [(st, T.add(mk("len", o.pre, ty="int"), const(len(o.items))))]
        elif o.kind == "set" and not o.unknown:
            live = [(g, t) for g, t in o.syms if bdd.and_(g, st.gpc) != bdd.FALSE]
            if not live:
                return [(st, count_guards(list(o.items.values()), st))]
            if all(t.ty == "str" for _, t in live):
                return [(st, count_guards(list(o.items.values()) + [g for g, _ in live], st))]
        elif o.kind == "dict" and not o.loops:
            e = lib.dict_keys(v, st)
            if e is not None:
                return [(st, count_guards([g for g, _ in e[0]], st))]
            return [(st, mk("len", mk("snapshot", lib.snapshot(v, st), ty="any"), ty="int"))]
        elif o.kind == "inst" and not isinstance(o.cls, str):
            c, m = o.cls.lookup("__len__")
            if m is not None:
                return i.call(m, [v], {}, st, fr, node)
            if o.cls.namedtuple:
                return [(st, const(len(o.cls.namedtuple)))]
        elif o.kind in ("gen", "inst"):
            i.raise_(st, fr, ["TypeError"], "len", node)
            return []
        i.undecide("len of container", fr, node, st)
        return [(st, mk("len", lib.snapshot(v, st), ty="int"))]
    if k in ("int", "none", "bool", "float", "func", "class"):
        i.raise_(st, fr, ["TypeError"], "len", node)
        return []
    if k == "any":
        z = st.copy()
        i.raise_(z, fr, ["TypeError"], "len", node)
        return [(st, mk("len", v, ty="int"))]
    if k in ("list", "dict", "set"):
        # a value whose type is known and nothing else
        return [(st, mk("len", v, ty="int"))]
    return unknown(lib, "len of %s" % k, st, fr, node)


def count_guards(gs, st):
    """Number of true guards as an integer term"""
    sure = sum(1 for g in gs if bdd.implies(st.gpc, g))
    rest = [g for g in gs if not bdd.implies(st.gpc, g) and bdd.and_(g, st.gpc) != bdd.FALSE]
    if not rest:
        return const(sure)
    return T.add(const(sure), mk("count", tuple(sorted(rest)), ty="int"))


def b_range(lib, a, kw, st, fr, node):
    i = lib.i
    for v in a:
        if v.ty not in ("int", "bool"):
            if v.op == "top":
                return unknown(lib, "range of unknown", st, fr, node)
            i.raise_(st, fr, ["TypeError"], "range", node)
            return []
    v = [st.norm(x) for x in a]
    if len(v) == 1:
        v = [const(0), v[0], const(1)]
    elif len(v) == 2:
        v = v + [const(1)]
    if T.is_const(v[2], 0):
        i.raise_(st, fr, ["ValueError"], "range() arg 3 must not be zero", node)
        return []
    return [(st, mk("range", *v, ty="range"))]


def b_sorted(lib, a, kw, st, fr, node):
    out = []
    for x, l in lib.to_list(a[0], st, fr, node):
        out += [(y, l) for y in sort_list(lib, l, kw, x, fr, node)]
    return out


def plain(t):
    """Value of a constant or a tuple of constants: (value,) or None"""
    if t.op == "const":
        return (T.cval(t),)
    if t.op == "tuple":
        v = [plain(x) for x in t.args]
        return None if None in v else (tuple(x for x, in v),)
    return None


def sort_few(lib, l, items, key, rev, unordered, st, fr, node):
    """Two or three elements that are surely there: insertion, with a case for each order of symbolic keys"""
    i = lib.i
    if all(plain(v) is not None for v in items) and (T.is_const(key, None) or key.op == "builtin"):
        return None
    live = [(st, [])]
    for v in items:
        nxt = []
        for z, ks in live:
            nxt += [(y, ks + [k]) for y, k in ([(z, v)] if T.is_const(key, None) else i.call(key, [v], {}, z, fr, node))]
        live = nxt
    if len(live) > 12:
        i.undecide("sort key", fr, node, st)
        return [st]
    out = []

    def less(a, b, st):
        pa, pb = plain(a), plain(b)
        if pa is not None and pb is not None:
            try:
                return [(st, pa[0] < pb[0])]
            except TypeError:
                pass
        return [(u, t) for w, r in lib.compare(ast.Lt(), a, b, st, fr, node) for u, t in i.truth(r, w, fr, node)]

    def insert(st, done, rest, unord):
        if not rest:
            i.write(st, l, ListO([(bdd.TRUE, v) for _, v in done], None, unord, "list"), fr, node, "sort")
            out.append(st)
            return
        place(st, done, len(done), rest, unord)

    def place(st, done, at, rest, unord):
        x = rest[0]
        if at == 0:
            return insert(st, [x] + done, rest[1:], unord)
        e = done[at - 1]
        for u, t in less(*((e[0], x[0]) if rev else (x[0], e[0])), st):
            if t:
                place(u, done, at - 1, rest, unord)
                continue
            here = done[:at] + [x] + done[at:]
            if not unordered:
                insert(u, here, rest[1:], unord)
                continue
            for w, t2 in less(*((x[0], e[0]) if rev else (e[0], x[0])), u):
                insert(w, list(here), rest[1:], unord or not t2)     # equal keys stay in the order of the input

    for z, ks in live:
        insert(z, [], list(zip(ks, items)), False)
    return out


def sort_list(lib, l, kw, st, fr, node):
    i = lib.i
    o = i.obj(st, l)
    rev = kw.get("reverse", T.FALSE)
    key = kw.get("key", T.NONE)
    if o.pre is not None:
        st.heap[l.args[0]] = ListO((), mk("sorted", o.pre, ty="any"), False, "list")
        i.undecide("sort of list built in a loop", fr, node, st)
        return [st]
    items = [(g, v) for g, v in o.items if bdd.and_(g, st.gpc) != bdd.FALSE]
    if rev.op != "const":
        i.undecide("sort order", fr, node, st)
        return [st]
    if 2 <= len(items) <= 3 and all(bdd.implies(st.gpc, g) for g, _ in items):
        r = sort_few(lib, l, [v for _, v in items], key, bool(T.cval(rev)), o.unordered, st, fr, node)
        if r is not None:
            return r
    keys = []
    sts = st
    if not T.is_const(key, None):
        for g, v in items:
            z = sts.copy()
            z.gpc = bdd.and_(z.gpc, g)
            r = i.call(key, [v], {}, z, fr, node)
            ks = {x for _, x in r}
            if len(ks) != 1:
                # the key function may fail or have several outcomes for this element
                if not r:
                    sts.gpc = bdd.and_(sts.gpc, bdd.not_(g))
                    if sts.gpc == bdd.FALSE:
                        return []
                    continue
                i.undecide("sort key", fr, node, st)
                return [st]
            if bdd.or_(bdd.any_([y.gpc for y, _ in r]), bdd.not_(z.gpc)) != bdd.TRUE:
                bad = bdd.and_(z.gpc, bdd.not_(bdd.any_([y.gpc for y, _ in r])))
                sts.gpc = bdd.and_(sts.gpc, bdd.not_(bad))
                if sts.gpc == bdd.FALSE:
                    return []
            keys.append((ks.pop(), g, v))
    else:
        keys = [(v, g, v) for g, v in items]
    keys = [k for k in keys if bdd.and_(k[1], sts.gpc) != bdd.FALSE]
    st = sts
    kinds = {lib.kind(k, st) for k, _, _ in keys}
    if kinds <= {"int", "bool"} or kinds <= {"str"} or kinds <= {"bytes"}:
        pass
    elif any(k in ("any", "top") for k in kinds):
        i.undecide("sort of unknown values", fr, node, st)
    elif len(keys) > 1:
        # mixed types: fails as soon as two of different types are present
        bad = bdd.FALSE
        for p in range(len(keys)):
            for q in range(p + 1, len(keys)):
                kp, kq = lib.kind(keys[p][0], st), lib.kind(keys[q][0], st)
                if kp != kq:
                    bad = bdd.or_(bad, bdd.and_(keys[p][1], keys[q][1]))
                    if kinds - {"int", "str", "bytes", "bool", "none"}:
                        break
        z = st.copy()
        z.gpc = bdd.and_(z.gpc, bad)
        if z.gpc != bdd.FALSE:
            i.raise_(z, fr, ["TypeError"], "sort of mixed types", node)
        st.gpc = bdd.and_(st.gpc, bdd.not_(bad))
        if st.gpc == bdd.FALSE:
            return []
    consts = [k for k in keys if plain(k[0]) is not None]
    other = [k for k in keys if plain(k[0]) is None]
    try:
        consts.sort(key=lambda k: plain(k[0])[0], reverse=bool(T.cval(rev)))
    except TypeError:
        if any(k[0].op == "tuple" for k in consts):
            i.undecide("sort of mixed tuples", fr, node, st)
            return [st]
        consts.sort(key=lambda k: (str(type(T.cval(k[0]))), T.cval(k[0])), reverse=bool(T.cval(rev)))
    unordered = False
    if other:
        if all(k.ty == "int" for k, _, _ in consts) and all(v.op == "int_of_str" and v.args[0].op == "key" and v.args[0].args[0] == "big" for v, _, _ in other) \
                and len(other) == 1 and not T.cval(rev):
            seq = consts + other           # larger than every tabulated number
        elif len(keys) == 1:
            seq = keys
        else:
            seq = consts + other
            unordered = True
    else:
        seq = consts
        if o.unordered and len({plain(k)[0] for k, _, _ in consts}) < len(consts):
            unordered = True               # equal keys stay in the order of the input
    i.write(st, l, ListO([(g, v) for _, g, v in seq], None, unordered, "list"), fr, node, "sort")
    return [st]


def b_reversed(lib, a, kw, st, fr, node):
    e = lib.elements(a[0], st, fr, node)
    if e is not None:
        return [(st, lib.i.alloc(st, fr, node, ListO(list(reversed(e[0])), None, e[1], "iter")))]
    return unknown(lib, "reversed", st, fr, node)


def b_enumerate(lib, a, kw, st, fr, node):
    start = a[1] if len(a) > 1 else kw.get("start", const(0))
    e = None
    if not (a[0].op == "ref" and lib.i.obj(st, a[0]).kind == "list" and lib.i.obj(st, a[0]).ty == "iter"):
        e = lib.elements(a[0], st, fr, node)
    if e is not None and all(g == bdd.TRUE for g, _ in e[0]):
        items = [(g, tup([T.add(start, const(k)), v])) for k, (g, v) in enumerate(e[0])]
        return [(st, lib.i.alloc(st, fr, node, ListO(items, None, e[1], "iter")))]
    return [(st, mk("lazy", "enumerate", a[0], start, ty="iter"))]


def b_zip(lib, a, kw, st, fr, node):
    es = [lib.elements(x, st, fr, node) for x in a]
    if all(e is not None and all(g == bdd.TRUE for g, _ in e[0]) for e in es):
        items = [(bdd.TRUE, tup(list(vs))) for vs in zip(*[[v for _, v in e[0]] for e in es])]
        return [(st, lib.i.alloc(st, fr, node, ListO(items, None, any(e[1] for e in es), "iter")))]
    return unknown(lib, "zip", st, fr, node)


def b_map(lib, a, kw, st, fr, node):
    if len(a) == 2:
        return [(st, mk("lazy", "map", a[0], a[1], ty="iter"))]
    out = []
    for x, z in b_zip(lib, a[1:], {}, st, fr, node):
        if z.op == "ref":
            out.append((x, mk("lazy", "map", mk("star", a[0], ty="func"), z, ty="iter")))
        else:
            out.append((x, z))
    return out


def b_filter(lib, a, kw, st, fr, node):
    return [(st, mk("lazy", "filter", a[0], a[1], ty="iter"))]


def _quant(lib, a, st, fr, node, isany):
    """any()/all(): short-circuit over the elements"""
    i = lib.i
    v = a[0]
    e = None
    if v.op != "lazy":
        e = lib.elements(v, st, fr, node)
    if e is not None:
        out, live = [], [st]
        # guards of boolean elements combine without splitting
        g0 = []
        for g, x in e[0]:
            b = i.as_guard(lib.cond(x, st, fr, node)) if x.op != "top" else None
            if b is None:
                g0 = None
                break
            g0.append((g, b))
        if g0 is not None:
            if isany:
                return [(st, c_guard(bdd.any_([bdd.and_(g, b) for g, b in g0])))]
            return [(st, c_guard(bdd.all_([bdd.or_(bdd.not_(g), b) for g, b in g0])))]
        for g, x in e[0]:
            nxt = []
            for s in live:
                for s2, h in i.fork(s, c_guard(g)):
                    if not h:
                        nxt.append(s2)
                        continue
                    for s3, b in i.truth(x, s2, fr, node):
                        if b == isany:
                            out.append((s3, const(isany)))
                        else:
                            nxt.append(s3)
            live = i.merge_states(nxt, fr) if len(nxt) > 1 else nxt
        return i.merge(out, fr) + [(s, const(not isany)) for s in live]
    if v.ty in ("bytes", "bytearray") and v.op != "ref":
        c = mk("pred", "nonzero" if isany else "nozero", v, ty="bool")
        d = st.decide(c)
        if d is not None:
            return [(st, const(d))]
        out = []
        for s2, h in i.fork(st, c):
            # something is there, or something is missing
            if h == isany and not s2.assume(c_le(const(1), T.length(v)), True):
                continue
            out.append((s2, const(h)))
        return out
    hits = []
    i.sink_push(hits)

    def body(y, x):
        res = []
        for z, b in i.truth(x, y, fr, node):
            if b == isany:
                hits.append((z, const(isany)))
            else:
                res.append(z)
        return res
    try:
        sts = lib.loops.each(node, v, st, fr, body)
    finally:
        i.sink_pop(1)
    return hits + [(x, const(not isany)) for x in sts]


def b_any(lib, a, kw, st, fr, node):
    return _quant(lib, a, st, fr, node, True)


def b_all(lib, a, kw, st, fr, node):
    return _quant(lib, a, st, fr, node, False)


def b_sum(lib, a, kw, st, fr, node):
    i = lib.i
    start = a[1] if len(a) > 1 else kw.get("start", const(0))
    e = None if a[0].op == "lazy" else lib.elements(a[0], st, fr, node)
    if e is not None:
        acc = [(st, start)]
        import ast
        from .interp import make_bits, bits_of_const
        for g, v in e[0]:
            nxt = []
            for x, s in acc:
                if g != bdd.TRUE:
                    b = lib.to_bits(v, x) if v.ty in ("int", "bool") else None
                    if b is not None:
                        v2 = make_bits([bdd.and_(g, q) for q in b])
                        nxt += lib.binop(ast.Add(), s, v2, x, fr, node)
                        continue
                    for y, h in i.fork(x, c_guard(g)):
                        nxt += lib.binop(ast.Add(), s, v, y, fr, node) if h else [(y, s)]
                else:
                    nxt += lib.binop(ast.Add(), s, v, x, fr, node)
            acc = i.merge(nxt, fr) if len(nxt) > 1 else nxt
        return acc
    import ast
    env = i.new_addr(st, fr, node, "sum")
    st.heap[env] = EnvO({"acc": start}, None, None)
    fr.live.append(env)

    def body(y, v):
        out = []
        for z, r in lib.binop(ast.Add(), y.heap[env].vars["acc"], v, y, fr, node):
            z.heap[env] = EnvO({"acc": r}, None, None)
            out.append(z)
        return out
    try:
        sts = lib.loops.each(node, a[0], st, fr, body)
    finally:
        fr.live.remove(env)
    return [(x, x.heap[env].vars["acc"]) for x in sts]


def _minmax(lib, a, kw, st, fr, node, op):
    i = lib.i
    if "key" in kw or "default" in kw:
        if "default" in kw and "key" not in kw and len(a) == 1:
            e = lib.elements(a[0], st, fr, node)
            if e is not None and not [1 for g, _ in e[0] if bdd.and_(g, st.gpc) != bdd.FALSE]:
                return [(st, kw["default"])]
            if e is not None and all(v.op == "const" for _, v in e[0]):
                return [(st, mk(op + "g", tuple(e[0]), kw["default"], ty="int"))]
        return unknown(lib, op, st, fr, node)
    vals = list(a)
    if len(a) == 1:
        e = lib.elements(a[0], st, fr, node)
        if e is None:
            return unknown(lib, op, st, fr, node)
        if any(g != bdd.TRUE for g, _ in e[0]):
            # some element may be absent
            some = bdd.any_([g for g, _ in e[0]])
            z = st.copy()
            z.gpc = bdd.and_(z.gpc, bdd.not_(some))
            if z.gpc != bdd.FALSE:
                i.raise_(z, fr, ["ValueError"], "%s() arg is an empty sequence" % op, node)
            st.gpc = bdd.and_(st.gpc, some)
            if st.gpc == bdd.FALSE:
                return []
            if all(v.op == "const" and isinstance(T.cval(v), int) for _, v in e[0]):
                # exact: bits of the extreme element
                from .interp import make_bits, ite_bits, bits_of_const
                seq = sorted(e[0], key=lambda x: T.cval(x[1]), reverse=op == "min")
                if T.cval(seq[0][1]) >= 0 and all(T.cval(v) >= 0 for _, v in seq):
                    r = []
                    for g, v in seq:
                        r = ite_bits(g, bits_of_const(v), r)
                    return [(st, make_bits(r))]
            return unknown(lib, op, st, fr, node)
        vals = [v for _, v in e[0]]
        if not vals:
            i.raise_(st, fr, ["ValueError"], "%s() arg is an empty sequence" % op, node)
            return []
    if any(lib.kind(v, st) not in ("int", "bool") for v in vals):
        if all(v.op == "const" for v in vals):
            try:
                return [(st, const((min if op == "min" else max)(T.cval(v) for v in vals)))]
            except TypeError:
                i.raise_(st, fr, ["TypeError"], op, node)
                return []
        return unknown(lib, op, st, fr, node)
    if len(vals) == 2:
        lo, hi = vals
        out = []
        for x, b in i.fork(st, c_le(st.norm(lo), st.norm(hi))):
            out.append((x, lo if b == (op == "min") else hi))
        return out
    cur = st.norm(vals[0])
    for v in vals[1:]:
        v = st.norm(v)
        lo, hi = (cur, v) if op == "min" else (v, cur)
        d = st.decide(c_le(lo, hi))
        if d is True:
            continue
        if d is False or st.decide(c_le(hi, lo)):
            cur = v
            continue
        parts = []
        for q in (cur, v):
            parts += list(q.args) if q.op == op else [q]
        cur = mk(op, *sorted(set(parts), key=lambda q: q.id), ty="int")
    return [(st, cur)]


def b_min(lib, a, kw, st, fr, node):
    return _minmax(lib, a, kw, st, fr, node, "min")


def b_max(lib, a, kw, st, fr, node):
    return _minmax(lib, a, kw, st, fr, node, "max")


def b_abs(lib, a, kw, st, fr, node):
    if a[0].op == "const":
        return [(st, const(abs(T.cval(a[0]))))]
    d = st.decide(c_le(const(0), a[0])) if a[0].ty == "int" else None
    if d:
        return [(st, a[0])]
    return [(st, mk("abs", a[0], ty="int"))]


def b_int(lib, a, kw, st, fr, node):
    i = lib.i
    if not a:
        return [(st, const(0))]
    v = a[0]
    base = a[1] if len(a) > 1 else kw.get("base", const(10))
    k = lib.kind(v, st)
    if v.op == "top":
        return unknown(lib, "int of unknown", st, fr, node)
    if len(a) == 1 and "base" not in kw:
        if k == "int":
            return [(st, v)]
        if k == "bool":
            return [(st, lib.bool_int(v, st))]
        if k == "float":
            if v.op == "const":
                return [(st, const(int(T.cval(v))))]
            if v.op == "truediv" and v.args[1].op == "const" and T.cval(v.args[1]) > 0 and st.decide(c_le(const(0), v.args[0])):
                return [(st, T.floordiv(v.args[0], v.args[1]))]
            return [(st, mk("int_of_float", v, ty="int"))]
    if k in ("none", "dict", "list", "set", "tuple"):
        i.raise_(st, fr, ["TypeError"], "int", node)
        return []
    if base.op != "const":
        return unknown(lib, "int base", st, fr, node)
    b = T.cval(base)
    if k in ("str",) + BYTESLIKE:
        x = st.norm(T.strip_copy(lib.content(v, st)))
        if x.op == "const":
            try:
                return [(st, const(int(T.cval(x), b)))]
            except ValueError:
                i.raise_(st, fr, ["ValueError"], "int", node, (v,))
                return []
        if x.op == "bitstr" and b in (2, 0):
            from .interp import make_bits
            return [(st, make_bits(list(reversed(x.args))))]
        if x.op == "str_of_int" and b == 10:
            return [(st, x.args[0])]
        if x.op == "fmt0" and b == 10:
            return [(st, x.args[0])]
        if x.op in ("upper", "lower"):
            if x.args[0].op == "hex":
                x = x.args[0]
        if x.op == "key" and b == 10:
            if x.args[0] in ("supers", "frac"):
                i.raise_(st, fr, ["ValueError"], "int", node, (v,))
                return []
            if x.args[0] in ("big", "zero", "arab", "signed"):
                return [(st, mk("int_of_str", x, const(b), ty="int"))]
        if x.op == "encode" and T.cval(x.args[1]) in ("ascii", "utf-8", "latin-1") if x.op == "encode" and x.args[1].op == "const" else False:
            x = x.args[0]
        if x.op == "hex" and b == 16:
            ok = c_lt(const(0), T.length(x))
        else:
            ok = pred("intable", x, const(b))
        y = guarded(lib, st, ok, fr, node, ["ValueError"], "int", (v,))
        if y is None:
            return []
        r = mk("int_of_str", x, const(b), ty="int")
        bits = lib.to_bits(r, y) if b == 16 else None
        if bits is not None:
            from .interp import make_bits
            return [(y, make_bits(bits))]
        return [(y, r)]
    if k == "any":
        z = st.copy()
        i.raise_(z, fr, ["TypeError", "ValueError"], "int", node, (v,))
        return [(st, mk("int_of_any", v, ty="int"))]
    i.raise_(st, fr, ["TypeError"], "int", node)
    return []


def b_bool(lib, a, kw, st, fr, node):
    if not a:
        return [(st, T.FALSE)]
    return [(st, lib.cond(a[0], st, fr, node))]


def b_float(lib, a, kw, st, fr, node):
    if a[0].op == "const":
        try:
            return [(st, const(float(T.cval(a[0]))))]
        except (ValueError, TypeError):
            pass
    return [(st, mk("float", a[0], ty="float"))]


def b_str(lib, a, kw, st, fr, node):
    if not a:
        return [(st, T.EMPTY_S)]
    if len(a) > 1 or "encoding" in kw:
        return decode(lib, a[0], a[1:] , kw, st, fr, node)
    if a[0].op == "top":
        return unknown(lib, "str of unknown", st, fr, node)
    return lib.str_(a[0], st, fr, node)


def b_repr(lib, a, kw, st, fr, node):
    v = a[0]
    if v.op == "ref":
        o = lib.i.obj(st, v)
        if o.kind == "inst" and not isinstance(o.cls, str):
            c, m = o.cls.lookup("__repr__")
            if m is not None:
                return lib.i.call(m, [v], {}, st, fr, node)
    return [(st, lib.repr_(v, st))]


b_ascii = b_repr


def b_format(lib, a, kw, st, fr, node):
    return lib.format_value(a[0], a[1] if len(a) > 1 else T.EMPTY_S, -1, st, fr, node)


def b_bytes(lib, a, kw, st, fr, node, mutable=False):
    i = lib.i

    def out(st, c):
        if mutable:
            return (st, i.alloc(st, fr, node, BArrO(c), "bytearray"))
        return (st, c)
    if not a and not kw:
        return [out(st, T.EMPTY_B)]
    v = a[0] if a else kw.get("source")
    k = lib.kind(v, st)
    if v.op == "top":
        return unknown(lib, "bytes of unknown", st, fr, node)
    if k == "str":
        if len(a) < 2 and "encoding" not in kw:
            i.raise_(st, fr, ["TypeError"], "string argument without an encoding", node)
            return []
        return [out(x, r) for x, r in encode(lib, v, a[1:], kw, st, fr, node)]
    if len(a) > 1 or "encoding" in kw:
        i.raise_(st, fr, ["TypeError"], "encoding without a string argument", node)
        return []
    if k in BYTESLIKE:
        c = lib.content(v, st)
        st.event("alloc", "copy", T.length(c), fr.where(node), True)
        return [out(st, T.tobytes(c))]
    if k in ("int", "bool"):
        n = st.norm(v)
        if n.op == "const":
            if T.cval(n) < 0:
                i.raise_(st, fr, ["ValueError"], "negative count", node)
                return []
            if T.cval(n) <= 4096:
                return [out(st, const(bytes(T.cval(n))))]
        st.event("alloc", "zeros", n, fr.where(node), lib.alloc_ok(n, st))
        y = guarded(lib, st, c_le(const(0), n), fr, node, ["ValueError"], "negative count")
        return [out(y, mk("repeat", const(b"\0"), n, ty="bytes"))] if y is not None else []
    if k in ("none", "float"):
        i.raise_(st, fr, ["TypeError"], "bytes", node)
        return []
    if k in ("list", "tuple", "iter", "range", "generator", "set", "view") or v.op == "lazy":
        if v.op == "range" and v.args[2] and lib.elements(v, st, fr, node) is None:
            st.event("alloc", "bytes", T.sub(v.args[1], v.args[0]), fr.where(node), lib.alloc_ok(v.args[1], st))
        res = []
        for x, l in lib.to_list(v, st, fr, node):
            o = i.obj(x, l)
            if o.pre is not None or any(g != bdd.TRUE for g, _ in o.items):
                res.append(out(x, i.undecide("bytes of list", fr, node, x)))
                continue
            from .interp import make_bytesof
            els = []
            ok = True
            for g, e in o.items:
                if lib.kind(e, x) not in ("int", "bool"):
                    i.raise_(x, fr, ["TypeError"], "bytes element", node)
                    ok = False
                    break
                if e.op == "const" and not 0 <= T.cval(e) <= 255:
                    i.raise_(x, fr, ["ValueError"], "bytes element", node)
                    ok = False
                    break
                b = lib.to_bits(e, x)
                if e.op == "bits" and len(e.args) > 8:
                    hi = bdd.any_(e.args[8:])
                    z = x.copy()
                    z.gpc = bdd.and_(z.gpc, hi)
                    if z.gpc != bdd.FALSE:
                        i.raise_(z, fr, ["ValueError"], "bytes element", node)
                    x.gpc = bdd.and_(x.gpc, bdd.not_(hi))
                    if x.gpc == bdd.FALSE:
                        ok = False
                        break
                elif b is None and e.op != "byteat":
                    lo = x.decide(c_le(const(0), e))
                    hi_ = x.decide(c_le(e, const(255)))
                    if not (lo and hi_):
                        z = x.copy()
                        i.raise_(z, fr, ["ValueError"], "bytes element", node)
                els.append(e)
            if not ok:
                continue
            if len(els) == 1 and els[0].op == "byteat":
                xx, kk = els[0].args
                res.append(out(x, T.tobytes(T.mk_slice(xx, kk, T.add(kk, const(1))))))
                continue
            res.append(out(x, make_bytesof(els) if els else T.EMPTY_B))
        return res
    if k == "any":
        z = st.copy()
        i.raise_(z, fr, ["TypeError", "ValueError"], "bytes", node)
        st.event("alloc", "unknown", v, fr.where(node), True)
        return [out(st, mk("bytes_of_any", v, ty="bytes"))]
    if k == "inst":
        o = i.obj(st, v)
        if not isinstance(o.cls, str):
            c, m = o.cls.lookup("__bytes__")
            if m is not None:
                return i.call(m, [v], {}, st, fr, node)
    return unknown(lib, "bytes(%s)" % k, st, fr, node)


def b_bytearray(lib, a, kw, st, fr, node):
    return b_bytes(lib, a, kw, st, fr, node, True)


def b_memoryview(lib, a, kw, st, fr, node):
    c = lib.content(a[0], st)
    if lib.kind(a[0], st) in BYTESLIKE:
        if c.op == "const":
            return [(st, c)]
        return [(st, mk("memoryview", c, ty="memoryview"))]
    if lib.kind(a[0], st) in ("str", "int", "none"):
        lib.i.raise_(st, fr, ["TypeError"], "memoryview", node)
        return []
    return unknown(lib, "memoryview", st, fr, node)


def b_list(lib, a, kw, st, fr, node):
    if not a:
        return [(st, lib.i.alloc(st, fr, node, ListO(), "list"))]
    return lib.to_list(a[0], st, fr, node)


def b_tuple(lib, a, kw, st, fr, node):
    if not a:
        return [(st, tup([]))]
    f = lib.fixed_elements(a[0], st) if a[0].op != "lazy" else None
    if f is not None:
        return [(st, tup(f))]
    out = []
    for x, l in lib.to_list(a[0], st, fr, node):
        f = lib.fixed_elements(l, x)
        if f is not None:
            out.append((x, tup(f)))
        else:
            o = lib.i.obj(x, l).copy()
            o.ty = "tuple"
            x.heap[l.args[0]] = o
            out.append((x, l))
    return out


def b_iter(lib, a, kw, st, fr, node):
    if a[0].op == "ref":
        o = lib.i.obj(st, a[0])
        if o.kind == "gen" or (o.kind == "list" and o.ty == "iter"):
            return [(st, a[0])]
    if a[0].op == "lazy" or len(a) > 1:
        if len(a) > 1:
            return unknown(lib, "iter with sentinel", st, fr, node)
        return [(st, a[0])]
    out = []
    for x, l in lib.to_list(a[0], st, fr, node):
        o = lib.i.obj(x, l).copy()
        o.ty = "iter"
        x.heap[l.args[0]] = o
        out.append((x, l))
    return out


def b_next(lib, a, kw, st, fr, node):
    i = lib.i
    v = a[0]
    if v.op == "lazy" or (v.op == "ref" and i.obj(st, v).kind == "gen"):
        # materialise, then take the first element
        out = []
        for x, l in lib.to_list(v, st, fr, node):
            if v.op == "ref":
                o = i.obj(x, l).copy()
                o.ty = "iter"
                x.heap[v.args[0]] = o
                out += b_next(lib, [v] + a[1:], kw, x, fr, node)
            else:
                i.undecide("next of lazy iterator", fr, node, x)
                out.append((x, T.top("next")))
        return out
    if v.op == "ref" and i.obj(st, v).kind == "list":
        o = i.obj(st, v)
        if o.pre is None:
            out, live = [], [st]
            for n, (g, x) in enumerate(o.items):
                nxt = []
                for s in live:
                    for s2, b in i.fork(s, c_guard(g)):
                        if b:
                            s2.heap[v.args[0]] = ListO(o.items[n + 1:], None, o.unordered, o.ty)
                            out.append((s2, x))
                        else:
                            nxt.append(s2)
                live = nxt
            for s in live:
                if len(a) > 1:
                    out.append((s, a[1]))
                else:
                    i.raise_(s, fr, ["StopIteration"], "next", node)
            return i.merge(out, fr) if len(out) > 1 else out
    return unknown(lib, "next", st, fr, node)


def b_dict(lib, a, kw, st, fr, node):
    i = lib.i
    r = i.alloc(st, fr, node, DictO(), "dict")
    sts = [st]
    if a:
        v = a[0]
        if lib.kind(v, st) == "dict" or lib.elements(v, st, fr, node, peek=True) is not None:
            sts = lib.dict_update(r, v, st, fr, node)
        else:
            fr.live.append(r.args[0])

            def body(y, x):
                el = lib.fixed_elements(x, y)
                if el is None or len(el) != 2:
                    i.undecide("dict from pairs", fr, node, y)
                    return [y]
                return lib.setitem(r, el[0], el[1], y, fr, node)
            try:
                sts = lib.loops.each(node, v, st, fr, body)
            finally:
                fr.live.remove(r.args[0])
    out = []
    for x in sts:
        ys = [x]
        for k, v in kw.items():
            ys = [z for y in ys for z in lib.setitem(r, const(k), v, y, fr, node)]
        out += [(y, r) for y in ys]
    return out


def b_set(lib, a, kw, st, fr, node):
    return lib.make_set(a[0] if a else None, st, fr, node)


def b_frozenset(lib, a, kw, st, fr, node):
    return lib.make_set(a[0] if a else None, st, fr, node, True)


def b_type(lib, a, kw, st, fr, node):
    if len(a) != 1:
        return unknown(lib, "type()", st, fr, node)
    v = a[0]
    k = lib.kind(v, st)
    if k == "inst":
        c = lib.i.obj(st, v).cls
        return [(st, c.term if not isinstance(c, str) else mk("builtin", c, ty="class"))]
    if k == "any":
        return [(st, mk("classof", v, ty="class"))]
    if k == "exc":
        return [(st, T.sym("class of exception", "class"))]
    if k == "none":
        return [(st, mk("builtin", "NoneType", ty="class"))]
    if v.op in ("func", "bound", "class", "module"):
        return [(st, mk("builtin", "type", ty="class"))]
    from .lib import builtin_term
    return [(st, builtin_term(k))]


def b_id(lib, a, kw, st, fr, node):
    st.event("ambient", "id", fr.where(node))
    return [(st, mk("ambient", "id", ty="int"))]


def b_hash(lib, a, kw, st, fr, node):
    st.event("ambient", "hash", fr.where(node))
    return [(st, mk("ambient", "hash", ty="int"))]


def b_getattr(lib, a, kw, st, fr, node):
    i = lib.i
    if a[1].op != "const":
        return unknown(lib, "getattr with computed name", st, fr, node)
    if len(a) == 2:
        return i.getattr(a[0], T.cval(a[1]), st, fr, node)
    saved = fr.raises
    fr.raises = tmp = []
    i.sink_push(tmp)
    try:
        r = i.getattr(a[0], T.cval(a[1]), st, fr, node)
    finally:
        fr.raises = saved
        i.sink_pop(1)
    out = list(r)
    for x, e in tmp:
        c, rest = i.split_exc(e, ["AttributeError"], x)
        if c is not None:
            out.append((x.copy(), a[2]))
        if rest is not None:
            fr.raises.append((x, rest))
    return out


def b_hasattr(lib, a, kw, st, fr, node):
    r = b_getattr(lib, [a[0], a[1], mk("const", "#missing", ty="none")], kw, st, fr, node)
    return [(x, const(not (v.op == "const" and v.args[0] == "#missing"))) for x, v in r]


def b_setattr(lib, a, kw, st, fr, node):
    if a[1].op != "const":
        return unknown(lib, "setattr", st, fr, node)
    return [(x, T.NONE) for x in lib.i.setattr(a[0], T.cval(a[1]), a[2], st, fr, node)]


def b_print(lib, a, kw, st, fr, node):
    i = lib.i
    f = kw.get("file", T.NONE)
    if T.is_const(f, None):
        st.event("ambient-read", "sys.stdout", fr.where(node))
        f = T.sym("sys.stdout", "stream")
    sep = kw.get("sep", const(" "))
    end = kw.get("end", const("\n"))
    if T.is_const(sep, None):
        sep = const(" ")
    if T.is_const(end, None):
        end = const("\n")
    sts = [(st, [])]
    for v in a:
        sts = [(y, acc + ([sep] if acc else []) + [s]) for x, acc in sts for y, s in lib.str_(v, x, fr, node)]
    out = []
    for x, acc in sts:
        out += write(lib, f, lib.join_str(acc + [end]), x, fr, node)
    return out


def b_input(lib, a, kw, st, fr, node):
    st.event("ambient", "input", fr.where(node))
    return [(st, mk("ambient", "input", ty="str"))]


def b_open(lib, a, kw, st, fr, node):
    st.event("ambient", "open", fr.where(node))
    return [(st, T.sym("file", "stream"))]


def b_bin(lib, a, kw, st, fr, node):
    if a[0].op == "const":
        return [(st, const(bin(T.cval(a[0]))))]
    return [(st, mk("bin", a[0], ty="str"))]


def b_hex(lib, a, kw, st, fr, node):
    if a[0].op == "const":
        return [(st, const(hex(T.cval(a[0]))))]
    return [(st, mk("hexint", a[0], ty="str"))]


def b_oct(lib, a, kw, st, fr, node):
    return [(st, mk("oct", a[0], ty="str"))]


def b_divmod(lib, a, kw, st, fr, node):
    import ast
    out = []
    for x, q in lib.binop(ast.FloorDiv(), a[0], a[1], st, fr, node):
        for y, r in lib.binop(ast.Mod(), a[0], a[1], x, fr, node):
            out.append((y, tup([q, r])))
    return out


def b_round(lib, a, kw, st, fr, node):
    if a[0].ty == "int":
        return [(st, a[0])]
    return unknown(lib, "round", st, fr, node)


def b_pow(lib, a, kw, st, fr, node):
    import ast
    if len(a) == 2:
        return lib.binop(ast.Pow(), a[0], a[1], st, fr, node)
    return unknown(lib, "pow", st, fr, node)


def b_ord(lib, a, kw, st, fr, node):
    v = a[0]
    if v.op == "const":
        try:
            return [(st, const(ord(T.cval(v))))]
        except TypeError:
            pass
    if v.op == "slice" and T.bytes_like(v.ty):
        return [(st, mk("byteat", T.strip_copy(v.args[0]), v.args[1], ty="int"))]
    return [(st, mk("ord", v, ty="int"))]


def b_chr(lib, a, kw, st, fr, node):
    if a[0].op == "const":
        return [(st, const(chr(T.cval(a[0]))))]
    return [(st, mk("chr", a[0], ty="str"))]


def b_slice(lib, a, kw, st, fr, node):
    v = list(a)
    if len(v) == 1:
        v = [T.NONE, v[0], T.NONE]
    elif len(v) == 2:
        v = v + [T.NONE]
    return [(st, mk("sliceobj", *v, ty="slice"))]


def b_object(lib, a, kw, st, fr, node):
    return [(st, lib.i.alloc(st, fr, node, InstO("object", {}), "object"))]


def b_property(lib, a, kw, st, fr, node):
    return [(st, mk("prop", *a[:2], ty="any"))]


def b_staticmethod(lib, a, kw, st, fr, node):
    return [(st, mk("staticmeth", a[0], ty="any"))]


def b_classmethod(lib, a, kw, st, fr, node):
    return [(st, mk("classmeth", a[0], ty="any"))]


def b_super(lib, a, kw, st, fr, node):
    if len(a) == 2 and a[0].op == "class":
        return [(st, mk("super", a[0].args[0], a[1], ty="super"))]
    return unknown(lib, "super", st, fr, node)


# ------------------------------------------------------------------ codecs
def enc_of(args, kw):
    e = args[0] if args else kw.get("encoding", const("utf-8"))
    err = args[1] if len(args) > 1 else kw.get("errors", const("strict"))
    return e, err


def codec_ok(lib, enc, st, fr, node, operands=()):
    i = lib.i
    enc = st.norm(enc)
    if enc.op == "const" and isinstance(T.cval(enc), str):
        try:
            _codecs.lookup(T.cval(enc))
            return st
        except (LookupError, ValueError):
            i.raise_(st, fr, ["LookupError"], "unknown encoding", node)
            return None
    if enc.ty != "str":
        if enc.op == "top":
            i.undecide("unknown encoding value", fr, node, st)
            return st
        i.raise_(st, fr, ["TypeError"], "encoding must be str", node)
        return None
    return split_guarded(lib, st, pred("codec", enc), ("ValueError", pred("nullname", enc), "LookupError"), fr, node,
                         "unknown encoding", (enc,))


def decode(lib, v, args, kw, st, fr, node):
    """v.decode(encoding, errors)"""
    i = lib.i
    enc, err = enc_of(args, kw)
    if v.op == "top":
        return unknown(lib, "decode of unknown", st, fr, node)
    if lib.kind(v, st) not in BYTESLIKE:
        i.raise_(st, fr, ["TypeError"], "decode", node)
        return []
    x = st.norm(T.strip_copy(lib.content(v, st)))
    enc = st.norm(enc)
    if enc.op != "const" and enc.ty == "str":
        for w, empty in i.fork(st, c_eq0(st.norm(T.length(x)))):
            if empty:
                done = [(w, T.EMPTY_S)]          # nothing to decode: the codec is not looked up
            else:
                live = w
        if "live" not in locals():
            return done
        if "done" not in locals():
            done = []
        st = live
    else:
        done = []
    return done + decode_some(lib, x, enc, err, st, fr, node)


def decode_some(lib, x, enc, err, st, fr, node):
    i = lib.i
    y = codec_ok(lib, enc, st, fr, node)
    if y is None:
        return []
    if err.op != "const":
        i.undecide("error handler", fr, node, y)
    elif T.cval(err) != "strict":
        return [(y, mk("decode", x, enc, err, ty="str"))]
    if enc.op == "const" and x.op == "const":
        try:
            return [(y, const(T.cval(x).decode(T.cval(enc))))]
        except UnicodeError:
            i.raise_(y, fr, ["UnicodeDecodeError"], "decode", node, (x,))
            return []
    if enc.op == "const":
        n = _codecs.lookup(T.cval(enc)).name
        if x.op == "encode" and x.args[1].op == "const" and _codecs.lookup(T.cval(x.args[1])).name == n:
            return [(y, x.args[0])]
        if n in ("iso8859-1", "latin-1", "cp437"):
            return [(y, mk("decode", x, const(n), ty="str"))]
    z = split_guarded(lib, y, pred("decodable", x, enc), ("UnicodeError", pred("plain-decode", x, enc), "UnicodeDecodeError")
                      if enc.op != "const" else ("UnicodeError", T.FALSE, "UnicodeDecodeError"), fr, node, "decode", (x,))
    if z is None:
        return []
    return [(z, mk("decode", x, enc, ty="str"))]


def encode(lib, v, args, kw, st, fr, node):
    i = lib.i
    enc, err = enc_of(args, kw)
    enc = st.norm(enc)
    v = st.norm(v)
    y = codec_ok(lib, enc, st, fr, node)
    if y is None:
        return []
    if err.op != "const":
        i.undecide("error handler", fr, node, y)
    elif T.cval(err) != "strict":
        return [(y, mk("encode", v, enc, err, ty="bytes"))]
    if enc.op == "const":
        if v.op == "const":
            try:
                return [(y, const(T.cval(v).encode(T.cval(enc))))]
            except UnicodeError:
                i.raise_(y, fr, ["UnicodeEncodeError"], "encode", node, (v,))
                return []
        n = _codecs.lookup(T.cval(enc)).name
        base = v
        while base.op in ("upper", "lower"):
            base = base.args[0]
        if base.op in ("hex", "fmt0", "str_of_int") and n in ("ascii", "utf-8", "iso8859-1"):
            return [(y, mk("encode", v, const("ascii"), ty="bytes"))]
        enc = const(n)
    z = split_guarded(lib, y, pred("encodable", v, enc), ("UnicodeError", pred("plain-encode", v, enc), "UnicodeEncodeError")
                      if enc.op != "const" else ("UnicodeError", T.FALSE, "UnicodeEncodeError"), fr, node, "encode", (v,))
    if z is None:
        return []
    return [(z, mk("encode", v, enc, ty="bytes"))]


def hexcore(x):
    """the hex digits behind an ASCII encoding"""
    if x.op == "encode" and x.args[1].op == "const" and len(x.args) == 2 and \
            _codecs.lookup(T.cval(x.args[1])).name in ("ascii", "utf-8", "iso8859-1"):
        return x.args[0]
    if x.op in ("upper", "lower"):
        return hexcore(x.args[0]) if x.args[0].op == "hex" else x
    return x


def unhexlify(lib, args, st, fr, node, fname="a2b_hex"):
    i = lib.i
    v = args[0]
    if v.op == "top":
        return unknown(lib, "unhexlify of unknown", st, fr, node)
    k = lib.kind(v, st)
    classes = ["binascii.Error", "ValueError"]
    if k == "any":
        z = st.copy()
        i.raise_(z, fr, ["TypeError"] + classes, fname, node, (v,))
        return [(st, mk("unhex", v, ty="bytes"))]
    if k not in ("str",) + BYTESLIKE:
        i.raise_(st, fr, ["TypeError"], fname, node)
        return []
    x = hexcore(st.norm(T.strip_copy(lib.content(v, st))))
    if x.op == "const":
        import binascii
        try:
            return [(st, const(binascii.a2b_hex(T.cval(x))))]
        except ValueError:
            i.raise_(st, fr, ["binascii.Error"], fname, node, (v,))
            return []
    if x.op == "hex":
        return [(st, T.tobytes(x.args[0]))]
    if k != "str":
        classes = ["binascii.Error"]
    if x.op in ("fmt0", "str_of_int") and st.decide(c_le(const(0), x.args[0])):
        y = guarded(lib, st, c_not(c_odd(st.norm(T.length(x)))), fr, node, ["binascii.Error"], fname, (v,))
        return [(y, lib.unhex_term(x))] if y is not None else []
    y = guarded(lib, st, pred("hexstr", x), fr, node, classes, fname, (v,))
    if y is None:
        return []
    if not y.assume(c_odd(y.norm(T.length(x))), False):
        return []
    return [(y, lib.unhex_term(x))]


def fromhex(lib, cls, args, st, fr, node):
    i = lib.i
    v = args[0]
    k = lib.kind(v, st)

    def out(st, c):
        if cls == "bytearray":
            return (st, i.alloc(st, fr, node, BArrO(c), "bytearray"))
        return (st, c)
    if k != "str":
        if k == "any" or v.op == "top":
            z = st.copy()
            i.raise_(z, fr, ["TypeError", "ValueError"], "fromhex", node, (v,))
            return [out(st, mk("fromhex_ws", v, ty="bytes"))]
        i.raise_(st, fr, ["TypeError"], "fromhex", node)
        return []
    x = hexcore(st.norm(v))
    if x.op == "const":
        try:
            return [out(st, const(bytes.fromhex(T.cval(x))))]
        except ValueError:
            i.raise_(st, fr, ["ValueError"], "fromhex", node, (v,))
            return []
    if x.op == "hex":
        return [out(st, T.tobytes(x.args[0]))]
    if x.op in ("fmt0", "str_of_int") and st.decide(c_le(const(0), x.args[0])):
        y = guarded(lib, st, c_not(c_odd(st.norm(T.length(x)))), fr, node, ["ValueError"], "fromhex", (v,))
        return [out(y, lib.unhex_term(x))] if y is not None else []
    if st.decide(pred("hexstr", x)):
        return [out(st, lib.unhex_term(x))]
    # white space between the digits is skipped, so this accepts more than hex digits
    y = guarded(lib, st, pred("fromhexable", x), fr, node, ["ValueError"], "fromhex", (v,))
    return [out(y, mk("fromhex_ws", x, ty="bytes"))] if y is not None else []


def from_bytes(lib, args, kw, st, fr, node):
    i = lib.i
    x = args[0]
    order = args[1] if len(args) > 1 else kw.get("byteorder", const("big"))
    signed = kw.get("signed", T.FALSE)
    if lib.kind(x, st) not in BYTESLIKE:
        if x.op == "ref" or x.op == "lazy":
            r = b_bytes(lib, [x], {}, st, fr, node)
            return [z for y, v in r for z in from_bytes(lib, [v] + list(args[1:]), kw, y, fr, node)]
        if x.op == "top":
            return unknown(lib, "from_bytes of unknown", st, fr, node)
        i.raise_(st, fr, ["TypeError"], "from_bytes", node)
        return []
    x = st.norm(T.strip_copy(lib.content(x, st)))
    if x.op == "const" and order.op == "const" and signed.op == "const":
        return [(st, const(int.from_bytes(T.cval(x), T.cval(order), signed=T.cval(signed))))]
    r = mk("from_bytes", x, order, signed, ty="int")
    if x.op in ("bytesof",):
        b = lib.to_bits(r, st)
        if b is not None:
            from .interp import make_bits
            return [(st, make_bits(b))]
    if x.op == "to_bytes" and x.args[2] is order and T.is_const(signed, False):
        return [(st, x.args[0])]
    return [(st, r)]


def to_bytes(lib, n, args, kw, st, fr, node):
    i = lib.i
    ln = args[0] if args else kw.get("length", const(1))
    order = args[1] if len(args) > 1 else kw.get("byteorder", const("big"))
    signed = kw.get("signed", T.FALSE)
    n, ln = st.norm(n), st.norm(ln)
    st.event("alloc", "to_bytes", ln, fr.where(node), lib.alloc_ok(ln, st))
    if n.op == ln.op == order.op == signed.op == "const":
        try:
            return [(st, const(int(T.cval(n)).to_bytes(T.cval(ln), T.cval(order), signed=T.cval(signed))))]
        except OverflowError:
            i.raise_(st, fr, ["OverflowError"], "to_bytes", node, (n,))
            return []
    b = lib.to_bits(n, st)
    if b is not None and ln.op == "const" and order.op == "const" and T.is_const(signed, False):
        from .interp import make_bits, make_bytesof
        w = T.cval(ln)
        hi = bdd.any_(b[8 * w:])
        z = st.copy()
        z.gpc = bdd.and_(z.gpc, hi)
        if z.gpc != bdd.FALSE:
            i.raise_(z, fr, ["OverflowError"], "to_bytes", node, (n,))
        st.gpc = bdd.and_(st.gpc, bdd.not_(hi))
        if st.gpc == bdd.FALSE:
            return []
        b = (b + [bdd.FALSE] * (8 * w))[:8 * w]
        els = [make_bits(b[8 * k:8 * k + 8]) for k in range(w)]
        if T.cval(order) == "big":
            els.reverse()
        return [(st, make_bytesof(els))]
    y = split_guarded(lib, st, pred("fits", n, ln, signed), ("OverflowError", c_le(const(0), ln), "ValueError"), fr, node, "to_bytes", (n,))
    if y is None:
        return []
    if T.is_const(signed, False):
        return [(y, mk("to_bytes", n, ln, order, ty="bytes"))]
    return [(y, mk("to_bytes_signed", n, ln, order, ty="bytes"))]


# ------------------------------------------------------------------ streams
def write(lib, f, text, st, fr, node):
    i = lib.i
    st.event("write", f, st.norm(text), fr.where(node))
    return [(st, T.NONE)]


# ------------------------------------------------------------------ methods
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "intersection_update", "difference_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "__iadd__"}


def method(lib, o, name, args, kw, st, fr, node):
    i = lib.i
    k = lib.kind(o, st)
    if o.op == "top":
        return unknown(lib, "method of unknown", st, fr, node)
    if k == "inst":
        ob = i.obj(st, o)
        if isinstance(ob.cls, str):
            if ob.cls == "BytesIO":
                return bytesio(lib, o, ob, name, args, kw, st, fr, node)
            if ob.cls == "StringIO":
                return stringio(lib, o, ob, name, args, kw, st, fr, node)
            return inst_method(lib, o, ob, name, args, kw, st, fr, node)
        c, m = ob.cls.lookup(name)
        if m is not None:
            return i.call(m, [o] + list(args), kw, st, fr, node)
        return inst_method(lib, o, ob, name, args, kw, st, fr, node)
    if name == "__class__":
        return unknown(lib, name, st, fr, node)
    if name == "__len__":
        return b_len(lib, [o], {}, st, fr, node)
    if name == "__repr__":
        return b_repr(lib, [o], {}, st, fr, node)
    if name == "__str__":
        return b_str(lib, [o], {}, st, fr, node)
    if name == "__contains__":
        return lib.contains(o, args[0], st, fr, node)
    if name == "__getitem__":
        return i.getitem(o, args[0], st, fr, node)
    if name == "__setitem__":
        return [(x, T.NONE) for x in i.setitem(o, args[0], args[1], st, fr, node)]
    if name == "__eq__":
        return lib.eq(o, args[0], st, fr, node)
    if name == "__iter__":
        return b_iter(lib, [o], {}, st, fr, node)
    if name == "__next__":
        return b_next(lib, [o], {}, st, fr, node)
    if name == "__format__":
        return lib.format_value(o, args[0], -1, st, fr, node)
    if k == "stream":
        if name == "write":
            return [(x, T.NONE) for x, _ in write(lib, o, args[0], st, fr, node)]
        if name == "writelines":
            sts = lib.loops.each(node, args[0], st, fr, lambda y, v: [x for x, _ in write(lib, o, v, y, fr, node)])
            return [(x, T.NONE) for x in sts]
        st.event("stream-method", o, name, fr.where(node))
        return [(st, T.NONE)]
    if k == "dict":
        return dict_method(lib, o, name, args, kw, st, fr, node)
    if k in ("list", "iter") and o.op == "ref":
        return list_method(lib, o, name, args, kw, st, fr, node)
    if k in ("set", "frozenset"):
        return set_method(lib, o, name, args, kw, st, fr, node)
    if o.op == "view":
        if name == "isdisjoint":
            pass
        out = []
        for x, s in lib.make_set(o, st, fr, node):
            out += set_method(lib, s, name, args, kw, x, fr, node)
        return out
    if k == "str":
        return str_method(lib, o, name, args, kw, st, fr, node)
    if k in BYTESLIKE:
        return bytes_method(lib, o, name, args, kw, st, fr, node)
    if k in ("int", "bool"):
        if name == "to_bytes":
            return to_bytes(lib, o, args, kw, st, fr, node)
        if name == "bit_length":
            if o.op == "const":
                return [(st, const(T.cval(o).bit_length()))]
            return [(st, mk("bit_length", o, ty="int"))]
        if name in ("bit_count",):
            if o.op == "const":
                return [(st, const(T.cval(o).bit_count()))]
            b = lib.to_bits(o, st)
            if b is not None:
                return [(st, count_guards(b, st))]
        if name == "__index__" or name == "__int__":
            return [(st, o)]
        if name == "from_bytes":
            return from_bytes(lib, args, kw, st, fr, node)
    if k == "tuple":
        if name == "index" or name == "count":
            if o.op == "tuple" and all(x.op == "const" for x in o.args) and args[0].op == "const":
                try:
                    return [(st, const(getattr(tuple(T.cval(x) for x in o.args), name)(T.cval(args[0]))))]
                except ValueError:
                    i.raise_(st, fr, ["ValueError"], name, node)
                    return []
    if k == "generator":
        if name in ("close",):
            return [(st, T.NONE)]
    if k == "any":
        # method of a value of unknown type
        z = st.copy()
        i.raise_(z, fr, ["AttributeError", "TypeError", "ValueError"], "method %s" % name, node, (o,))
        i.undecide("method %s of untyped value" % name, fr, node, st)
        return [(st, T.top("method of untyped value"))]
    if o.op == "extattr":
        return external(lib, o.args[0] + "." + name, args, kw, st, fr, node)
    if o.op == "cached" and name in ("cache_clear", "cache_info"):
        return [(st, T.NONE)]
    return unknown(lib, "method %s of %s" % (name, k), st, fr, node)


def bytesio(lib, o, ob, name, args, kw, st, fr, node):
    i = lib.i
    val, pos = ob.attrs["value"], ob.attrs["pos"]

    def put(x, **k):
        n = i.obj(x, o).copy()
        n.attrs.update(k)
        i.write(x, o, n, fr, node, name)
    if name == "read" and len(args) <= 1 and not kw:
        out = []
        hi = None if not args or T.is_const(args[0], None) else T.add(pos, args[0])
        if hi is not None and st.decide(c_le(const(0), args[0])) is not True:
            return unknown(lib, "BytesIO.read of a length that may be negative", st, fr, node)
        for x, v in lib.slices(val, pos, T.NONE if hi is None else hi, st, fr, node):
            put(x, pos=T.add(pos, T.length(v)))
            out.append((x, v))
        return out
    if name == "tell":
        return [(st, pos)]
    if name == "seek" and len(args) == 1 and st.decide(c_le(const(0), args[0])) is True:
        put(st, pos=args[0])
        return [(st, args[0])]
    if name in ("getvalue", "getbuffer"):
        return [(st, val)]
    if name == "write" and T.is_const(pos, 0) and T.is_const(val, b"") or name == "write" and pos is T.length(val):
        new = T.concat([val, args[0]], "bytes")
        put(st, value=new, pos=T.length(new))
        return [(st, T.length(args[0]))]
    if name in ("close", "flush"):
        return [(st, T.NONE)]
    return unknown(lib, "BytesIO.%s" % name, st, fr, node)


def stringio(lib, o, ob, name, args, kw, st, fr, node):
    i = lib.i
    if name == "write":
        n = ob.copy()
        n.attrs["value"] = T.concat([ob.attrs["value"], args[0]], "str")
        i.write(st, o, n, fr, node, "write")
        return [(st, T.length(args[0]))]
    if name == "getvalue":
        return [(st, ob.attrs["value"])]
    if name in ("close", "flush"):
        return [(st, T.NONE)]
    return unknown(lib, "StringIO.%s" % name, st, fr, node)


def dict_method(lib, d, name, a, kw, st, fr, node):
    i = lib.i
    if name == "get":
        return lib.dict_get(d, a[0], st, fr, node, a[1] if len(a) > 1 else T.NONE, raising=False)
    if name in ("keys", "values", "items"):
        return [(st, mk("view", name, d, ty="view"))]
    if name == "pop":
        return [z for x, v in lib.dict_pop(d, a[0], a[1] if len(a) > 1 else None, st, fr, node)
                for z in ([(x, v)] if v.op == "ite" else i.force(v, x, fr, node))]
    if name == "setdefault":
        out = []
        dv = a[1] if len(a) > 1 else T.NONE
        if "#known" not in kw and lib.symbolic_keys(d, a[0], st):
            ks = lib.which_key(d, a[0], st, fr, node)
            if len(ks) != 1 or ks[0][0] is not st or ks[0][1] is not a[0]:
                return [z for x, kk in ks for z in dict_method(lib, d, name, [kk] + list(a[1:]), {"#known": 1}, x, fr, node)]
        for x, b in i.fork(st, lib.haskey(d, a[0], st)):
            if b:
                out += i.force(lib.dict_value(d, x.norm(a[0]), x, fr, node), x, fr, node)
            else:
                out += [(y, dv) for y in lib.setitem(d, a[0], dv, x, fr, node)]
        return out
    if name == "update":
        sts = [st]
        if a:
            sts = lib.dict_update(d, a[0], st, fr, node)
        for k, v in kw.items():
            sts = [z for y in sts for z in lib.setitem(d, const(k), v, y, fr, node)]
        return [(x, T.NONE) for x in sts]
    if name == "copy":
        return [(st, i.alloc(st, fr, node, i.obj(st, d).copy(), "copy"))]
    if name == "clear":
        i.write(st, d, DictO(), fr, node, "clear")
        return [(st, T.NONE)]
    if name == "popitem":
        i.write(st, d, DictO(), fr, node, "popitem")
        return unknown(lib, "popitem", st, fr, node)
    if name == "__delitem__":
        return [(x, T.NONE) for x in lib.delitem(d, a[0], st, fr, node)]
    if name == "fromkeys":
        return static_method(lib, "dict", name, a, kw, st, fr, node)
    i.raise_(st, fr, ["AttributeError"], name, node)
    return []


def list_method(lib, l, name, a, kw, st, fr, node):
    i = lib.i
    o = i.obj(st, l)
    if name in ("popleft", "appendleft"):
        # a deque
        a, name = ([const(0)], "pop") if name == "popleft" else ([const(0)] + list(a), "insert")
    if name == "append":
        n = o.copy()
        n.items = n.items + ((bdd.TRUE, a[0]),)
        i.write(st, l, n, fr, node, "append")
        return [(st, T.NONE)]
    if name in ("extend", "__iadd__"):
        out = []
        e = lib.elements(a[0], st, fr, node) if a[0].op != "lazy" else None
        if e is not None:
            n = o.copy()
            n.items = n.items + tuple(e[0])
            n.unordered = n.unordered or e[1]
            i.write(st, l, n, fr, node, "extend")
            return [(st, T.NONE)]

        def body(y, v):
            n = i.obj(y, l).copy()
            n.items = n.items + ((bdd.TRUE, v),)
            i.write(y, l, n, fr, node, "extend")
            return [y]
        return [(x, T.NONE) for x in lib.loops.each(node, a[0], st, fr, body)]
    if name == "sort":
        return [(x, T.NONE) for x in sort_list(lib, l, kw, st, fr, node)]
    if name == "copy":
        return [(st, i.alloc(st, fr, node, o.copy(), "copy"))]
    if name == "clear":
        i.write(st, l, ListO((), None, False, o.ty), fr, node, "clear")
        return [(st, T.NONE)]
    fixed = o.pre is None and all(g == bdd.TRUE for g, _ in o.items)
    if name == "reverse" and o.pre is None:
        i.write(st, l, ListO(tuple(reversed(o.items)), None, o.unordered, o.ty), fr, node, "reverse")
        return [(st, T.NONE)]
    if name == "insert" and a[0].op == "const" and (fixed or T.cval(a[0]) == 0 and o.pre is None):
        it = list(o.items)
        it.insert(T.cval(a[0]), (bdd.TRUE, a[1]))
        i.write(st, l, ListO(it, None, o.unordered, o.ty), fr, node, "insert")
        return [(st, T.NONE)]
    if name == "pop":
        k = a[0] if a else const(-1)
        if fixed and k.op == "const":
            it = list(o.items)
            try:
                g, v = it.pop(T.cval(k))
            except IndexError:
                i.raise_(st, fr, ["IndexError"], "pop", node)
                return []
            i.write(st, l, ListO(it, None, o.unordered, o.ty), fr, node, "pop")
            return [(st, v)]
        if o.pre is None and k.op == "const" and T.cval(k) in (0, -1):
            # first / last present element
            seq = list(enumerate(o.items))
            if T.cval(k) == -1:
                seq.reverse()
            out, live = [], [st]
            for n, (g, v) in seq:
                nxt = []
                for x in live:
                    for y, b in i.fork(x, c_guard(g)):
                        if b:
                            it = list(o.items)
                            it[n] = (bdd.FALSE, v)
                            i.write(y, l, ListO([p for p in it if p[0] != bdd.FALSE], None, o.unordered, o.ty), fr, node, "pop")
                            out.append((y, v))
                        else:
                            nxt.append(y)
                live = nxt
                if len(out) > 8:
                    break
            else:
                for x in live:
                    i.raise_(x, fr, ["IndexError"], "pop", node)
                return out
    if name in ("index", "count") and fixed:
        return method(lib, tup([v for _, v in o.items]), name, a, kw, st, fr, node)
    if name == "remove" and fixed and a[0].op == "const" and all(v.op == "const" for _, v in o.items):
        it = list(o.items)
        for n, (g, v) in enumerate(it):
            if v is a[0]:
                del it[n]
                i.write(st, l, ListO(it, None, o.unordered, o.ty), fr, node, "remove")
                return [(st, T.NONE)]
        i.raise_(st, fr, ["ValueError"], "remove", node)
        return []
    if name == "remove" and o.pre is None and a[0].op == "const" and all(v.op == "const" for _, v in o.items):
        hit = [n for n, (g, v) in enumerate(o.items) if v is a[0]]
        out = []
        if len(hit) <= 1:
            g = o.items[hit[0]][0] if hit else bdd.FALSE
            for x, b in i.fork(st, c_guard(g)):
                if not b:
                    i.raise_(x, fr, ["ValueError"], "remove", node)
                else:
                    it = [p for n, p in enumerate(o.items) if n not in hit]
                    i.write(x, l, ListO(it, None, o.unordered, o.ty), fr, node, "remove")
                    out.append((x, T.NONE))
            return out
    if name in MUTATORS:
        i.write(st, l, ListO((), T.top("list." + name), True, o.ty), fr, node, name)
    elif not hasattr(list, name):
        i.raise_(st, fr, ["AttributeError"], name, node)
        return []
    return unknown(lib, "list.%s" % name, st, fr, node)


def set_method(lib, s, name, a, kw, st, fr, node):
    i = lib.i
    o = i.obj(st, s)
    if name == "add":
        lib.set_add(st, s, a[0], fr, node)
        return [(st, T.NONE)]
    if name in ("discard", "remove"):
        x = st.norm(a[0])
        c = lib.in_set(o, x, st)
        out = []
        if x.op == "const" and not o.syms and not o.unknown:
            if name == "remove":
                y = guarded(lib, st, c, fr, node, ["KeyError"], "set.remove")
                if y is None:
                    return []
                st = y
            n = i.obj(st, s).copy()
            n.items.pop(x, None)
            i.write(st, s, n, fr, node, name)
            return [(st, T.NONE)]
        if name == "remove":
            st = guarded(lib, st, c, fr, node, ["KeyError"], "set.remove")
            if st is None:
                return []
        n = i.obj(st, s).copy()
        if x.op == "const":
            n.items.pop(x, None)
            gone = tuple((g, t) for g, t in n.syms if not (t is x))
            if any(t.ty == x.ty and t.ty == "int" for g, t in gone):
                gone = tuple((bdd.and_(g, bdd.not_(bdd.var(("eqn", t, T.cval(x))))) if t.ty == "int" else g, t)
                             for g, t in gone)
            n.syms = gone
        else:
            if any(t is x for _, t in n.syms):
                n.syms = tuple((g, t) for g, t in n.syms if t is not x)
            else:
                n.unknown = "element removed"
        i.write(st, s, n, fr, node, name)
        return [(st, T.NONE)]
    if name == "clear":
        i.write(st, s, SetO(), fr, node, name)
        return [(st, T.NONE)]
    if name == "copy":
        return [(st, i.alloc(st, fr, node, o.copy(), "copy"))]
    if name == "pop":
        n = o.copy()
        n.unknown = "popped"
        i.write(st, s, n, fr, node, name)
        return unknown(lib, "set.pop", st, fr, node)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        return lib.set_op(s, a, name, st, fr, node)
    if name in ("update", "intersection_update", "difference_update", "symmetric_difference_update"):
        m = "union" if name == "update" else name[:-7]
        return lib.set_op(s, a, m, st, fr, node, True)
    if name == "issubset":
        return lib.issubset(s, a[0], st, fr, node)
    if name == "issuperset":
        out = []
        for x, t in lib.make_set(a[0], st, fr, node):
            out += lib.issubset(t, s, x, fr, node)
        return out
    if name == "isdisjoint":
        out = []
        for x, t in lib.set_op(s, a, "intersection", st, fr, node):
            out.append((x, c_not(lib.cond(t, x, fr, node))))
        return out
    return unknown(lib, "set.%s" % name, st, fr, node)


def str_method(lib, s, name, a, kw, st, fr, node):
    i = lib.i
    from .lib import STR_PREDS
    s = st.norm(s)
    if name in STR_PREDS:
        if s.op == "const":
            return [(st, const(getattr(T.cval(s), name)()))]
        if s.op == "key":
            if s.args[0] in KEY_PREDS and name not in ("isidentifier", "isupper", "islower", "istitle"):
                if not (s.args[0] == "signed" and name == "isprintable"):
                    return [(st, const(name in KEY_PREDS[s.args[0]]))]
            if s.args[0] == "other" and name in ("isnumeric", "isdigit", "isdecimal"):
                return [(st, T.FALSE)]
        b = s
        while b.op in ("upper", "lower"):
            b = b.args[0]
        if b.op == "hex" and name == "isascii":
            return [(st, T.TRUE)]
        if b.op in ("str_of_int", "fmt0") and st.decide(c_le(const(0), b.args[0])):
            if name in ("isascii", "isdigit", "isdecimal", "isnumeric", "isalnum", "isprintable"):
                return [(st, T.TRUE)]
        if b.op == "bitstr" and len(b.args) and name in ("isascii", "isdigit", "isdecimal", "isnumeric", "isalnum"):
            return [(st, T.TRUE)]
        return [(st, pred(name, s))]
    if name == "encode":
        return encode(lib, s, a, kw, st, fr, node)
    if s.op == "const" and all(x.op == "const" for x in a) and not kw and name not in (
            "join", "format", "split", "rsplit", "splitlines", "partition", "rpartition", "format_map", "translate"):
        try:
            return [(st, const(getattr(T.cval(s), name)(*[T.cval(x) for x in a])))]
        except (TypeError, ValueError) as e:
            i.raise_(st, fr, [type(e).__name__], name, node)
            return []
        except AttributeError:
            pass
    if name == "upper":
        return [(st, T.upper(s))]
    if name == "lower":
        return [(st, T.lower(s))]
    if name in ("casefold", "title", "capitalize", "swapcase"):
        if name == "casefold" and s.op == "hex":
            return [(st, s)]
        return [(st, mk(name, s, ty="str"))]
    if name == "zfill":
        if s.op == "str_of_int" and st.decide(c_le(const(0), s.args[0])):
            return [(st, lib.fmt0(s.args[0], a[0], st))]
        return [(st, mk("zfill", s, st.norm(a[0]), ty="str"))]
    if name in ("ljust", "rjust", "center"):
        fill = a[1] if len(a) > 1 else const(" ")
        al = {"ljust": "<", "rjust": ">", "center": "c"}[name]
        st.event("alloc", "pad", a[0], fr.where(node), lib.alloc_ok(a[0], st))
        if fill.op == "const":
            if len(T.cval(fill)) != 1:
                i.raise_(st, fr, ["TypeError"], name, node)
                return []
            if name == "rjust" and T.cval(fill) == "0" and s.op == "str_of_int" and st.decide(c_le(const(0), s.args[0])):
                return [(st, lib.fmt0(s.args[0], a[0], st))]
            return [(st, lib.pad(s, st.norm(a[0]), al, T.cval(fill), st))]
        y = guarded(lib, st, c_eq0(T.sub(T.length(fill), const(1))), fr, node, ["TypeError"], name)
        if y is None:
            return []
        return [(y, mk("padv", s, y.norm(a[0]), al, y.norm(fill), ty="str"))]
    if name in ("startswith", "endswith"):
        return affix(lib, s, name, a, st, fr, node)
    if name in ("removeprefix", "removesuffix"):
        out = []
        p = a[0]
        for x, r in affix(lib, s, "startswith" if name == "removeprefix" else "endswith", a, st, fr, node):
            for y, b in i.truth(r, x, fr, node):
                if not b:
                    out.append((y, s))
                elif name == "removeprefix":
                    out.append((y, lib.slice_term(s, T.length(p), None, y)))
                else:
                    out.append((y, lib.slice_term(s, const(0), T.sub(T.length(s), T.length(p)), y)))
        return out
    if name == "join":
        return join(lib, s, a[0], st, fr, node)
    if name == "format":
        return lib.str_format(s, a, kw, st, fr, node)
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        if s.op == "const" and all(x.op == "const" for x in a) and not kw:
            r = getattr(T.cval(s), name)(*[T.cval(x) for x in a])
            vs = [const(x) for x in r]
            if name.endswith("partition"):
                return [(st, tup(vs))]
            return [(st, i.alloc(st, fr, node, ListO([(bdd.TRUE, v) for v in vs])))]
        if name.endswith("partition"):
            return [(st, tup([mk("part", s, tuple(a), name, k, ty="str") for k in range(3)]))]
        return [(st, i.alloc(st, fr, node, ListO((), mk("split", s, tuple(a), name, ty="any"))))]
    if name in ("find", "rfind", "count", "index", "rindex"):
        if name in ("index", "rindex"):
            y = guarded(lib, st, pred("contains", s, a[0]), fr, node, ["ValueError"], name)
            if y is None:
                return []
            st = y
        return [(st, mk("str" + name, s, *a, ty="int"))]
    if name in ("strip", "lstrip", "rstrip", "replace", "translate", "expandtabs"):
        if name.endswith("strip") and s.op in ("str_of_int", "hex", "fmt0") and not a:
            return [(st, s)]
        return [(st, mk(name, s, *[x if x.op != "ref" else T.top("arg") for x in a], ty="str"))]
    if name == "maketrans":
        return unknown(lib, "str.maketrans", st, fr, node)
    if not hasattr(str, name):
        i.raise_(st, fr, ["AttributeError"], name, node)
        return []
    return unknown(lib, "str.%s" % name, st, fr, node)


def affix(lib, s, name, a, st, fr, node):
    i = lib.i
    ps = list(a[0].args) if a[0].op == "tuple" else [a[0]]
    if len(a) > 1:
        return [(st, pred(name, s, *a))]
    out, live = [], [st]
    for p in ps:
        nxt = []
        for x in live:
            n = x.norm(T.length(p))
            for y, b in i.fork(x, c_le(n, T.length(s))):
                if not b:
                    nxt.append(y)
                    continue
                if name == "startswith":
                    sl = lib.slice_term(s, const(0), n, y)
                else:
                    sl = lib.slice_term(s, T.sub(T.length(s), n), None, y)
                for z, r in lib.eq(sl, p, y, fr, node):
                    for w, t in i.truth(r, z, fr, node):
                        if t:
                            out.append((w, T.TRUE))
                        else:
                            nxt.append(w)
        live = nxt
    return out + [(x, T.FALSE) for x in live]


def join(lib, sep, it, st, fr, node):
    i = lib.i
    isb = lib.kind(sep, st) in BYTESLIKE
    ty = "bytes" if isb else "str"
    sep = lib.content(sep, st)
    out = []
    for x, l in lib.to_list(it, st, fr, node):
        o = i.obj(x, l)
        items = [(g, v) for g, v in o.items if bdd.and_(g, x.gpc) != bdd.FALSE]
        bad = False
        for g, v in items:
            k = lib.kind(v, x)
            good = k in BYTESLIKE if isb else k == "str"
            if not good:
                if v.op == "top" or k == "any":
                    i.undecide("join of unknown values", fr, node, x)
                    continue
                z = x.copy()
                z.gpc = bdd.and_(z.gpc, g)
                if z.gpc != bdd.FALSE:
                    i.raise_(z, fr, ["TypeError"], "join", node)
                x.gpc = bdd.and_(x.gpc, bdd.not_(g))
                if x.gpc == bdd.FALSE:
                    bad = True
                    break
        if bad:
            continue
        items = [(g, v) for g, v in items if bdd.and_(g, x.gpc) != bdd.FALSE]
        vals = [T.tobytes(lib.content(v, x)) if isb and v.ty != "any" else v for g, v in items]
        empty_sep = sep.op == "const" and len(T.cval(sep)) == 0
        if o.unordered and len(items) > 1:
            out.append((x, mk("joinunordered", sep, *vals, ty=ty)))
            continue
        sure = all(bdd.implies(x.gpc, g) for g, _ in items)
        if not sure:
            if empty_sep and o.pre is None:
                out.append((x, mk("joing", sep, tuple((g, v) for (g, _), v in zip(items, vals)), ty=ty)))
            else:
                out.append((x, mk("joing", sep, tuple((g, v) for (g, _), v in zip(items, vals)),
                                  o.pre if o.pre is not None else T.NONE, ty=ty)))
            continue
        parts = []
        if o.pre is not None:
            if not empty_sep:
                out.append((x, mk("joinlist", sep, o.pre, *vals, ty=ty)))
                continue
            J = i.joins.get(o.pre)
            parts.append(J if J is not None and J.ty == ty else mk("joined", o.pre, ty=ty))
        for k, v in enumerate(vals):
            if (k or o.pre is not None) and not empty_sep:
                parts.append(sep)
            parts.append(v)
        if not isb and parts and all(p.op in ("bitstr",) or (p.op == "const" and set(T.cval(p)) <= {"0", "1"}) for p in parts):
            from .interp import bitstr_of, make_bitstr
            out.append((x, make_bitstr([g for p in parts for g in bitstr_of(p)])))
            continue
        r = T.concat(parts, ty) if parts else const(b"" if isb else "")
        out.append((x, x.norm(r)))
    return out


def bytes_method(lib, b, name, a, kw, st, fr, node):
    i = lib.i
    k = lib.kind(b, st)
    ref = b if b.op == "ref" else None
    c = st.norm(lib.content(b, st))
    if name == "decode":
        return decode(lib, b, a, kw, st, fr, node)
    if name == "hex":
        if a or kw:
            return [(st, mk("hexsep", T.strip_copy(c), *a, ty="str"))]
        return [(st, T.hexstr(c))]
    if name == "tobytes":
        return [(st, T.tobytes(c))]
    if name == "fromhex":
        return fromhex(lib, k, a, st, fr, node)
    if name == "join":
        return join(lib, b, a[0], st, fr, node)
    if name in MUTATORS and k == "bytearray":
        if ref is None:
            st.event("arg-write", ("arg", "s"), name, None, fr.where(node))
            return [(st, T.NONE)]
        if name == "extend" or name == "__iadd__":
            if lib.kind(a[0], st) in BYTESLIKE:
                i.write(st, ref, BArrO(T.concat([T.tobytes(c), T.tobytes(lib.content(a[0], st))], "bytes")), fr, node, name)
                return [(st, T.NONE)]
            out = []
            for x, v in b_bytes(lib, [a[0]], {}, st, fr, node):
                i.write(x, ref, BArrO(T.concat([T.tobytes(c), v], "bytes")), fr, node, name)
                out.append((x, T.NONE))
            return out
        if name == "append":
            from .interp import make_bytesof
            if lib.kind(a[0], st) not in ("int", "bool"):
                i.raise_(st, fr, ["TypeError"], name, node)
                return []
            out = []
            for x, v in b_bytes(lib, [tup([a[0]])], {}, st, fr, node):
                i.write(x, ref, BArrO(T.concat([T.tobytes(c), v], "bytes")), fr, node, name)
                out.append((x, T.NONE))
            return out
        if name == "clear":
            i.write(st, ref, BArrO(T.EMPTY_B), fr, node, name)
            return [(st, T.NONE)]
        if name == "insert" and T.is_const(a[0], 0):
            out = []
            for x, v in b_bytes(lib, [tup([a[1]])], {}, st, fr, node):
                i.write(x, ref, BArrO(T.concat([v, T.tobytes(c)], "bytes")), fr, node, name)
                out.append((x, T.NONE))
            return out
        if name == "reverse":
            e = lib.elements(c, st, fr, node)
            if e is not None:
                from .interp import make_bytesof
                i.write(st, ref, BArrO(make_bytesof([v for _, v in reversed(e[0])])), fr, node, name)
                return [(st, T.NONE)]
        i.write(st, ref, BArrO(T.top("bytearray." + name, "bytes")), fr, node, name)
        return unknown(lib, "bytearray.%s" % name, st, fr, node)
    if name == "copy" and k == "bytearray":
        return [(st, i.alloc(st, fr, node, BArrO(T.tobytes(c)), "copy"))]
    if c.op == "const" and all(x.op == "const" for x in a) and not kw and name not in ("split", "rsplit", "partition"):
        try:
            return [(st, const(getattr(T.cval(c), name)(*[T.cval(x) for x in a])))]
        except (TypeError, ValueError, AttributeError) as e:
            i.raise_(st, fr, [type(e).__name__], name, node)
            return []
        except KeyError:
            pass
    if name in ("startswith", "endswith"):
        return affix(lib, T.strip_copy(c), name, a, st, fr, node)
    if name in ("isdigit", "isalnum", "isalpha", "isascii", "isspace", "isupper", "islower"):
        return [(st, pred("b" + name, T.strip_copy(c)))]
    if name in ("find", "rfind", "count", "index", "rindex"):
        return [(st, mk("bytes" + name, T.strip_copy(c), *a, ty="int"))]
    if name in ("strip", "lstrip", "rstrip", "replace", "upper", "lower", "ljust", "rjust", "zfill", "center"):
        if name in ("upper", "lower") and c.op == "encode" and len(c.args) == 2 and c.args[0].op in ("hex", "upper", "lower"):
            return [(st, mk("encode", T.upper(c.args[0]) if name == "upper" else T.lower(c.args[0]), c.args[1], ty="bytes"))]
        return [(st, mk("b" + name, T.strip_copy(c), *a, ty="bytes"))]
    if name in ("release", "cast", "toreadonly", "__enter__", "__exit__"):
        return [(st, b)]
    if not hasattr({"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[k], name):
        i.raise_(st, fr, ["AttributeError"], name, node)
        return []
    return unknown(lib, "%s.%s" % (k, name), st, fr, node)


# ------------------------------------------------------------------ standard library
def decorate(lib, what, args, kw, st, fr, node, opts):
    f = args[0]
    if what == "lru_cache":
        return [(st, mk("cached", f, ty="func"))]
    if what == "wraps":
        if f.op == "func":
            st.heap[("static", "wraps", f.args[0].qualname)] = CellO({"of": opts[0]} if opts else {})
        return [(st, f)]
    if what == "dataclass":
        from .classes import make_dataclass
        return make_dataclass(lib, f, dict(opts[0]) if opts else {}, st, fr, node)
    if what == "setter":
        p = opts[0]
        return [(st, mk("prop", p.args[0], f, ty="any"))]
    return unknown(lib, what, st, fr, node)


def external(lib, q, a, kw, st, fr, node):
    i = lib.i
    from .lib import AMBIENT, OUTPUT_MODULES
    root = q.split(".")[0]
    if q in ("binascii.a2b_hex", "binascii.unhexlify"):
        return unhexlify(lib, a, st, fr, node)
    if q in ("binascii.b2a_hex", "binascii.hexlify"):
        if lib.kind(a[0], st) not in BYTESLIKE:
            if a[0].op == "top":
                return unknown(lib, q, st, fr, node)
            i.raise_(st, fr, ["TypeError"], "hexlify", node)
            return []
        h = T.hexstr(st.norm(lib.content(a[0], st)))
        if h.op == "const":
            return [(st, const(T.cval(h).encode()))]
        return [(st, mk("encode", h, const("ascii"), ty="bytes"))]
    if root == "codecs":
        if q == "codecs.decode":
            enc, err = enc_of(a[1:], kw)
            if enc.op == "const" and T.cval(enc) in ("hex", "hex_codec"):
                return unhexlify(lib, [a[0]], st, fr, node)
            return decode(lib, a[0], a[1:], kw, st, fr, node)
        if q == "codecs.encode":
            enc, err = enc_of(a[1:], kw)
            if enc.op == "const" and T.cval(enc) in ("hex", "hex_codec"):
                return external(lib, "binascii.hexlify", [a[0]], {}, st, fr, node)
            if lib.kind(a[0], st) != "str":
                return unknown(lib, q, st, fr, node)
            return encode(lib, a[0], a[1:], kw, st, fr, node)
        if q == "codecs.lookup":
            y = codec_ok(lib, a[0], st, fr, node)
            return [(y, mk("codecinfo", a[0], ty="codecinfo"))] if y is not None else []
    if root == "struct":
        r = struct_call(lib, q, a, kw, st, fr, node)
        if r is not None:
            return r
    if root == "functools":
        if q == "functools.partial":
            return [(st, mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())), ty="func"))]
        if q in ("functools.lru_cache", "functools.cache"):
            if a and a[0].op in ("func",):
                return [(st, mk("cached", a[0], ty="func"))]
            return [(st, mk("decor", "lru_cache", ty="func"))]
        if q == "functools.wraps":
            return [(st, mk("decor", "wraps", *a[:1], ty="func"))]
        if q == "functools.reduce":
            return reduce_(lib, a, st, fr, node)
        if q == "functools.cached_property":
            return [(st, mk("prop", a[0], ty="any"))]
        if q == "functools.singledispatch":
            return unknown(lib, q, st, fr, node)
    if root == "operator":
        n = q.split(".")[1]
        if n in ("itemgetter", "attrgetter", "methodcaller"):
            return [(st, mk("getter", {"itemgetter": "item", "attrgetter": "attr", "methodcaller": "method"}[n], tuple(a), ty="func"))]
        import ast
        ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "floordiv": ast.FloorDiv, "mod": ast.Mod,
               "or_": ast.BitOr, "and_": ast.BitAnd, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift,
               "concat": ast.Add}
        if n in ops:
            return lib.binop(ops[n](), a[0], a[1], st, fr, node)
        cmps = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "is_": ast.Is}
        if n in cmps:
            return lib.compare(cmps[n](), a[0], a[1], st, fr, node)
        if n == "getitem":
            return i.getitem(a[0], a[1], st, fr, node)
        if n == "setitem":
            return [(x, T.NONE) for x in i.setitem(a[0], a[1], a[2], st, fr, node)]
        if n == "not_":
            return [(st, c_not(lib.cond(a[0], st, fr, node)))]
        if n == "contains":
            return lib.contains(a[0], a[1], st, fr, node)
        if n == "index":
            return [(st, a[0])]
        if n == "methodcaller":
            pass
    if root == "itertools":
        n = q[10:]
        if n in ("chain",):
            return [(st, mk("lazy", "chain", *a, ty="iter"))]
        if n == "chain.from_iterable":
            e = lib.fixed_elements(a[0], st)
            if e is not None:
                return [(st, mk("lazy", "chain", *e, ty="iter"))]
            acc = i.alloc(st, fr, node, ListO((), None, False, "list"), "chain")
            fr.live.append(acc.args[0])

            def body(y, v):
                return [x for x, _ in list_method(lib, acc, "extend", [v], {}, y, fr, node)]
            try:
                sts = lib.loops.each(node, a[0], st, fr, body)
            finally:
                fr.live.remove(acc.args[0])
            return [(x, acc) for x in sts]
        if n == "filterfalse":
            return unknown(lib, q, st, fr, node)
        if n in ("count",):
            return unknown(lib, q, st, fr, node)
        if n == "islice":
            e = lib.fixed_elements(a[0], st)
            if e is not None and all(x.op == "const" for x in a[1:]):
                import itertools
                vs = list(itertools.islice(e, *[T.cval(x) for x in a[1:]]))
                return [(st, i.alloc(st, fr, node, ListO([(bdd.TRUE, v) for v in vs], None, False, "iter")))]
        if n == "product":
            es = [lib.elements(x, st, fr, node) for x in a]
            if all(e is not None for e in es) and not kw:
                import itertools
                items = []
                for combo in itertools.product(*[e[0] for e in es]):
                    items.append((bdd.all_([g for g, _ in combo]), tup([v for _, v in combo])))
                return [(st, i.alloc(st, fr, node, ListO(items, None, any(e[1] for e in es), "iter")))]
        if n == "accumulate" or n == "takewhile" or n == "compress":
            if n == "compress":
                e1, e2 = lib.elements(a[0], st, fr, node), lib.elements(a[1], st, fr, node)
                if e1 is not None and e2 is not None and all(g == bdd.TRUE for g, _ in e1[0] + e2[0]):
                    items = []
                    ok = True
                    for (g, v), (h, w) in zip(e1[0], e2[0]):
                        c = i.as_guard(lib.cond(w, st, fr, node))
                        if c is None:
                            ok = False
                            break
                        items.append((c, v))
                    if ok:
                        return [(st, i.alloc(st, fr, node, ListO(items, None, e1[1], "iter")))]
    if root == "contextlib":
        if q == "contextlib.suppress":
            c = []
            for x in a:
                c += lib.class_list(x, st) or []
            return [(st, mk("suppress", tuple(c), ty="any"))]
        if q == "contextlib.contextmanager":
            return [(st, mk("ctxfactory", a[0], ty="func"))]
        if q == "contextlib.nullcontext":
            return [(st, mk("nullctx", a[0] if a else T.NONE, ty="any"))]
        if q == "contextlib.closing":
            return [(st, mk("closing", a[0], ty="any"))]
    if root == "dataclasses":
        if q == "dataclasses.dataclass":
            if a and a[0].op == "class":
                from .classes import make_dataclass
                return make_dataclass(lib, a[0], {}, st, fr, node)
            return [(st, mk("decor", "dataclass", tuple(sorted(kw.items())), ty="func"))]
        if q == "dataclasses.field":
            return [(st, mk("dcfield", tuple(sorted(kw.items())), ty="any"))]
    if root == "copy":
        if q == "copy.copy":
            return shallow(lib, a[0], st, fr, node)
        if q == "copy.deepcopy":
            memo = {}
            return [(st, deep(lib, a[0], st, fr, node, memo))]
    if root == "collections":
        if q == "collections.OrderedDict":
            return b_dict(lib, a, kw, st, fr, node)
        if q == "collections.defaultdict":
            r = i.alloc(st, fr, node, DictO(cls=("defaultdict", a[0] if a else T.NONE)), "dict")
            return [(st, r)]
        if q == "collections.namedtuple":
            return unknown(lib, q, st, fr, node)
        if q == "collections.deque" and (kw or len(a) > 1):
            return unknown(lib, q, st, fr, node)
        if q == "collections.deque":
            return b_list(lib, a[:1], {}, st, fr, node)
    if root == "io":
        if q == "io.StringIO":
            return [(st, i.alloc(st, fr, node, InstO("StringIO", {"value": a[0] if a else T.EMPTY_S}), "io"))]
        if q == "io.BytesIO" and len(a) <= 1 and not kw and (not a or lib.kind(a[0], st) in BYTESLIKE):
            v = a[0] if a else const(b"")
            out = []
            for x, w in (b_bytes(lib, [v], {}, st, fr, node) if a else [(st, v)]):
                out.append((x, i.alloc(x, fr, node, InstO("BytesIO", {"value": w, "pos": const(0)}), "io")))
            return out
    if root == "types" and q.endswith("MappingProxyType"):
        return [(st, a[0])]
    if root in ("typing", "typing_extensions"):
        n = q.split(".")[-1]
        if n == "cast":
            return [(st, a[1])]
        if n in ("TypeVar", "NewType", "ParamSpec"):
            return [(st, mk("extattr", q + "()", ty="any"))]
        if n in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
            return [(st, a[0])]
        if n == "NoReturn":
            return [(st, T.NONE)]
        return [(st, mk("extattr", q + "()", ty="any"))]
    if root == "abc" and a:
        return [(st, a[0])]
    if root == "enum" and q in ("enum.auto", "enum.unique"):
        if q == "enum.unique":
            return [(st, a[0])]
        return [(st, T.sym("auto%s" % fr.where(node), "int"))]
    if root == "textwrap" or root == "re" or root == "math" or root == "string":
        if q == "math.ceil" and a[0].op == "truediv" and a[0].args[1].op == "const":
            k = T.cval(a[0].args[1])
            return [(st, T.floordiv(T.add(a[0].args[0], const(k - 1)), const(k)))]
        if q == "math.floor" and a[0].op == "truediv" and a[0].args[1].op == "const":
            return [(st, T.floordiv(a[0].args[0], a[0].args[1]))]
        return unknown(lib, q, st, fr, node)
    if root in OUTPUT_MODULES:
        st.event("ambient", q, fr.where(node))
        return [(st, mk("extattr", q + "()", ty="any"))]
    if root in AMBIENT:
        st.event("ambient", q, fr.where(node))
        return [(st, mk("ambient", q, ty="any"))]
    if root == "sys":
        if q == "sys.exc_info":
            e = fr.handling[-1] if fr.handling else None
            g = fr
            while e is None and g is not None:
                e = g.handling[-1] if g.handling else None
                g = g.parent
            if e is not None:
                return [(st, tup([T.top("class"), e, T.top("traceback")]))]
        if q == "sys.intern":
            return [(st, a[0])]
        if q == "sys.exit":
            i.raise_(st, fr, ["SystemExit"], "sys.exit", node)
            return []
        st.event("ambient", q, fr.where(node))
        return [(st, mk("ambient", q, ty="any"))]
    return unknown(lib, "call of %s" % q, st, fr, node)


def reduce_(lib, a, st, fr, node):
    i = lib.i
    f, it = a[0], a[1]
    e = lib.elements(it, st, fr, node) if it.op != "lazy" else None
    if e is not None and all(g == bdd.TRUE for g, _ in e[0]):
        vals = [v for _, v in e[0]]
        if len(a) > 2:
            acc = [(st, a[2])]
        elif vals:
            acc = [(st, vals.pop(0))]
        else:
            i.raise_(st, fr, ["TypeError"], "reduce", node)
            return []
        for v in vals:
            acc = [z for x, s in acc for z in i.call(f, [s, v], {}, x, fr, node)]
            acc = i.merge(acc, fr) if len(acc) > 1 else acc
        return acc
    if len(a) > 2:
        env = i.new_addr(st, fr, node, "reduce")
        st.heap[env] = EnvO({"acc": a[2]}, None, None)
        fr.live.append(env)

        def body(y, v):
            out = []
            for z, r in i.call(f, [y.heap[env].vars["acc"], v], {}, y, fr, node):
                z.heap[env] = EnvO({"acc": r}, None, None)
                out.append(z)
            return out
        try:
            sts = lib.loops.each(node, it, st, fr, body)
        finally:
            fr.live.remove(env)
        out = []
        for x in sts:
            out += i.force(x.heap[env].vars["acc"], x, fr, node)
        return out
    return unknown(lib, "reduce", st, fr, node)


def shallow(lib, v, st, fr, node):
    i = lib.i
    if v.op == "ref":
        o = i.obj(st, v)
        if o.kind in ("list", "dict", "set", "bytearray", "inst"):
            return [(st, i.alloc(st, fr, node, o.copy(), "copy"))]
    return [(st, v)]


def deep(lib, v, st, fr, node, memo):
    i = lib.i
    if v.op == "tuple":
        return tup([deep(lib, x, st, fr, node, memo) for x in v.args])
    if v.op != "ref":
        return v
    if v in memo:
        return memo[v]
    o = i.obj(st, v)
    if o.kind == "dict" and (o.base is not None or o.loops):
        i.undecide("deepcopy of a symbolic mapping", fr, node, st)
        n = o.copy()
        r = i.alloc(st, fr, node, n, "deep")
        return r
    r = i.alloc(st, fr, node, o.copy(), "deep")
    memo[v] = r
    n = i.obj(st, r).copy()
    if o.kind == "dict":
        n.items = {k: (g, deep(lib, x, st, fr, node, memo), s) for k, (g, x, s) in o.items.items()}
    elif o.kind == "list":
        n.items = tuple((g, deep(lib, x, st, fr, node, memo)) for g, x in o.items)
    elif o.kind in ("inst", "attrs"):
        n.attrs = {k: deep(lib, x, st, fr, node, memo) for k, x in o.attrs.items()}
    st.heap[r.args[0]] = n
    return r


def struct_call(lib, q, a, kw, st, fr, node):
    import struct
    i = lib.i
    if a and a[0].op == "const":
        fmt = T.cval(a[0])
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        try:
            size = struct.calcsize(fmt)
        except struct.error:
            i.raise_(st, fr, ["struct.error"], q, node)
            return []
        order = "little" if fmt[:1] in ("<", "=", "@") or fmt[:1] not in ">!<=@" else "big"
        body = fmt.lstrip("@=<>!")
        if q == "struct.calcsize":
            return [(st, const(size))]
        if len(body) == 1 and body in "BHIQL" and (fmt[0] in "<>!=" or body == "B"):
            if q == "struct.unpack":
                v = a[1]
                if lib.kind(v, st) not in BYTESLIKE:
                    return None
                c = lib.content(v, st)
                y = guarded(lib, st, c_eq0(st.norm(T.sub(T.length(c), const(size)))), fr, node, ["struct.error"], q, (v,))
                if y is None:
                    return []
                return [(x, tup([r])) for x, r in from_bytes(lib, [v, const(order)], {}, y, fr, node)]
            if q == "struct.pack" and len(a) == 2 and lib.kind(a[1], st) == "int":
                saved = fr.raises
                fr.raises = tmp = []
                i.sink_push(tmp)
                try:
                    r = to_bytes(lib, a[1], [const(size), const(order)], {}, st, fr, node)
                finally:
                    fr.raises = saved
                    i.sink_pop(1)
                for x, e in tmp:
                    i.raise_(x, fr, ["struct.error"], q, node)
                return r
    return None
