"""Class definitions, instances and context managers."""
import ast

from . import bdd
from . import terms as T
from .terms import mk, const, tup
from .state import c_guard, c_not
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO, GenO, CellO


def classdef(lib, s, st, fr):
    from .interp import ClassInfo, Frame
    i = lib.i
    bases = []
    nt = False
    enum = mixin = False
    sts = [(st, [])]
    for b in s.bases:
        sts = [(y, acc + [v]) for x, acc in sts for y, v in i.ev(b, x, fr)]
    out = []
    for x, bvals in sts:
        for v in bvals:
            if v.op == "class":
                bases.append(v.args[0])
                enum = enum or v.args[0].is_enum
            elif v.op == "builtin":
                bases.append(v.args[0])
            elif v.op == "extattr":
                n = v.args[0]
                if n.endswith(".NamedTuple"):
                    nt = True
                elif n.startswith("enum."):
                    enum = True
                    if n in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum"):
                        bases.append("int" if "Int" in n else "str")
                        mixin = True
                elif n.endswith(".TypedDict"):
                    bases.append("dict")
                elif n in ("collections.UserDict", "collections.OrderedDict", "collections.defaultdict"):
                    i.undecide("base class %s" % n, fr, s, x)
            else:
                i.undecide("base class", fr, s, x)
        key = (fr.module.name, s.name, s.lineno)
        ci = i.classinfos.get(key)
        if ci is None:
            ci = ClassInfo(s.name, bases, fr.module, s)
            i.classinfos[key] = ci
        env = ("static", "classbody", fr.module.name, s.name, s.lineno) if i.importing else i.new_addr(x, fr, s, "class")
        x.heap[env] = EnvO({}, fr.env, None)
        sub = Frame(i, None, env, fr.ctx, fr, fr.module)
        sub.cls = ci
        sub.raises = fr.raises
        sub.entry = fr.entry
        body = i.block(s.body, [x], sub)
        if len(body) != 1:
            for y in body:
                i.undecide("class body with several outcomes", fr, s, y)
            if not body:
                continue
        y = body[0]
        vars = y.heap[env].vars
        ci.attrs = dict(vars)
        ann = [n.target.id for n in s.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
               and "ClassVar" not in ast.dump(n.annotation)]
        inherited = []
        for b in bases:
            if isinstance(b, ClassInfo) and b.dataclass:
                inherited += b.dataclass
        if nt:
            ci.namedtuple = ann
        ci.fields = [(n, vars.get(n)) for n in ann]
        ci.inherited_fields = inherited
        if enum:
            ci.is_enum = True
            for n in list(vars):
                if n.startswith("_") or vars[n].op == "func":
                    continue
                if mixin or "int" in ci.mro() or "str" in ci.mro():
                    # members are numbers (texts) and behave like them
                    same = mixin and T.is_const(vars[n]) and isinstance(T.cval(vars[n]), (int, str))
                    ci.attrs[n] = vars[n] if same else T.top("enum member with a data type")
                    lib.mixins = True
                    continue
                a = ("static", "enum", s.name, n)
                y.heap[a] = InstO(ci, {"name": const(n), "value": vars[n], "_value_": vars[n]})
                ci.attrs[n] = mk("ref", a, ty="ref")
        # attribute hooks of properties set with @name.setter share one prop term
        pairs = [(y, ci.term)]
        for d in reversed(s.decorator_list):
            nxt = []
            for z, cv in pairs:
                for w, dv in i.ev(d, z, fr):
                    nxt += i.call(dv, [cv], {}, w, fr, d)
            pairs = nxt
        # __init_subclass__ / metaclass keywords are not modelled
        if s.keywords and not enum:
            for z, _ in pairs:
                if any(k.arg == "metaclass" and not (isinstance(k.value, ast.Attribute) or isinstance(k.value, ast.Name)
                       and k.value.id == "ABCMeta") for k in s.keywords):
                    i.undecide("metaclass", fr, s, z)
        for z, cv in pairs:
            i.setvar(s.name, cv, z, fr)
            out.append(z)
    return out


def make_dataclass(lib, cv, opts, st, fr, node):
    ci = cv.args[0]
    ci.dataclass = ci.inherited_fields + ci.fields
    ci.frozen = opts.get("frozen") is not None and T.is_const(opts["frozen"], True)
    return [(st, cv)]


def construct(lib, ci, args, kwargs, st, fr, node):
    """Call of a class of the package -> [(state, instance)]"""
    i = lib.i
    from .interp import is_builtin_exc
    if any(isinstance(b, str) and b != "object" and not is_builtin_exc(b) for b in ci.mro()) and not ci.is_enum:
        return [(st, i.undecide("subclass of a built-in type", fr, node, st))]
    if ci.is_enum:
        if len(args) == 1 and not any(b in ("int", "str") for b in ci.mro()):
            for n, v in ci.attrs.items():
                if v.op == "ref" and i.obj(st, v) is not None and i.obj(st, v).kind == "inst" \
                        and i.obj(st, v).attrs.get("value") is args[0]:
                    return [(st, v)]
            out, live = [], [st]
            for n, v in ci.attrs.items():
                if v.op != "ref" or i.obj(st, v) is None or i.obj(st, v).kind != "inst" \
                        or "value" not in i.obj(st, v).attrs:
                    continue
                nxt = []
                for x in live:
                    for y, c in lib.eq(args[0], i.obj(st, v).attrs["value"], x, fr, node):
                        for z, b in i.fork(y, c):
                            if b:
                                out.append((z, v))
                            else:
                                nxt.append(z)
                live = nxt
            for x in live:
                i.raise_(x, fr, ["ValueError"], "not a member", node)
            return out
        return [(st, i.undecide("enum lookup", fr, node, st))]
    if ci.namedtuple is not None:
        attrs = {}
        kw = dict(kwargs)
        for k, n in enumerate(ci.namedtuple):
            if k < len(args):
                attrs[n] = args[k]
            elif n in kw:
                attrs[n] = kw.pop(n)
            else:
                d = dict(ci.fields).get(n)
                if d is None:
                    i.raise_(st, fr, ["TypeError"], "missing field", node)
                    return []
                attrs[n] = d
        if kw or len(args) > len(ci.namedtuple):
            i.raise_(st, fr, ["TypeError"], "unexpected field", node)
            return []
        return [(st, i.alloc(st, fr, node, InstO(ci, attrs), "inst"))]
    ref = i.alloc(st, fr, node, InstO(ci, {"args": tup(args)} if ci.exc_base() else {}), "inst")
    c, new = ci.lookup("__new__")
    if new is not None:
        return [(st, i.undecide("__new__", fr, node, st))]
    c, init = ci.lookup("__init__")
    dc = next((k for k in ci.mro() if not isinstance(k, str) and k.dataclass), None)
    if dc is not None and (init is None or ci.mro().index(dc) < ci.mro().index(c)):
        o = i.obj(st, ref).copy()
        kw = dict(kwargs)
        sts = [st]
        pos = list(args)
        vals = {}
        for k, (n, d) in enumerate(dc.dataclass):
            if pos:
                vals[n] = pos.pop(0)
            elif n in kw:
                vals[n] = kw.pop(n)
            elif d is not None and d.op == "dcfield":
                f = dict(d.args[0])
                if "default_factory" in f:
                    nxt = []
                    r = i.call(f["default_factory"], [], {}, sts[0], fr, node)
                    if len(r) != 1:
                        i.undecide("default factory", fr, node, sts[0])
                    vals[n] = r[0][1]
                    sts = [r[0][0]]
                elif "default" in f:
                    vals[n] = f["default"]
                else:
                    i.raise_(st, fr, ["TypeError"], "missing field %s" % n, node)
                    return []
            elif d is not None:
                vals[n] = d
            else:
                i.raise_(st, fr, ["TypeError"], "missing field %s" % n, node)
                return []
        if kw or pos:
            i.raise_(st, fr, ["TypeError"], "unexpected field", node)
            return []
        st = sts[0]
        o.attrs.update(vals)
        st.heap[ref.args[0]] = o
        c, post = ci.lookup("__post_init__")
        if post is not None:
            return [(x, ref) for x, _ in i.call(post, [ref], {}, st, fr, node)]
        return [(st, ref)]
    if init is not None:
        fr.live.append(ref.args[0])
        try:
            r = i.call(init, [ref] + list(args), kwargs, st, fr, node)
        finally:
            fr.live.remove(ref.args[0])
        return [(x, ref) for x, _ in r]
    if (args or kwargs) and not ci.exc_base():
        i.raise_(st, fr, ["TypeError"], "%s() takes no arguments" % ci.name, node)
        return []
    return [(st, ref)]


# ------------------------------------------------------------------ with statements
def with_(lib, items, body, st, fr, node):
    i = lib.i
    if not items:
        return i.block(body, [st], fr)
    it, rest = items[0], items[1:]
    out = []
    for x, cm in i.ev(it.context_expr, st, fr):
        out += enter(lib, cm, it, rest, body, x, fr, node)
    return i.merge_states(out, fr) if len(out) > 1 else out


def run_body(lib, it, val, rest, body, st, fr, node):
    """Body of the with statement with its exits intercepted."""
    i = lib.i
    saved = (fr.rets, fr.raises, fr.brks, fr.conts)
    fr.rets, fr.raises, fr.brks, fr.conts = [], [], [], []
    mine = (fr.rets, fr.raises, fr.brks, fr.conts)
    i.sink_push(*mine)
    try:
        sts = [st]
        if it.optional_vars is not None:
            sts = i.assign(it.optional_vars, val, st, fr)
        norm = []
        for x in sts:
            norm += with_(lib, rest, body, x, fr, node)
    finally:
        fr.rets, fr.raises, fr.brks, fr.conts = saved
        i.sink_pop(4)
    return norm, mine


def enter(lib, cm, it, rest, body, st, fr, node):
    i = lib.i
    if cm.op == "suppress":
        norm, (rets, raises, brks, conts) = run_body(lib, it, T.NONE, rest, body, st, fr, node)
        for x, e in raises:
            c, r = i.split_exc(e, list(cm.args[0]), x)
            if c is not None:
                norm.append(x.copy() if r is not None else x)
            if r is not None:
                fr.raises.append((x, r))
        fr.rets.extend(rets)
        fr.brks.extend(brks)
        fr.conts.extend(conts)
        return norm
    if cm.op in ("nullctx", "closing"):
        norm, (rets, raises, brks, conts) = run_body(lib, it, cm.args[0], rest, body, st, fr, node)
        fr.rets.extend(rets)
        fr.raises.extend(raises)
        fr.brks.extend(brks)
        fr.conts.extend(conts)
        return norm
    if cm.op == "ctxgen":
        o = i.obj(st, cm.args[0])
        vars = i.bind(o.func, list(o.args), o.kwargs, st, fr, o.node)
        if vars is None:
            return []
        n = len(st.ghost)
        tag = "#with%s.%s" % (fr.where(node), st.counts.get("with", 0))
        st.counts["with"] = st.counts.get("with", 0) + 1

        def on_yield(x, v, gfr):
            norm, (rets, raises, brks, conts) = run_body(lib, it, v, rest, body, x, fr, node)
            for y, e in raises:
                gfr.raises.append((y, e))
            for kind, l in (("ret", rets), ("brk", [(b, T.NONE) for b in brks]), ("cont", [(b, T.NONE) for b in conts])):
                for y, val in l:
                    y.ghost[tag] = (kind, val)
                    norm.append(y)
            return norm
        res = []
        for x, _ in i.run_func(o.func, vars, st, fr, o.node, on_yield=on_yield):
            p = x.ghost.pop(tag, None)
            if p is None:
                res.append(x)
            elif p[0] == "ret":
                fr.rets.append((x, p[1]))
            elif p[0] == "brk":
                fr.brks.append(x)
            else:
                fr.conts.append(x)
        return res
    if cm.op == "ref" and i.obj(st, cm).kind == "inst" and not isinstance(i.obj(st, cm).cls, str):
        ci = i.obj(st, cm).cls
        en, ex = ci.lookup("__enter__")[1], ci.lookup("__exit__")[1]
        if en is not None and ex is not None:
            out = []
            fr.live.append(cm.args[0])
            try:
                for x, v in i.call(en, [cm], {}, st, fr, node):
                    norm, (rets, raises, brks, conts) = run_body(lib, it, v, rest, body, x, fr, node)
                    for y in norm:
                        out += [z for z, _ in i.call(ex, [cm, T.NONE, T.NONE, T.NONE], {}, y, fr, node)]
                    for y, val in rets:
                        fr.rets += [(z, val) for z, _ in i.call(ex, [cm, T.NONE, T.NONE, T.NONE], {}, y, fr, node)]
                    for y in brks:
                        fr.brks += [z for z, _ in i.call(ex, [cm, T.NONE, T.NONE, T.NONE], {}, y, fr, node)]
                    for y in conts:
                        fr.conts += [z for z, _ in i.call(ex, [cm, T.NONE, T.NONE, T.NONE], {}, y, fr, node)]
                    for y, e in raises:
                        cls = i.exc_classes(e, y)
                        ct = cls[0].term if cls and not isinstance(cls[0], str) else mk(
                            "builtin", cls[0] if cls else "Exception", ty="class")
                        fr.handling.append(e)
                        try:
                            res = i.call(ex, [cm, ct, e, T.top("traceback")], {}, y, fr, node)
                        finally:
                            fr.handling.pop()
                        for z, r in res:
                            for w, b in i.truth(r, z, fr, node):
                                if b:
                                    out.append(w)
                                else:
                                    fr.raises.append((w, e))
            finally:
                fr.live.remove(cm.args[0])
            return out
    i.undecide("with %s" % T.show(cm), fr, node, st)
    norm, (rets, raises, brks, conts) = run_body(lib, it, T.top("context manager"), rest, body, st, fr, node)
    fr.rets.extend(rets)
    fr.raises.extend(raises)
    fr.brks.extend(brks)
    fr.conts.extend(conts)
    return norm
