"""Tasks other than the wire format: exception classes (C17), shipped specifications (C20), pretty printing (C18, C19)."""
import codecs
import random

from . import terms as T
from .evalt import Model, NoModel, Undefined, facts_of
from .interp import ClassInfo, Frame, Module
from .heap import EnvO
from .scen import Cfg, Scenario
from . import scen as S

ERRORS = (("DecodeError", "decoder"), ("EncodeError", "encoder"))


def tasks(kind, tier, prop):
    from .tasks import Task
    if kind == "err":
        return [Task("err", c + ", message of type " + ty, cls=c, ty=ty) for c, m in ERRORS for ty in ("bytes", "bytearray")[:2 if c == "DecodeError" else 1]]
    if kind == "specs":
        return [Task("specs", "shipped specifications")]
    if kind == "pp":
        from . import pp
        return pp.tasks(tier)
    raise KeyError(kind)


def run(task, repo, seed, tier, res, t0, budget):
    if task.kind == "err":
        return Errors(repo, task.kw["cls"], res, seed, task.kw["ty"]).run()
    if task.kind == "specs":
        return Specs(repo, res).run()
    if task.kind == "pp":
        from . import pp
        return pp.run(task, repo, seed, tier, res, t0, budget)
    raise KeyError(task.kind)


class Api:
    """Calls into the abstract interpreter from outside"""
    class N:
        lineno = 0
        col_offset = 0

    def __init__(self, i):
        self.i = i
        self.m = Module("<api>", "<api>", None)
        i.modules.setdefault("<api>", self.m)
        i.scenario = Scenario("api", Cfg())

    def go(self, st, fn):
        """fn(state, frame, node) -> ([(state, value)], [(state, exception)])"""
        st.heap[self.m.env] = EnvO({}, None, None)
        fr = Frame(self.i, None, self.m.env, 0, None, self.m)
        self.i.sink_push(fr.raises)
        try:
            rets = fn(st, fr, self.N())
        finally:
            self.i.sink_pop(1)
        return rets, fr.raises

    def call(self, st, f, args, kw=None):
        return self.go(st, lambda s, fr, n: self.i.call(f, list(args), kw or {}, s, fr, n))

    def attr(self, st, o, name):
        return self.go(st, lambda s, fr, n: self.i.getattr(o, name, s, fr, n))


def finding(res, props, rule, where, text, key=None, witness=None, path=None, okind="ret"):
    f = {"outcome": 0, "where": where, "okind": okind, "props": sorted(props), "rule": rule, "text": text, "key": key, "mkind": rule,
         "n": 1, "task": res["task"], "alt": []}
    if witness is not None:
        f["witness"] = witness
    if path is not None:
        f["path"] = path
    res["found"].append(f)


class Claims:
    def __init__(self, res):
        self.res = res
        res.setdefault("obligations", 0)
        res.setdefault("discharged", 0)

    def ok(self, n=1):
        self.res["obligations"] += n
        self.res["discharged"] += n

    def bad(self, *a, **k):
        self.res["obligations"] += 1
        finding(self.res, *a, **k)

    def undecided(self, where, what):
        self.res["obligations"] += 1
        self.res["unproved"].append({"where": where, "kind": "claim", "claims": [what], "weak": False, "refuted": False, "nomodel": ""})


# ------------------------------------------------------------------ exceptions (C17)
VALUES = {
    "msg": ["Field data is 3 bytes, expecting 4", "", "a: b %s {} \x00\u20ac", "x", "Ends with a colon:", " padded ", "line\nbreak\n", "dot.", "UPPER lower",
            "12", "quote ' and \"", "tab\t", "\x00", "long " * 120, "a: field 2 pos 3", "back\\slash", "%d %%", "e\u0301\u00a0"],
    "s": [b"0200\x00\xff", b"", bytearray(b"ab"), b"zz", b" ws ", b"\x00\x00", b"0" * 700, b"\n"],
    "doc_dec": [{"t": "0200"}, {}, {"h": "1", "t": "2"}, {"10": "a", "9": "b", "t": ""}, {"bm": {"1"}}, {"t": None}],
    "doc_enc": [{"t": {"len": b"", "data": b"0200"}}, {}, {"2": {"len": b"1", "data": b"x"}}, {"10": {"len": b"", "data": b""}, "9": {"len": b"", "data": b""}}],
    "pos": [0, 4, 1, 17, -1, 2 ** 40, 255, 256],
    "field": ["h", "2", "p", "128", "", "002", "H", "t ", "\u00b2"],
}


def constants(t, out, depth=0):
    """Strings and numbers a term mentions: what a comparison or a strip in it turns on"""
    if depth > 40 or not isinstance(t, T.Term):
        return
    if t.op == "const":
        if type(t.args[0]) in (str, bytes, int) and len(out) < 40:
            out.add(t.args[0])
        return
    for a in t.args:
        if isinstance(a, T.Term):
            constants(a, out, depth + 1)
        elif isinstance(a, tuple):
            for b in a:
                for c in (b if isinstance(b, tuple) else (b,)):
                    constants(c, out, depth + 1)


def variants(name, consts):
    r = list(VALUES.get(name, [name, "", 0]))
    for c in sorted(consts, key=str):
        if isinstance(c, str) and name in ("msg", "field"):
            r += [c, "x" + c, c + "x", "x" + c + "y", c.upper(), "x" + c + c]
        elif isinstance(c, (bytes, str)) and name == "s":
            c = c.encode("latin-1", "ignore") if isinstance(c, str) else c
            r += [c, b"x" + c, c + b"x", b"x" + c + b"y"]
        elif isinstance(c, int) and 0 <= c < 10 ** 5:
            if name == "pos":
                r += [c, c + 1, max(0, c - 1), 10 * c]
            elif name in ("msg", "field"):
                r += ["x" * c, "x" * (c + 1), "x" * max(0, c - 1)]
            elif name == "s":
                r += [b"x" * c, b"x" * (c + 1), b"x" * max(0, c - 1)]
    return r


class Errors:
    def __init__(self, repo, cls, res, seed, ty="bytes"):
        self.res, self.cls, self.ty = res, cls, ty
        self.i, self.st = S.boot(repo, ["iso8583"])
        self.api = Api(self.i)
        self.c = Claims(res)
        self.r = random.Random(seed)

    def node(self, ci, name=None):
        n = ci.node
        if name is not None and name in ci.attrs and ci.attrs[name].op == "func":
            n = ci.attrs[name].args[0].node
        return "iso8583/%s.py:%s%s:%d" % (self.modname(ci), ci.name, "." + name if name else "", n.lineno)

    def modname(self, ci):
        m = ci.module if isinstance(ci.module, str) else ci.module.name
        return m.split(".", 1)[-1].replace(".", "/")

    def run(self):
        i, st = self.i, self.st
        c = S.func(i, st, "iso8583", self.cls)
        if c is None or c.op != "class" or not isinstance(c.args[0], ClassInfo):
            self.res["error"] = "iso8583.%s is not a class of the package" % self.cls
            return
        ci = self.ci = c.args[0]
        self.res["functions"] = ["iso8583/%s.py:%s" % (self.modname(ci), ci.name)]
        # --- base class
        if "ValueError" in ci.mro():
            self.c.ok()
        else:
            self.c.bad({"C17"}, "both exceptions are ValueError subclasses", self.node(ci), "%s does not derive from ValueError: %s" % (
                ci.name, [str(x) for x in ci.mro()]))
        # --- pickle finds the class by name in its module
        mod = ci.module if not isinstance(ci.module, str) else i.modules.get(ci.module)
        over = st.heap.get(("static", "classattrs", ci.name))
        extra = dict(ci.attrs)
        if over is not None:
            extra.update(over.attrs)
        if "__module__" in extra or "__qualname__" in extra or "__name__" in extra:
            m2 = extra.get("__module__")
            q = extra.get("__qualname__", T.const(ci.name))
            tgt = None
            if (m2 is None or m2.op == "const") and q.op == "const":
                mm = mod if m2 is None else i.modules.get(T.cval(m2))
                if mm is not None:
                    tgt = st.heap[mm.env].vars.get(T.cval(q))
            if tgt is c:
                self.c.ok()
            elif tgt is not None:
                self.c.bad({"C17"}, "the class can be found by name", self.node(ci), "%s.%s is %s" % (T.show(m2) if m2 is not None else mod, T.show(q), T.show(tgt)))
            else:
                self.c.undecided(self.node(ci), "class name is assigned")
        elif st.heap[mod.env].vars.get(ci.name) is c:
            self.c.ok()
        else:
            self.c.bad({"C17"}, "the class can be found by name", self.node(ci), "%s is not what the module defines under the name %s" % (ci, ci.name))
        # --- construction
        c2, init = ci.lookup("__init__")
        params = None
        if init is not None and init.op == "func":
            a = init.args[0].node.args
            if a.vararg is None and a.kwarg is None:
                params = [p.arg for p in (a.posonlyargs + a.args)[1:]]
                kwonly = [p.arg for p in a.kwonlyargs]
            else:
                params = ["msg", "s", "doc_dec", "doc_enc", "pos", "field"] if self.cls == "DecodeError" else ["msg", "doc_dec", "doc_enc", "field"]
                kwonly = []
        elif ci.lookup("__new__")[1] is None and any(getattr(k, "dataclass", None) for k in ci.mro() if isinstance(k, ClassInfo)):
            params = [n for n, d in next(k for k in ci.mro() if isinstance(k, ClassInfo) and k.dataclass).dataclass]
            kwonly = []
        else:
            params = ["msg", "s", "doc_dec", "doc_enc", "pos", "field"] if self.cls == "DecodeError" else ["msg", "doc_dec", "doc_enc", "field"]
            kwonly = []
        self.params = params
        tys = {"msg": "str", "s": self.ty, "pos": "int", "field": "str"}
        sym = {p: T.sym("arg_" + p, tys.get(p, "any")) for p in params + kwonly}
        rets, raises = self.api.call(st, c, [sym[p] for p in params], {p: sym[p] for p in kwonly})
        for s, e in raises:
            self.issue(s, None, None, "construction raises", "constructing %s may raise %s" % (ci.name, T.show(e)[:100]), self.node(ci, "__init__"))
        for s, v in rets:
            self.round(s, v)
        if not rets:
            self.res["error"] = "no path constructs the exception"

    # ---- one construction path
    def round(self, st, v):
        ci = self.ci
        self.res["outcomes"] += 1
        n0 = len(self.res["found"]) + len(self.res["unproved"])
        used = False
        for proto in ("pickle", "copy"):
            names = ("__reduce_ex__", "__reduce__")
            if proto == "copy":
                names = ("__copy__", "__deepcopy__")
            for name in names:
                d, m = ci.lookup(name)
                if m is None:
                    continue
                args = {"__reduce_ex__": [T.const(4)], "__deepcopy__": [T.sym("memo", "any")]}.get(name, [])
                rets, raises = self.meth(st.copy(), v, name, args)
                for s, e in raises:
                    self.issue(s, None, None, "the exception can be pickled and copied", "%s may raise %s" % (name, T.show(e)[:100]), self.node(d, name))
                for s, r in rets:
                    if proto == "copy":
                        self.same(s, v, r, self.node(d, name))
                    else:
                        self.rebuild(s, v, r, self.node(d, name))
                if proto == "pickle":
                    used = True
                    break
        if not used:
            rets, raises = self.meth(st.copy(), v, "__reduce__", [])
            for s, r in rets:
                self.rebuild(s, v, r, self.node(ci))
        if len(self.res["found"]) + len(self.res["unproved"]) == n0:
            self.res["proved"] += 1

    def meth(self, st, v, name, args):
        rets, raises = self.api.attr(st, v, name)
        out = []
        for s, f in rets:
            r2, x2 = self.api.call(s, f, args)
            out += r2
            raises = list(raises) + list(x2)
        return out, raises

    def seq(self, st, r):
        if r.op == "tuple":
            return list(r.args)
        if r.op == "ref":
            o = st.heap.get(r.args[0])
            if o is not None and o.kind == "list" and o.ty == "tuple" and o.pre is None and all(g == 1 for g, _ in o.items):
                return [x for _, x in o.items]
        return None

    def rebuild(self, st, v, r, where):
        parts = self.seq(st, r)
        if parts is None or not 2 <= len(parts) <= 6:
            self.c.undecided(where, "reduce value %s" % T.show(r)[:100])
            return
        f, a = parts[0], parts[1]
        args = self.seq(st, a)
        if args is None:
            self.c.undecided(where, "arguments %s" % T.show(a)[:100])
            return
        if f.op == "func":
            if "<locals>" in f.args[0].qualname or f.args[0].name == "<lambda>":
                self.c.bad({"C17"}, "the exception can be pickled", where, "%s cannot be pickled" % f.args[0].qualname)
                return
        elif f.op not in ("class", "bound", "builtin", "ext", "extattr", "unbound"):
            self.c.undecided(where, "rebuilt by %s" % T.show(f)[:80])
            return
        for x in args + parts[2:3]:
            if x.ty in ("memoryview", "generator", "module") or x.op == "func" and x.args[0].name == "<lambda>":
                self.c.bad({"C17"}, "the exception can be pickled", where, "%s cannot be pickled" % T.show(x)[:60])
                return
        try:
            rets, raises = self.api.call(st, f, args)
        except Exception as e:
            if type(e).__name__ == "Timeout":
                raise
            self.c.undecided(where, "rebuilding: %s" % e)
            return
        for s, e in raises:
            self.issue(s, None, None, "the exception can be rebuilt", "rebuilding %s raises %s" % (self.ci.name, T.show(e)[:100]), where)
        for s, w in rets:
            if w.op != "ref" or s.heap.get(w.args[0]) is None or s.heap[w.args[0]].kind != "inst":
                self.c.undecided(where, "rebuilt value %s" % T.show(w)[:80])
                continue
            state = parts[2] if len(parts) > 2 else T.NONE
            sts = [s]
            if state is not T.NONE:
                d, m = self.ci.lookup("__setstate__")
                if m is not None:
                    r2, x2 = self.meth(s, w, "__setstate__", [state])
                    for y, e in x2:
                        self.issue(y, None, None, "the exception can be rebuilt", "__setstate__ raises %s" % T.show(e)[:100], where)
                    sts = [y for y, _ in r2]
                else:
                    o = s.heap.get(state.args[0]) if state.op == "ref" else None
                    if o is None or o.kind != "dict" or o.base is not None:
                        self.c.undecided(where, "state %s" % T.show(state)[:80])
                        continue
                    n = s.heap[w.args[0]].copy()
                    for k, (g, x, _) in o.items.items():
                        if k.op == "const" and g == 1:
                            n.attrs[T.cval(k)] = x
                        else:
                            n = None
                            break
                    if n is None:
                        self.c.undecided(where, "state with computed names")
                        continue
                    s.heap[w.args[0]] = n
            for y in sts:
                self.same(y, v, w, where)

    def same(self, st, v, w, where):
        a, b = st.heap.get(v.args[0]), st.heap.get(w.args[0]) if w.op == "ref" else None
        if b is None or b.kind != "inst":
            self.c.undecided(where, "copy is %s" % T.show(w)[:80])
            return
        if b.cls is a.cls:
            self.c.ok()
        else:
            self.c.bad({"C17"}, "the copy is of the same class", where, "the copy of a %s is a %s" % (a.cls, b.cls))
            return
        names = [k for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs] if not k.startswith("#")]
        for want in ("msg", "doc_dec", "doc_enc", "field") + (("s", "pos") if self.cls == "DecodeError" else ()):
            if want not in names:
                names.append(want)
        for k in names:
            va, vb = self.value(st, v, a, k), self.value(st, w, b, k)
            if va is None and vb is None:
                continue
            if va is None or vb is None:
                self.issue(st, va, vb, "attributes survive", "attribute %s %s" % (k, "is lost" if vb is None else "appears"), where)
                continue
            self.compare(st, va, vb, k, where)
        # text
        for mname in ("__str__",):
            d, m = self.ci.lookup(mname)
            if m is None:
                continue
            ra, xa = self.meth(st.copy(), v, mname, [])
            rb, xb = self.meth(st.copy(), w, mname, [])
            if len(ra) == 1 == len(rb):
                self.compare(st, ra[0][1], rb[0][1], "text", where)
            elif len(ra) == len(rb):
                for (s1, t1), (s2, t2) in zip(ra, rb):
                    self.compare(s1, t1, t2, "text", where)
            else:
                self.c.undecided(where, "text of the copy")

    def value(self, st, ref, o, k):
        d, m = self.ci.lookup(k)
        if m is not None and m.op == "prop":
            r, x = self.api.attr(st.copy(), ref, k)
            return r[0][1] if len(r) == 1 else T.top("property")
        if k in o.attrs:
            return o.attrs[k]
        return m

    def compare(self, st, va, vb, k, where):
        if st.norm(va) is st.norm(vb):
            self.c.ok()
            return
        cs = set()
        for t in (va, vb, *(c for c, y in facts_of(st))):
            constants(t, cs)
        for _ in range(400):
            w = {}

            def pick(m, t, key):
                if key[0] == "sym":
                    if key not in w:
                        n = key[1][4:]
                        w[key] = self.r.choice(variants(n, cs))
                        if n == "s":
                            w[key] = bytearray(w[key]) if self.ty == "bytearray" else bytes(w[key])
                    return w[key]
                raise NoModel(str(key))
            m = Model(pick)
            try:
                from .outcome import conc
                if not m.guard(st.gpc):
                    continue
                if not all(bool(m.ev(c)) == y for c, y in facts_of(st)):
                    continue
                x, y = conc(st, m, va), conc(st, m, vb)
            except (Undefined, NoModel) as e:
                continue
            if type(x) in (int, str, bytes, bytearray, dict, tuple, list, type(None), bool) and (type(x) is not type(y) or x != y):
                self.c.bad({"C17"}, "attributes survive", where, "attribute %s is %r before and %r after" % (k, x, y), key=k,
                           witness={kk[1]: repr(vv) for kk, vv in w.items()})
                return
        self.c.undecided(where, "attribute %s: %s / %s" % (k, T.show(va)[:60], T.show(vb)[:60]))

    def issue(self, st, va, vb, rule, text, where):
        """Reported when the path exists for some contents"""
        cs = set()
        for c, y in facts_of(st):
            constants(c, cs)
        for _ in range(400):
            w = {}

            def pick(m, t, key):
                if key[0] == "sym":
                    if key not in w:
                        n = key[1][4:]
                        w[key] = self.r.choice(variants(n, cs))
                        if n == "s":
                            w[key] = bytearray(w[key]) if self.ty == "bytearray" else bytes(w[key])
                    return w[key]
                raise NoModel(str(key))
            m = Model(pick)
            try:
                if m.guard(st.gpc) and all(bool(m.ev(c)) == y for c, y in facts_of(st)):
                    self.c.bad({"C17"}, rule, where, text)
                    return
            except (Undefined, NoModel):
                continue
        self.c.undecided(where, text)


# ------------------------------------------------------------------ shipped specifications (C20)
class Opaque:
    def __init__(self, text):
        self.text = text


class Specs:
    def __init__(self, repo, res):
        self.res = res
        self.i, self.st = S.boot(repo, ["iso8583.specs"])
        self.c = Claims(res)
        self.addr = {}

    def conc(self, t, path, depth=0):
        if depth > 8:
            return Opaque("deep value")
        if t.op == "const":
            return T.cval(t)
        if t.op == "tuple":
            return tuple(self.conc(x, path, depth + 1) for x in t.args)
        if t.op == "ref":
            o = self.st.heap.get(t.args[0])
            if o is None:
                return Opaque("unknown object")
            self.addr.setdefault(t.args[0], []).append(path)
            if o.kind == "dict" and o.base is None and not o.loops:
                if any(g != 1 or k.op != "const" for k, (g, v, s) in o.items.items()):
                    return Opaque("conditional entries")
                return {T.cval(k): self.conc(v, path + (T.cval(k),), depth + 1) for k, (g, v, s) in o.items.items()}
            if o.kind == "list" and o.pre is None and all(g == 1 for g, _ in o.items):
                return [self.conc(v, path + (n,), depth + 1) for n, (g, v) in enumerate(o.items)]
            return Opaque(o.kind)
        return Opaque(T.show(t)[:60])

    def line(self, name, key, prop=None):
        """Where an entry is written in the source, if it is written literally"""
        import ast
        m = self.i.modules["iso8583.specs"]
        best = None
        tree = getattr(m, "tree", None) or getattr(m, "node", None)
        file = "iso8583/specs.py"
        return "%s:%s[%r]%s" % (file, name, key, "[%r]" % prop if prop else "")

    def run(self):
        i, st = self.i, self.st
        self.res["functions"] = ["iso8583/specs.py:default", "iso8583/specs.py:default_ascii"]
        self.res["outcomes"] = 0
        tabs = {}
        for n in ("default", "default_ascii"):
            v = S.func(i, st, "iso8583.specs", n)
            if v is None:
                self.c.bad({"C20"}, "both tables exist", "iso8583/specs.py", "iso8583.specs.%s is not defined" % n)
                return
            d = self.conc(v, (n,))
            if isinstance(d, Opaque) or not isinstance(d, dict):
                self.c.undecided("iso8583/specs.py", "%s: %s" % (n, getattr(d, "text", d)))
                return
            tabs[n] = d
            self.table(n, d)
        self.pair(tabs["default"], tabs["default_ascii"])
        for a, paths in sorted(self.addr.items(), key=lambda x: str(x[1])):
            if len(paths) > 1:
                p, q = paths[0], paths[1]
                self.c.bad({"C20"}, "tables share no mutable object", "iso8583/specs.py:%s[%s]" % (q[0], ",".join(map(repr, q[1:]))),
                           "%s and %s are the same object" % (show(p), show(q)))
            else:
                self.c.ok()
        # objects of these tables may not be shared with other module-level names that code of the package writes to; reading is fine
        self.res["extra"] = {"entries": sum(len(d) for d in tabs.values())}

    def table(self, n, d):
        need = ["h", "t", "p"] + [str(k) for k in range(1, 129)]
        for k in need:
            if k in d:
                self.c.ok()
            else:
                self.c.bad({"C20"}, "every element is described", "iso8583/specs.py:" + n, "%s has no entry %r" % (n, k), key=k)
        for k in d:
            if k not in need:
                self.c.bad({"C20"}, "every element is described", self.line(n, k), "%s has an entry %r that is not an element of a message" % (n, k), key=str(k))
        for k, e in d.items():
            if isinstance(e, Opaque):
                self.c.undecided(self.line(n, k), e.text)
                continue
            if not isinstance(e, dict):
                self.c.bad({"C20"}, "entries are dictionaries", self.line(n, k), "%s[%r] is %r" % (n, k, e), key=str(k))
                continue
            self.entry(n, k, e)

    def entry(self, n, k, e):
        def bad(p, text):
            self.c.bad({"C20"}, "entries are complete and consistent", self.line(n, k, p), "%s[%r]: %s" % (n, k, text), key=str(k))
        vals = {}
        for p, ty in (("data_enc", str), ("len_enc", str), ("len_type", int), ("max_len", int), ("desc", str)):
            if p not in e:
                bad(p, "%s is missing" % p)
                continue
            v = e[p]
            if isinstance(v, Opaque):
                self.c.undecided(self.line(n, k, p), v.text)
                continue
            if type(v) is not ty:
                bad(p, "%s is %r" % (p, v))
                continue
            vals[p] = v
            self.c.ok()
        for p, v in e.items():
            if p in ("data_enc", "len_enc", "len_type", "max_len", "desc"):
                continue
            if p == "len_count" and v in ("bytes", "nibbles") or p in ("left_pad", "right_pad") and isinstance(v, str) or p == "pad" and isinstance(v, str):
                self.c.ok()
            elif isinstance(p, str) and plain(v):
                self.c.ok()
            elif isinstance(v, Opaque):
                self.c.undecided(self.line(n, k, p), v.text)
            else:
                bad(p, "%r: %r is not plain JSON data" % (p, v))
        if len(vals) < 5:
            return
        lt, m, de, le = vals["len_type"], vals["max_len"], vals["data_enc"], vals["len_enc"]
        cnt = e.get("len_count", "bytes")
        for p, v in (("data_enc", de), ("len_enc", le)):
            if v != "b" and not (p == "len_enc" and v == "bcd"):
                try:
                    ok = codecs.lookup(v)._is_text_encoding
                except LookupError:
                    ok = False
                if not ok:
                    bad(p, "%s is %r, which is not a text encoding" % (p, v))
                    continue
            self.c.ok()
        if lt < 0:
            bad("len_type", "len_type is %d" % lt)
        else:
            self.c.ok()
        if m < 0 or m == 0 and k != "h":
            bad("max_len", "max_len is %d" % m)
        else:
            self.c.ok()
        if lt > 0:
            top = 256 ** lt - 1 if le == "b" else 10 ** (2 * lt) - 1 if le == "bcd" else 10 ** lt - 1
            if m > top:
                bad("max_len", "max_len %d does not fit a length prefix of %d" % (m, lt))
            else:
                self.c.ok()
        want = {"t": {"b": 2}.get(de, 4), "p": {"b": 8}.get(de, 16), "1": {"b": 8}.get(de, 16)}.get(k)
        if want is not None:
            if lt != 0:
                bad("len_type", "len_type is %d for an element of fixed size" % lt)
            elif m != (want * 2 if cnt == "nibbles" and de == "b" else want) and m != want:
                bad("max_len", "max_len is %d, the element has %d bytes" % (m, want))
            else:
                self.c.ok()
        if vals["desc"].strip() == "":
            bad("desc", "empty description")
        else:
            self.c.ok()

    def pair(self, a, b):
        for k in a:
            if k not in b or not isinstance(a[k], dict) or not isinstance(b[k], dict):
                continue
            x, y = a[k], b[k]
            if any(isinstance(v, Opaque) for v in list(x.values()) + list(y.values())):
                continue

            def bad(p, text):
                self.c.bad({"C20"}, "both tables describe the same elements", self.line("default_ascii", k, p),
                           "default[%r] and default_ascii[%r]: %s" % (k, k, text), key=str(k))
            try:
                if x["desc"] != y["desc"]:
                    bad("desc", "descriptions %r and %r" % (x["desc"], y["desc"]))
                else:
                    self.c.ok()
                if x["len_type"] != y["len_type"]:
                    bad("len_type", "len_type %r and %r" % (x["len_type"], y["len_type"]))
                else:
                    self.c.ok()

                def size(e):
                    f = 1
                    if e["data_enc"] == "b" and e.get("len_count", "bytes") == "bytes":
                        f = 2
                    return e["max_len"] * f
                bothb = (x["data_enc"] == "b") == (y["data_enc"] == "b")
                ok = x["max_len"] == y["max_len"] and x.get("len_count", "bytes") == y.get("len_count", "bytes") if bothb else size(x) == size(y)
                if k == "h" and x["max_len"] == 0 == y["max_len"]:
                    ok = True
                if not ok:
                    bad("max_len", "sizes %r and %r (data_enc %r and %r)" % (x["max_len"], y["max_len"], x["data_enc"], y["data_enc"]))
                else:
                    self.c.ok()
                if y["data_enc"] == "b":
                    bad("data_enc", "binary data in default_ascii")
                else:
                    self.c.ok()
            except (KeyError, TypeError):
                continue


def plain(v):
    if isinstance(v, (str, int, float, bool, type(None))):
        return True
    if isinstance(v, list):
        return all(plain(x) for x in v)
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    return False


def show(p):
    return "%s%s" % (p[0], "".join("[%r]" % x for x in p[1:]))
