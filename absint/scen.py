"""Analysis scenarios: the abstract arguments of the API entry points.

A scenario fixes the *shape* of the configuration (which branch of the specification vocabulary every
kind of element uses); everything else - message bytes, values, lengths, maxima, codec names, which
fields exist - stays symbolic.
"""
from . import bdd
from . import terms as T
from .terms import mk, const, sym
from .state import State, c_guard, c_eq, c_le0, subterms
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO
from .interp import Interp, Frame, Module

MAXF = 192
SPEC = mk("ref", ("arg", "spec"), ty="ref")
DOC = mk("ref", ("arg", "doc"), ty="ref")


class Cfg:
    """Configuration of one element.  len_type 0 or 'var'; enc 'b' or 'text'."""
    def __init__(self, enc="text", var=False, lenenc="text", count=None, left=None, right=None, maxlen=None):
        self.enc, self.var, self.lenenc, self.count = enc, var, lenenc, count
        self.left, self.right, self.maxlen = left, right, maxlen

    def __str__(self):
        return "%s/%s%s%s" % (self.enc, "var-" + self.lenenc if self.var else "fix",
                              "/" + self.count if self.count else "",
                              "".join("/%s=%s" % (n, v) for n, v in (("left", self.left), ("right", self.right))
                                      if v is not None))


FIXED_KEYS = ("h", "t", "p", "1")


class Scenario:
    def __init__(self, name, fields=None, h=None, t=None, p=None, one=None, special=None, absent=()):
        self.name = name
        self.cfg = {"h": h or Cfg(maxlen=0), "t": t or Cfg(), "p": p or Cfg("b"), "1": one or Cfg("b")}
        self.fields = fields or Cfg()
        self.special = special or {}       # key -> Cfg for perturbed entries
        self.absent = set(absent)          # fields that do not occur in the message / document
        self.inputs = []
        self.int_universe = range(0, 200)
        self.reads = {}                    # (key, property) -> set of places
        self.docval = "str"
        self.strs = ()              # keys whose value is a str anyway
        self.pair = None                   # exactly these fields are announced / passed
        self.unknown_keys = False

    # ------------------------------------------------------------ specification
    def config(self, key):
        k = T.cval(key) if key.op == "const" else None
        if k in self.special:
            return self.special[k]
        return self.cfg.get(k, self.fields)

    def base_has(self, base, key, st):
        if base == "spec":
            if key.op == "const":
                k = T.cval(key)
                if k in FIXED_KEYS:
                    return T.TRUE
                if k in self.special:
                    return T.TRUE
                if self.full and isinstance(k, str) and k.isascii() and k.isdigit():
                    return T.TRUE
                return c_guard(bdd.var(("spec", k)))
            if self.full and key.op == "str_of_int":
                return T.TRUE
            return mk("haskey", SPEC, key, ty="bool")
        if isinstance(base, tuple) and base[0] == "entry":
            c = self.config(base[1])
            if key.op != "const":
                return mk("haskey", mk("entry", base[1], ty="dict"), key, ty="bool")
            k = T.cval(key)
            if k in ("data_enc", "len_enc", "len_type", "max_len"):
                return T.TRUE
            if k == "len_count":
                return const(c.count is not None)
            if k == "left_pad":
                return const(c.left is not None)
            if k == "right_pad":
                return const(c.right is not None)
            if k == "desc":
                return T.TRUE if self.has_desc else mk("haskey", mk("entry", base[1], ty="dict"), key, ty="bool")
            return mk("haskey", mk("entry", base[1], ty="dict"), key, ty="bool")
        if base == "doc":
            return self.doc_has(key, st)
        if isinstance(base, tuple) and base[0] == "part":
            if key.op == "const":
                return const(T.cval(key) in ("len", "data"))
            return mk("haskey", mk("entry", base[1], ty="dict"), key, ty="bool")
        raise AssertionError(base)

    has_desc = False
    full = False                           # every field has an entry

    def base_item(self, base, key, st):
        if base == "spec":
            a = ("arg", "spec", key)
            if a not in st.heap:
                st.heap[a] = DictO(base=("entry", key))
            return mk("ref", a, ty="ref")
        if isinstance(base, tuple) and base[0] == "entry":
            ek = base[1]
            c = self.config(ek)
            if key.op != "const":
                return T.top("specification property with computed name")
            k = T.cval(key)
            self.reads[(ek, k)] = self.reads.get((ek, k), 0) + 1
            if k == "data_enc":
                if c.enc == "b":
                    return const("b")
                return self.not_b(st, mk("enc", ek, ty="str"), ("b",))
            if k == "len_enc":
                if c.lenenc in ("b", "bcd"):
                    return const(c.lenenc)
                return self.not_b(st, mk("lenenc", ek, ty="str"), ("b", "bcd"))
            if k == "len_type":
                if not c.var:
                    return const(0)
                return mk("lentype", ek, ty="int")
            if k == "max_len":
                if c.maxlen is not None:
                    return const(c.maxlen)
                t = mk("maxlen", ek, ty="int")
                return t
            if k == "len_count":
                return const(c.count) if c.count is not None else T.top("len_count")
            if k in ("left_pad", "right_pad"):
                v = c.left if k == "left_pad" else c.right
                if v == "":
                    return const("")
                t = mk("cfgpad", const(k), ek, ty="str")
                self.need(st, T.sub(const(1), T.length(t)))
                return t
            if k == "desc":
                return mk("desc", ek, ty="str")
            return T.top("specification property %r" % k)
        if base == "doc":
            return self.doc_item(key, st)
        if isinstance(base, tuple) and base[0] == "part":
            k = T.cval(key)
            return mk("part", const(k), base[1], ty="bytes")
        raise AssertionError(base)

    def not_b(self, st, t, names):
        for n in names:
            c = c_eq(t, const(n))
            if c not in st.facts:
                st.facts[c] = False
                st._memo = {}
        return t

    def need(self, st, l):
        if l not in st.les:
            st.les = st.les + (l,)
            st._memo = {}

    def base_keys(self, base, st):
        if base == "doc":
            return self.doc_keys(st)
        if isinstance(base, tuple) and base[0] == "part":
            return [(bdd.TRUE, const("len")), (bdd.TRUE, const("data"))]
        return None

    # ------------------------------------------------------------ bounds for C21
    def bounded(self, n, st):
        """n is bounded by the length of an input, a constant or a maximum of the specification"""
        n = st.norm(n)
        c, d = T.lin(n)
        if not d:
            return True
        if st.prove_le0(T.sub(n, const(4096))):
            return True
        for x in self.inputs:
            if st.prove_le0(T.sub(n, T.add(T.scale(T.length(x), 2), const(4096)))):
                return True
        for a in subterms(n):
            if a.op in ("maxlen", "lentype"):
                if st.prove_le0(T.sub(n, T.add(T.scale(a, 2), const(4096)))):
                    return True
        return False

    # ------------------------------------------------------------ document of encode / pp
    doc_nums = ()
    doc_extra = ()

    def doc_keys(self, st):
        out = [(bdd.var(("has", k)), const(k)) for k in ("h", "t", "p") if k not in self.absent]
        out += [(self.has(n), const(str(n))) for n in self.doc_nums if str(n) not in self.absent]
        out += [(bdd.var(("has-other", T.cval(k)) if k.op == "const" else ("haskey", k)), k) for k in self.doc_extra]
        return out

    def has(self, n):
        if self.pair and int(n) in self.pair:
            return bdd.TRUE
        return bdd.var(("has", str(n)))

    def doc_has(self, key, st):
        if key.op == "const":
            k = T.cval(key)
            if k in self.absent:
                return T.FALSE
            if isinstance(k, str) and (k in ("h", "t", "p") or (k.isascii() and k.isdigit() and str(int(k)) == k and int(k) in self.doc_nums)):
                return c_guard(self.has(k) if k.isdigit() else bdd.var(("has", k)))
            if self.pair:
                return T.FALSE
            return c_guard(bdd.var(("has-other", k)))
        for x in self.doc_extra:
            if x is key:
                return c_guard(bdd.var(("haskey", key)))
        return mk("haskey", DOC, key, ty="bool")

    def doc_item(self, key, st):
        if self.docval == "parts":
            a = ("arg", "doc", key)
            if a not in st.heap:
                st.heap[a] = DictO(base=("part", key))
            return mk("ref", a, ty="ref")
        return self.value(key)

    def value(self, key):
        """The document's value of a key"""
        ty = "str" if key.op == "const" and T.cval(key) in self.strs else self.docval
        return T.NONE if ty == "none" else mk("val", key, ty=ty)


def boot(repo, modules):
    """Import the package modules abstractly; -> (interp, boot state)"""
    i = Interp(repo)
    st = State()
    for m in modules:
        if i.import_module(m, st) is None:
            raise FileNotFoundError(m)
    return i, st


def func(i, st, module, name):
    m = i.modules.get(module)
    if m is None:
        return None
    return st.heap[m.env].vars.get(name)


def call(i, st, scen, f, args):
    """Run entry point f -> (returns, raises)"""
    i.scenario = scen
    m = Module("<api>", "<api>", None)
    i.modules.setdefault("<api>", m)
    st.heap[m.env] = EnvO({}, None, None)
    fr = Frame(i, None, m.env, 0, None, m)
    class N:
        lineno = 0
        col_offset = 0
    i.sink_push(fr.raises)
    rets = i.call(f, args, {}, st, fr, N())
    i.sink_pop(1)
    return rets, fr.raises
