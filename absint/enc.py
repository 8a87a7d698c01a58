"""Encoding: the summaries of encode() against the wire format (proof over terms, refutation in worlds)."""
from . import bdd, ref, scen as S, terms as T
from .terms import mk, const
from .evalt import NoModel, Undefined
from .outcome import CDict, Inst, Marker, Outcome, collect, conc, match, refute, field_loops, decisive
from .worlds import Gen, Mined
from .state import subterms, c_eq0, c_lt, c_le0, c_odd, c_guard
from .dec import Mismatch, place, elem_props, shape, exc_text, CDict
from .decp import Fail, Split, Unproved, SPart, pred, resolve, cases, items_of, same, same_entry, Format, _spec
from .interp import byte_elems

EERR = "iso8583.encoder.EncodeError"
DOCA = ("arg", "doc")

COND = {"keys": {"C06"}, "type": {"C10"}, "odd-hex": {"C10"}, "non-hex": {"C10"}, "codec": {"C09"}, "fixed-size": {"C08"}, "over": {"C08"},
        "fit": {"C08"}, "len-codec": {"C08"}, "size": {"C23"}, "missing": {"C25"}, "range": {"C06"}, "nospec": {"C08"}}


def spurious(key):
    if key == "p":
        return {"C27", "C06"}
    if key == "1":
        return {"C27", "C06", "C23"}
    if key == "t":
        return {"C27", "C23"}
    if key == "h":
        return {"C27", "C25", "C09"}
    return {"C27", "C09"}


class Bind:
    """A document world with the roles of loop-carried symbols"""
    def __init__(self, w, recs):
        self.w, self.recs = w, recs
        self.models, self.pres = {}, {}
        parts, err = w.parts, w.err
        self.badkeys = ref.key_problem(w.doc)
        if err is not None and err.cond in ("range", "keys"):
            # the course of a program that does not care
            parts, err = ref.encode(w.doc, w.spec, False)
        self.fparts = [p for p in parts if p.key.isdigit() and p.key != "1"]
        self.order = [str(n) for n in sorted(int(k) for k in w.doc if ref.canonical(k) and 1 <= int(k) <= 192 and k not in ("1", "65"))]
        self.n_done = len(self.fparts)
        self.accepted = err is None
        self.in_fields = err is None or err.key in self.order
        self.early = not self.in_fields and not self.badkeys
        self.pwire = b"".join(p.len + p.data for p in parts if p not in self.fparts)

    def model(self, o):
        closed = tuple(o.closed)
        if o.open is None:
            k = ("c",) + tuple(id(r) for r in closed)
            if k not in self.models:
                syms = {}
                ok = all(self.bind(r, None, syms) for r in closed)
                self.models[k] = self.w.model(syms) if ok else None
            m = self.models[k]
            return [] if m is None else [(None, m)]
        out = []
        for j in range(max(min(self.n_done + 1, len(self.order)), 1 if self.badkeys else 0)):
            k = ("o", id(o.open), j) + tuple(id(r) for r in closed)
            if k not in self.models:
                syms = {}
                ok = all(self.bind(r, None, syms) for r in closed) and self.bind(o.open, j, syms)
                self.models[k] = self.w.model(syms) if ok else None
            if self.models[k] is not None:
                out.append((j, self.models[k]))
        return out

    def bind(self, rec, j, syms):
        early = self.early
        if early and (self.w.loose(self.w.err.key) or rec not in self.field_loops or rec.dom is None or len(rec.dom) <= 24):
            return False
        try:
            r = self.pres.get(rec)
            if r is None and rec.pre is not None:
                if not hasattr(rec, "pre_out"):
                    rec.pre_out = Outcome("pre", rec.pre, None)
                r = self.pres[rec] = match(rec.pre_out, self.w.model(dict(syms)))
            if r is False:
                return False
        except Undefined:
            return False
        if rec.kind != "items" or rec.dom is None:
            raise NoModel("loop %s" % rec.where)
        m = self.w.model(dict(syms))
        els = [n for g, n in rec.dom if m.guard(g)]
        if early:
            # the loop should not have been reached: its first iteration needs no reference
            if bool(els) is (j is None):
                return False
            if els:
                syms[rec.N.args[0]] = els[0]
            m = self.w.model(dict(syms))
            try:
                for s, entry in rec.phis.items():
                    syms[s.args[0]] = conc(rec.pre, m, entry)
            except Undefined:
                return False
            return True
        if [str(n) for n in els] != self.order:
            if self.badkeys and [str(n) for n in els][:j + 1 if j is not None else None] != self.order[:j + 1 if j is not None else None] and not (
                    j == 0 and els):
                raise NoModel("loop %s runs over keys that must be refused" % rec.where)
            if not self.badkeys and decisive(rec, [str(n) for n in els], self.order, self.field_loops, self.outs):
                more = {"C27"} if set(map(str, els)) - set(self.order) else set()
                raise Mismatch({"C04", "C06"} | more, "fields are those of the document", "%s runs over fields %s, the document has %s" %
                               (rec.where, [str(n) for n in els][:20], self.order[:20]), None, "fieldset")
            if not self.badkeys:
                raise NoModel("loop %s does not run over the fields of the document" % rec.where)
        if j is None:
            if not self.accepted:
                return False
            j = len(els)
        elif j >= len(els):
            return False
        else:
            syms[rec.N.args[0]] = els[j]
        m = self.w.model(dict(syms))
        for s, entry in rec.phis.items():
            try:
                e = conc(rec.pre, m, entry)
            except Undefined:
                return False
            syms[s.args[0]] = self.role(e, j, rec, s)
        return True

    def role(self, e, j, rec, s):
        if j == 0:
            return e
        w = b"".join(p.len + p.data for p in self.fparts[:j])
        if j > len(self.order):
            raise NoModel("number of fields")
        if isinstance(e, (bytes, bytearray)):
            return type(e)(bytes(e) + w)
        if isinstance(e, bool) or e is None:
            raise NoModel("loop variable %s" % s.args[0])
        if isinstance(e, int) and e == len(self.pwire):
            return e + len(w)
        if isinstance(e, str) and e in ("p", "1", "t"):
            return self.order[j - 1]
        raise NoModel("loop variable %s" % s.args[0])


def expected(w, upto=None):
    e = {}
    for p in w.parts[:upto]:
        if p.key == "1+":
            e["1"] = {"len": b"", "data": e["1"]["data"] + p.data}
        else:
            e[p.key] = {"len": p.len, "data": p.data}
    return e


def doc_changes(st, m, w):
    """Entries of the document that differ from what the caller passed: key -> new value or KeyError"""
    o = st.heap[DOCA]
    out = {}
    for k, (g, v, site) in o.items.items():
        kk = m.ev(k)
        present = m.guard(g)
        if present:
            val = conc(st, m, v) if v.op == "ref" else m.ev(v)
            if kk not in w.doc or w.doc[kk] != val or type(w.doc[kk]) is not type(val):
                out[kk] = val
        elif kk in w.doc:
            out[kk] = KeyError
    return out


def enc_entry(key, e, want, accept_type=True):
    if not isinstance(e, dict) or set(e) != {"len", "data"}:
        yield Mismatch({"C14"}, "encoded entry has exactly len and data", "encoded entry %r is %.120r" % (key, e), key, "eshape")
        return
    for n in ("len", "data"):
        if type(e[n]) is not bytes:
            yield Mismatch({"C14"}, "encoded parts are immutable bytes", "encoded entry %r, %s is %s" % (key, n, type(e[n]).__name__), key, "etype" + n)
        if isinstance(e[n], (bytes, bytearray, memoryview)) and bytes(e[n]) != want[n]:
            if key in ("p", "1"):
                ps = {"C06"} if n == "data" else {"C23"}
                if n == "data" and len(e[n]) != len(want[n]):
                    ps.add("C23")
            elif key == "t":
                ps = {"C23", "C09"}
            else:
                ps = {"C08"} if n == "len" else {"C09"}
                if n == "data" and len(e[n]) != len(want[n]):
                    ps.add("C08")
                if key == "h":
                    ps.add("C25")
            yield Mismatch(ps, "element is encoded as configured", "encoded entry %r, %s is %.80r, required %.80r" % (key, n, bytes(e[n]), want[n]), key, "e" + n)


def compare(o, b, j, m, run):
    w = b.w
    out = []
    st = o.st
    nbase = len(w.parts) - len(b.fparts) if not b.badkeys else len(w.parts)
    key = b.order[j] if j is not None and j < len(b.order) else None
    if not isinstance(w.doc.get(key or "t", ""), str) and w.doc_any:
        pass
    # the document: only p, 1 and 65 may change, on success and on failure
    ch = doc_changes(st, m, w)
    for k, v in ch.items():
        if k not in ("p", "1", "65"):
            out.append(Mismatch({"C11"} | ({"C25"} if k == "h" else set()) | ({"C06"} if k == "t" else set()), "encode leaves the document's other entries alone",
                                "document entry %r becomes %.60r" % (k, "absent" if v is KeyError else v), k, "doc"))
    if o.kind == "iter":
        if o.rec is not o.open or j is None or b.badkeys:
            return out
        if j >= b.n_done:
            if w.loose(key):
                return out
            if b.early:
                out.append(Mismatch(COND[w.err.cond] | (elem_props(w.err.key) if w.err.cond in ("missing", "size") else set()), "element that cannot be encoded is refused (%s)" % w.err.cond,
                                    "fields are encoded although %r" % w.err, w.err.key, "accept"))
                return out
            out.append(Mismatch(COND[w.err.cond], "element that cannot be encoded is refused (%s)" % w.err.cond, "field %s is accepted although: %s" % (key, w.err.cond), key, "accept"))
            return out
        p = b.fparts[j]
        e = conc(st, m, mk("ref", run.enc_a, ty="ref"))
        if key not in e:
            out.append(Mismatch({"C04"}, "every element is reported", "encoded dictionary lacks field %s" % key, key, "missing"))
            got = None
        else:
            out += enc_entry(key, e[key], {"len": p.len, "data": p.data})
            got = e[key]
        for s, v in o.posts.items():
            if s not in o.rec.phis:
                continue
            entry = conc(o.rec.pre, b.w.model({}), o.rec.phis[s])
            if not isinstance(entry, (bytes, bytearray)):
                continue
            acc = m.ev(s)
            new = conc(st, m, v)
            own = bytes(got["len"]) + bytes(got["data"]) if isinstance(got, dict) and set(got) == {"len", "data"} else p.len + p.data
            if bytes(new) != bytes(acc) + own:
                add = bytes(new)[len(acc):] if bytes(new).startswith(bytes(acc)) else bytes(new)
                out.append(Mismatch({"C04"}, "the message is the concatenation of its reported parts", "field %s adds %.60r to the message but reports %.60r" % (key, add, own), key, "post"))
        exp = expected(w, nbase)
        for k in set(e) - set(exp) - {key}:
            out.append(Mismatch({"C04"}, "only encoded elements are reported", "encoded dictionary has %r" % (k,), k, "unexpected"))
        for k in exp:
            if k not in e:
                out.append(Mismatch({"C04"}, "every element is reported", "encoded dictionary lacks %r" % (k,), k, "missing"))
            else:
                out += enc_entry(k, e[k], exp[k])
        return out
    if o.kind == "ret":
        if w.err is not None:
            if not w.loose(w.err.key):
                out.append(Mismatch(COND[w.err.cond] | (elem_props(w.err.key) if w.err.cond in ("missing", "size") else set()), "element that cannot be encoded is refused (%s)" % w.err.cond, "accepted although %r" % w.err, w.err.key, "accept"))
            return out
        r = conc(st, m, o.v)
        if not (isinstance(r, tuple) and len(r) == 2 and type(r[0]) is bytearray and type(r[1]) is CDict):
            out.append(Mismatch({"C14"}, "encode returns a bytearray and a dictionary", "encode returns %.100r" % (r,), None, "ret"))
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (bytes, bytearray)) and type(r[1]) is CDict):
                return out
        s, e = r
        exp = expected(w)
        looped = bool(e.loops)
        fkeys = {p.key for p in b.fparts}
        missing = set(exp) - set(e) - (fkeys if looped else set())
        for k in missing:
            out.append(Mismatch({"C04"} | ({"C06"} if k in ("p", "1") else set()) | ({"C25"} if k == "h" else set()), "every element is reported", "encoded dictionary lacks %r" % (k,), k, "missing"))
        for k in set(e) - set(exp):
            out.append(Mismatch({"C04"} | ({"C06"} if k in ("p", "1") else set()) | ({"C25"} if k == "h" else set()), "only encoded elements are reported", "encoded dictionary has %r" % (k,), k, "unexpected"))
        good = True
        for k in exp:
            if k in e:
                ms = list(enc_entry(k, e[k], exp[k]))
                out += ms
        parts = b""
        for k in [p.key for p in w.parts if p.key != "1+"]:
            x = e.get(k)
            if x is None and looped and k in fkeys:
                q = next(p for p in b.fparts if p.key == k)
                parts += q.len + q.data
            elif isinstance(x, dict) and set(x) == {"len", "data"}:
                parts += bytes(x["len"]) + bytes(x["data"])
        if bytes(s) != parts and not missing:
            out.append(Mismatch({"C04"}, "the message is the concatenation of its reported parts", "message is %.80s, parts are %.80s" % (bytes(s).hex(), parts.hex()), None, "message"))
        want = {p.key: p.dec for p in w.parts if p.key in ("p", "1")}
        for p in w.parts:
            if p.key == "1+":
                want["1"] += p.dec
        final = dict(w.doc)
        for k, v in ch.items():
            if v is KeyError:
                final.pop(k, None)
            else:
                final[k] = v
        for k in ("p", "1", "65"):
            if final.get(k, None) != want.get(k, None):
                out.append(Mismatch({"C06"}, "p and 1 of the document are the generated bitmaps", "document entry %r is %.60r, required %.60r" % (k, final.get(k), want.get(k)), k, "bitmapdoc"))
        return out
    # ---------------------------------------------------------------- raises
    cl = o.classes()
    if cl is None:
        raise NoModel("raised value")
    if EERR not in cl:
        out.append(Mismatch({"C02"}, "only EncodeError escapes", "%s escapes (%s)" % (cl[0], exc_text(o)), None, "escape"))
        if w.err is None:
            out[-1].props = {"C02", "C27"}
        return out
    a = o.attrs()
    miss = [n for n in ("msg", "doc_dec", "doc_enc", "field") if n not in a]
    if miss:
        out.append(Mismatch({"C16"}, "EncodeError attributes", "attribute %s is missing" % ", ".join(miss), None, "attr"))
        return out
    field = conc(st, m, a["field"])
    if st.norm(a["doc_dec"]) is not S.DOC:
        out.append(Mismatch({"C16"}, "doc_dec is the caller's document", "doc_dec is %s" % T.show(a["doc_dec"])[:60], None, "doc_dec"))
    e = conc(st, m, a["doc_enc"])
    if type(e) is not CDict:
        out.append(Mismatch({"C16"}, "partial dictionary", "doc_enc is %.60r" % (e,), None, "partial"))
        return out
    el = w.err
    if b.badkeys and el.cond in ("range", "keys") and j is not None:
        if field != "p" and not w.loose(el.key):
            out.append(Mismatch({"C06", "C16"}, "element that cannot be encoded is refused (%s)" % el.cond, "fields are encoded although %r; %s reported instead" % (el, field), el.key, "accept"))
        return out
    if field == "p" and b.badkeys and j is None:
        # problems with the set of keys may be reported before or after h and t
        exp = expected(w, nbase)
        for k in set(e) - {"h", "t"}:
            out.append(Mismatch({"C16"}, "partial dictionary holds only encoded elements", "unexpected element %r" % (k,), k, "unexpected"))
        return out
    if j is not None and el is not None and j < b.n_done:
        el = None
    if el is None:
        k = key if j is not None else field
        if w.loose(k):
            return out
        out.append(Mismatch(spurious(k), "encodable element is accepted", "element %s is refused (%s) although it can be encoded" % (k, T.show(a["msg"])[:80]), k, "refuse"))
        return out
    if (j is None or b.early) and field != el.key:
        fi, ei = place(field), place(el.key)
        if ei < fi and not w.loose(el.key):
            out.append(Mismatch(COND[el.cond] | {"C16"}, "element that cannot be encoded is refused (%s)" % el.cond, "element %s is accepted although %s; %s reported instead" % (el.key, el.cond, field), el.key, "accept"))
        elif fi < ei and field in [p.key for p in w.parts]:
            out.append(Mismatch(spurious(field) | {"C16"}, "encodable element is accepted", "element %s is refused although it can be encoded" % field, field, "refuse"))
        else:
            out.append(Mismatch({"C16"}, "field names the failing element", "field is %r, required %r" % (field, el.key), el.key, "field"))
        return out
    if w.loose(el.key):
        return out
    if field != el.key or type(field) is not str:
        out.append(Mismatch({"C16"}, "field names the failing element", "field is %r, required %r (%s)" % (field, el.key, el.cond), el.key, "field"))
    exp = expected(w, nbase if j is not None else len(w.parts))
    if j is None and e.loops:
        for k in list(exp):
            if k.isdigit() and k != "1" and k not in e:
                del exp[k]
    if j is not None and j > 0 and o.open not in e.loops:
        out.append(Mismatch({"C16"}, "partial dictionary holds the completed elements", "completed fields are missing from the partial dictionary", None, "loops"))
    for k in exp:
        if k not in e:
            out.append(Mismatch({"C16"}, "partial dictionary holds the completed elements", "completed element %r is missing" % (k,), k, "missing"))
    for k in e:
        if k not in exp and k != el.key:
            out.append(Mismatch({"C16"}, "partial dictionary holds only encoded elements", "unexpected element %r" % (k,), k, "unexpected"))
    out += [x for x in shape({}, e)]
    bad = {x.key for x in out}
    for k in exp:
        if k in e and k not in bad:
            if k == el.key:
                if not (e[k]["len"] == exp[k]["len"] and e[k]["data"].startswith(exp[k]["data"])):
                    out.append(Mismatch({"C16"}, "partial dictionary holds the completed elements", "element %r lost" % k, k, "partial"))
                continue
            for x in enc_entry(k, e[k], exp[k]):
                x.props = x.props | {"C16?"}
                out.append(x)
    return out


CONV = {"bytes": lambda v: v.encode("utf-8"), "int": lambda v: len(v), "none": lambda v: None,
        "list": lambda v: list(v[:5]), "float": lambda v: 1.5 * len(v)}


class Run:
    """Analysis of encode() in one scenario"""
    def __init__(self, repo, sc, module="iso8583.encoder", name="encode"):
        self.sc = sc
        i, st = S.boot(repo, [module])
        self.i = i
        f = S.func(i, st, module, name)
        if f is None:
            raise FileNotFoundError("%s.%s" % (module, name))
        st.heap[("arg", "spec")] = S.DictO(base="spec")
        st.heap[DOCA] = S.DictO(base="doc")
        if sc.pair:
            sc.doc_nums = (1,) + tuple(sc.pair) + (65,)
        elif not sc.doc_nums:
            sc.doc_nums = range(0, 200)
        self.rets, self.raises = S.call(i, st, sc, f, [S.DOC, S.SPEC])
        self.outs, self.recs = collect(i, self.rets, self.raises)
        self.enc_a = self.msg_a = None
        for st, v in self.rets:
            if v.op == "tuple" and len(v.args) == 2 and v.args[1].op == "ref":
                self.enc_a = v.args[1].args[0]
                self.msg_a = v.args[0].args[0] if v.args[0].op == "ref" else None
        if self.enc_a is None:
            # never successful
            for o in self.outs:
                a = o.attrs() if o.kind == "raise" and EERR in (o.classes() or ()) else {}
                if "doc_enc" in a and a["doc_enc"].op == "ref":
                    self.enc_a = a["doc_enc"].args[0]
                    break
        for o in self.outs:
            o.site = "%s:%s:return" % (module.replace(".", "/") + ".py", name)
        self.field_loops = field_loops(self.outs, (self.enc_a,))
        self.nomodel = {}

    def worlds(self, n, seed, mined=None):
        g = Gen(self.sc, seed, mined)
        binary = {k for k in ("h", "t") if self.sc.cfg[k].enc == "b"}
        for _ in range(n):
            w = g.document()
            if self.sc.docval != "str":
                conv = CONV[self.sc.docval]
                w.doc = {k: v if k in self.sc.strs else conv(v) for k, v in w.doc.items()}
                w.parts, w.err = ref.encode(w.doc, w.spec)
            w.doc_any = self.sc.docval != "str"
            w.loose = (lambda k, w=w: self.sc.docval == "bytes" and (w.spec.get(k) or {}).get("data_enc", "b") == "b"
                       or k == "p" and w.err is not None and (w.err.cond == "keys" or w.err.cond == "signed"))
            yield self.rebind(w)

    def check(self, o, b, j, m):
        return compare(o, b, j, m, self)

    def rebind(self, w):
        b = Bind(w, self.recs)
        b.field_loops, b.outs = self.field_loops, self.outs
        return b

    def refute(self, outs, n, seed, mined=None):
        return refute(self, outs, self.worlds(n, seed, mined))


# ====================================================================== proof
def has(n):
    return bdd.var(("has", str(n)))


class Loose(Exception):
    """The documentation does not say"""


def settled(go):
    def f(st):
        try:
            return go(st)
        except Loose:
            return []
    return f


class EFormat(Format):
    def __init__(self, st, sc, run):
        super().__init__(st, sc, None, run.i.lib)
        self.run = run
        self.nums = [n for n in sc.doc_nums if n not in (1, 65) and str(n) not in sc.absent]

    def any(self, ns):
        return bdd.any_([self.sc.has(n) for n in ns if n in self.nums])

    def raw(self, key, v, c, count):
        st = self.st
        if v.ty == "bytes" and c.enc == "b":
            raise Loose
        if v.ty != "str":
            raise Fail(key, None, "type")
        if c.enc == "b":
            x = v
            if count == "nibbles" and self.ask(c_odd(st.norm(T.length(v)))):
                if c.left:
                    x = T.concat([T.mk_slice(mk("cfgpad", const("left_pad"), key, ty="str"), const(0), const(1)), v], "str")
                elif c.right:
                    x = T.concat([v, T.mk_slice(mk("cfgpad", const("right_pad"), key, ty="str"), const(0), const(1))], "str")
            x = st.norm(x)
            o = c_odd(st.norm(T.length(x)))
            if st.decide(o) is True:
                raise Fail(key, None, "odd-hex")
            self.refuse_unless(pred("hexstr", x), key, None, "non-hex")
            d = self.lib.unhex_term(x)
            return d, T.length(v) if count == "nibbles" else T.length(d)
        enc = mk("enc", key, ty="str")
        self.refuse_unless(pred("codec", enc), key, None, "codec")
        self.refuse_unless(pred("encodable", v, enc), key, None, "codec")
        d = mk("encode", v, enc, ty="bytes")
        return d, T.scale(T.length(d), 2) if count == "nibbles" else T.length(d)

    def efield(self, key):
        st = self.st
        c = self.sc.config(key)
        v = self.sc.value(key)
        d, n = self.raw(key, v, c, c.count or "bytes")
        n = st.norm(n)
        ml = const(c.maxlen) if c.maxlen is not None else mk("maxlen", key, ty="int")
        if not c.var:
            self.refuse_unless(c_eq0(st.norm(T.sub(n, ml))), key, None, "fixed-size")
            return SPart(key, None, T.EMPTY_B, d, v, None)
        self.refuse_if(c_lt(ml, n), key, None, "over")
        lt = mk("lentype", key, ty="int")
        if c.lenenc == "b":
            self.refuse_unless(st.norm(pred("fits", n, lt, T.FALSE)), key, None, "fit")
            ln = mk("to_bytes", n, lt, const("big"), ty="bytes")
        elif c.lenenc == "bcd":
            s = mk("fmt0", n, T.scale(lt, 2), ty="str")
            self.refuse_if(c_lt(T.scale(lt, 2), T.length(s)), key, None, "fit")
            ln = self.lib.unhex_term(st.norm(s))
        else:
            s = st.norm(mk("fmt0", n, lt, ty="str"))
            le = mk("lenenc", key, ty="str")
            self.refuse_unless(pred("codec", le), key, None, "len-codec")
            self.refuse_unless(pred("encodable", s, le), key, None, "len-codec")
            ln = mk("encode", s, le, ty="bytes")
            self.refuse_if(c_lt(lt, T.length(ln)), key, None, "fit")
        return SPart(key, None, ln, d, v, None)

    def prefix(self, sink, X):
        """X: raw bitmap terms of the document's p and 1 entries, already checked against the guards"""
        st = self.st
        hc = self.sc.cfg["h"]
        ml = const(hc.maxlen) if hc.maxlen is not None else mk("maxlen", const("h"), ty="int")
        if not self.ask(c_le0(st.norm(ml))):
            self.present("h")
            sink.append(self.efield(const("h")))
        self.present("t")
        c = self.sc.cfg["t"]
        t = const("t")
        v = self.sc.value(t)
        d, n = self.raw(t, v, c, "bytes")
        self.refuse_unless(c_eq0(st.norm(T.sub(T.length(d), const(2 if c.enc == "b" else 4)))), t, None, "size")
        sink.append(SPart(t, None, T.EMPTY_B, d, v, None))
        self.keys()
        sec = self.any(range(66, 129))
        ter = self.any(range(129, 193))
        pri = [bdd.or_(sec, ter)] + [self.any([n]) for n in range(2, 65)]
        sink.append(self.ebitmap("p", pri))
        if self.ask(c_guard(bdd.or_(sec, ter))):
            b1 = self.ebitmap("1", [ter] + [self.any([n]) for n in range(66, 129)])
            sink.append(b1)
            if self.ask(c_guard(ter)):
                b2 = self.ebitmap("1", [self.any([n]) for n in range(129, 193)], partial=b1)
                b1.dec = b1.dec + b2.dec
                b1.data = b1.data + b2.data

    def walk(self, sink, most=3):
        """The fields of the document one by one, when there are few"""
        st = self.st
        may = [n for n in sorted(self.nums) if bdd.and_(st.gpc, self.sc.has(n)) != bdd.FALSE]
        if len(may) > most:
            raise Unproved("no field loop")
        for n in may:
            if not self.ask(c_guard(self.sc.has(n))):
                continue
            K = const(str(n))
            if not self.ask(self.sc.base_has("spec", K, st)):
                raise Fail(K, None, "nospec")
            sink.append(self.efield(K))

    def keys(self):
        """The set of keys is acceptable"""
        bad = self.any([n for n in self.nums if n < 1 or n > 192])
        odd = bdd.FALSE
        for k in self.sc.doc_extra:
            if k.op != "const":
                if k.args[0] in BADKEYS:
                    bad = bdd.or_(bad, bdd.var(("haskey", k)))
            elif not isinstance(T.cval(k), str):
                odd = bdd.or_(odd, bdd.var(("has-other", T.cval(k))))
            elif ref.key_problem([T.cval(k)]):
                bad = bdd.or_(bad, bdd.var(("has-other", T.cval(k))))
        self.refuse_if(c_guard(odd), const("p"), None, "keys")
        self.refuse_if(c_guard(bad), const("p"), None, "range")

    def present(self, k):
        has_k = self.sc.doc_has(const(k), self.st)
        self.refuse_unless(has_k, const(k), None, "missing")

    def ebitmap(self, name, gs, partial=None):
        """Bitmaps are carried as guard lists: dec/data are tuples of 64 guards"""
        key = const(name)
        c = self.sc.config(key)
        if c.enc != "b":
            h = self.bitmap_text(gs)
            if h is None:
                raise Unproved("bitmap term")
            enc = mk("enc", key, ty="str")
            self.refuse_unless(pred("codec", enc), key, None, "codec")
            self.refuse_unless(pred("encodable", h, enc), key, None, "codec")
            self.refuse_unless(c_eq0(self.st.norm(T.sub(T.length(mk("encode", h, enc, ty="bytes")), const(16)))), key, None, "size")
        return SPart(key, None, T.EMPTY_B, (tuple(gs),), (tuple(gs),), None)

    def bitmap_text(self, gs):
        """The term this state uses for the upper case hex of these 64 bits (searched in its facts)"""
        st = self.st
        cands = []
        for c in list(st.facts) + list(st.subst) + list(st.les):
            for x in subterms(c):
                if x.op == "bytesof" and len(x.args) == 8:
                    cands.append(x)
        for o in st.heap.values():
            if o.kind == "dict":
                for k, (g, v, s) in o.items.items():
                    for x in subterms(v):
                        if x.op == "bytesof" and len(x.args) == 8:
                            cands.append(x)
        seen = set()
        for x in cands:
            if x in seen:
                continue
            seen.add(x)
            if self.is_bits(x, gs):
                return T.upper(T.hexstr(x))
        if all(g == bdd.FALSE for g in gs):
            return const("0" * 16)
        b = bytearray(8)
        if all(bdd.and_(st.gpc, g) == bdd.FALSE or bdd.implies(st.gpc, g) for g in gs):
            for i, g in enumerate(gs):
                if bdd.implies(st.gpc, g):
                    b[i // 8] |= 0x80 >> i % 8
            return const(bytes(b).hex().upper())
        return None

    def is_bits(self, x, gs):
        """bytes term x holds exactly these bits, most significant first"""
        el = byte_elems(T.strip_copy(x))
        if el is None or len(el) * 8 != len(gs):
            return False
        for k, e in enumerate(el):
            bs = self.lib.to_bits(self.st.norm(e), self.st)
            if bs is None:
                return False
            bs = list(bs) + [bdd.FALSE] * 8
            if any(b != bdd.FALSE and bdd.and_(b, self.st.gpc) != bdd.FALSE for b in bs[8:]):
                return False
            for i in range(8):
                if not bdd.equiv_under(self.st.gpc, bs[7 - i], gs[k * 8 + i]):
                    return False
        return True

    # -------------------------------------------------------- matching of bitmap values
    def chunks(self, t):
        t = resolve(self.st, t)
        return list(t.args) if t.op == "concat" else [t]

    def hex_is(self, t, gss):
        """t is the upper case hex text of the given 64-bit groups"""
        cs = self.chunks(t)
        if len(cs) != len(gss):
            return self.whole_hex(t, gss)
        return all(self.hex1(c, g) for c, g in zip(cs, gss))

    def whole_hex(self, t, gss):
        t = resolve(self.st, t)
        if t.op == "const" and isinstance(T.cval(t), str):
            return self.const_is(T.cval(t), gss)
        if t.op == "upper" and t.args[0].op == "hex":
            return self.is_bits(t.args[0].args[0], [g for gs in gss for g in gs])
        return False

    def const_is(self, s, gss):
        try:
            b = bytes.fromhex(s)
        except ValueError:
            return False
        return s == s.upper() and self.is_bits(const(b), [g for gs in gss for g in gs])

    def hex1(self, t, gs):
        if t.op == "const":
            return isinstance(T.cval(t), str) and len(T.cval(t)) == 16 and self.const_is(T.cval(t), (gs,))
        return t.op == "upper" and t.args[0].op == "hex" and self.is_bits(t.args[0].args[0], gs)

    def data_is(self, t, gss, c, key):
        t = resolve(self.st, t)
        if t.ty != "bytes":
            return False
        cs = list(t.args) if t.op == "concat" else [t]
        if c.enc == "b":
            if len(cs) == len(gss) and all(self.is_bits(x, g) for x, g in zip(cs, gss)):
                return True
            return self.is_bits(t, [g for gs in gss for g in gs])
        enc = mk("enc", key, ty="str")
        return len(cs) == len(gss) and all(
            T.strip_copy(x).op == "encode" and len(T.strip_copy(x).args) == 2 and T.strip_copy(x).args[1] is enc and
            self.hex1(resolve(self.st, T.strip_copy(x).args[0]), g) for x, g in zip(cs, gss))


BADKEYS = ("big", "zero", "arab", "supers", "frac")


def folded(o, recs):
    """The table holds the entries of completed iterations of exactly these loops"""
    return tuple(o.loops) == tuple(r for r in recs if r.backs)


class Prover:
    def __init__(self, run):
        self.run, self.sc = run, run.sc

    def prove(self, o):
        try:
            if o.st.weak:
                return [("weak", None)]
            return {"raise": self.raise_, "ret": self.ret, "iter": self.iter_}[o.kind](o)
        except Unproved as e:
            return [("cases: %s" % e, False)]
        except Split as e:
            return [("case split on %s" % T.show(e.c)[:60], False)]

    def field_loop(self, f, rec):
        if rec.kind != "items" or rec.unordered or rec.dom is None:
            return False
        last, table = 0, {}
        for g, n in rec.dom:
            if n <= last:
                return False
            last = n
            table[n] = g
        for n in set(range(2, 200)) | set(table):
            if not bdd.equiv_under(rec.pre.gpc, table.get(n, bdd.FALSE), f.any([n])):
                return False
        return True

    def doc(self, st, final):
        """Only p, 1 and 65 of the document differ"""
        o = st.heap[DOCA]
        ok = not o.loops and o.base == "doc" and all(k.op == "const" and T.cval(k) in ("p", "1", "65") for k in o.items)
        return [("document", ok)]

    def entries(self, f, it, parts):
        st = f.st
        out = []
        for p in parts:
            x = it.get(p.key)
            if x is None:
                out.append(("missing", False))
                continue
            out += self.entry(f, x[1], p)
        return out

    def entry(self, f, v, p):
        st = f.st
        if not isinstance(p.data, tuple):
            return [c for c in same_entry(st, p.dec, v, p) if c[0] != "dec"]
        v = resolve(st, v)
        if v.op != "ref":
            return [("eshape", False)]
        it, o = items_of(st, v.args[0])
        if set(it) != {const("len"), const("data")} or o.loops:
            return [("eshape", False)]
        c = self.sc.config(p.key)
        return [("elen", resolve(st, it[const("len")][1]) is T.EMPTY_B),
                ("bits", f.data_is(it[const("data")][1], p.data, c, p.key))]

    def message(self, f, t, parts):
        """t is the concatenation of the parts"""
        st = f.st
        t = resolve(st, t)
        cs = list(t.args) if t.op == "concat" else ([] if t in (T.EMPTY_B,) else [t])
        want = []
        for p in parts:
            if isinstance(p.data, tuple):
                want += [(p.key, g) for g in p.data]
            else:
                for x in (p.len, p.data):
                    x = st.norm(x)
                    want += [x] if x.op != "concat" else list(x.args)
        want = [x for x in want if x is not T.EMPTY_B]
        # groups of bits may be fused with their neighbours
        k = 0
        i = 0
        while i < len(want):
            x = want[i]
            if k >= len(cs):
                return False
            if isinstance(x, tuple):
                c = self.sc.config(x[0])
                if f.data_is(T.tobytes(cs[k]), (x[1],), c, x[0]):
                    i += 1
                    k += 1
                    continue
                if i + 1 < len(want) and isinstance(want[i + 1], tuple) and f.data_is(T.tobytes(cs[k]), (x[1], want[i + 1][1]), c, x[0]):
                    i += 2
                    k += 1
                    continue
                # longer fusion: primary, secondary and extension in one computed string
                el = byte_elems(T.strip_copy(cs[k]))
                if el is not None and len(el) % 8 == 0:
                    n = len(el) // 8
                    ws = want[i:i + n]
                    if len(ws) == n and all(isinstance(w, tuple) and self.sc.config(w[0]).enc == "b" for w in ws) \
                            and f.is_bits(cs[k], [g for w in ws for g in w[1]]):
                        i += n
                        k += 1
                        continue
                return False
            if T.strip_copy(cs[k]) is T.strip_copy(x) or st.prove_eq(cs[k], x):
                i += 1
                k += 1
                continue
            return False
        return k == len(cs)

    def iter_(self, o):
        rec = o.rec
        out = []
        if [r for r in o.closed if r is not rec]:
            return [("nested", False)]

        def go(st):
            sink = []
            f = EFormat(st, self.sc, self.run)
            f.prefix(sink, None)
            if not self.field_loop(f, rec):
                return [("field loop", False)]
            K = st.norm(mk("str_of_int", rec.N, ty="str"))
            known = self.sc.base_has("spec", K, st) if K.op == "const" else mk("haskey", _spec(), K, ty="bool")
            if not f.ask(known):
                raise Fail(K, None, "nospec")
            p = f.efield(K)
            it, eo = items_of(st, self.run.enc_a)
            r = [("keys", set(it) == {x.key for x in sink} | {K} and all(x[0] for x in it.values())), ("loops", folded(eo, (rec,)))]
            r += self.entries(f, it, sink + [p])
            ok = None
            for s, v in o.posts.items():
                if s in rec.phis and s.ty in ("bytes", "bytearray"):
                    v = resolve(st, v)
                    cs = list(v.args) if v.op == "concat" else [v]
                    good = T.strip_copy(cs[0]) is s and self.message(f, T.concat(cs[1:] or [T.EMPTY_B], "bytes"), [p])
                    # the message so far, or the fields alone
                    good = good and (resolve(st, rec.phis[s]) is T.EMPTY_B or self.message(f, rec.phis[s], sink))
                    ok = bool(ok) or good
            r.append(("message", ok is True))
            return r + self.doc(st, False)
        for st, r in cases(o.st, settled(go)):
            out += [("accepts: %s" % r.cond, False)] if isinstance(r, Fail) else r
        return out

    def ret(self, o):
        v = o.v
        if not (v.op == "tuple" and len(v.args) == 2 and v.args[0].op == "ref" and v.args[1].op == "ref"):
            return [("ret", False)]
        out = []

        def go(st):
            mo = st.heap.get(v.args[0].args[0])
            if mo is None or mo.kind != "bytearray" or v.args[0].args[0][0] != "h":
                return [("ret", False)]
            sink = []
            f = EFormat(st, self.sc, self.run)
            f.prefix(sink, None)
            it, eo = items_of(st, v.args[1].args[0])
            r = [("keys", set(it) == {x.key for x in sink} and all(x[0] for x in it.values()))]
            recs = o.closed
            if recs:
                if len(recs) != 1 or not self.field_loop(f, recs[0]):
                    return [("field loop", False)]
                r.append(("loops", folded(eo, recs)))
                if not recs[0].backs:
                    # no element can be encoded: the message has none
                    f.st = st
                    r.append(("elements", not any(bdd.and_(st.gpc, f.any([n])) != bdd.FALSE for n in set(range(2, 200)))))
                c = resolve(st, mo.content)
                cs = list(c.args) if c.op == "concat" else [c]
                last = T.strip_copy(cs[-1])
                if c not in recs[0].phis and last in recs[0].phis and resolve(st, recs[0].phis[last]) is T.EMPTY_B:
                    r.append(("message", self.message(f, T.concat(cs[:-1] or [T.EMPTY_B], "bytes"), sink)))
                else:
                    r.append(("message", self.message(f, recs[0].phis[c], sink) if c in recs[0].phis else
                              not recs[0].backs and self.message(f, c, sink)))
            else:
                f.walk(sink)
                r = [("keys", set(it) == {x.key for x in sink} and all(x[0] for x in it.values()))]
                r.append(("message", self.message(f, mo.content, sink)))
            r += self.entries(f, it, sink)
            r += self.doc(st, True)
            d = st.heap[DOCA]
            want = {p.key: p for p in sink if isinstance(p.data, tuple)}
            for k in ("p", "1", "65"):
                x = d.items.get(const(k))
                if x is None:
                    # untouched: right only where the caller did not pass it
                    r.append(("doc " + k, const(k) not in want and bdd.and_(st.gpc, has(k)) == bdd.FALSE))
                    continue
                g, val, site = x
                if const(k) in want:
                    r.append(("doc " + k, bdd.implies(st.gpc, g) and f.hex_is(val, want[const(k)].dec)))
                else:
                    r.append(("doc " + k, bdd.and_(st.gpc, g) == bdd.FALSE))
            return r
        for st, r in cases(o.st, settled(go)):
            out += [("accepts: %s" % r.cond, False)] if isinstance(r, Fail) else r
        return out

    def raise_(self, o):
        cl = o.classes()
        if cl is None or EERR not in cl:
            return [("class", False)]
        a = o.attrs()
        if any(n not in a for n in ("msg", "doc_dec", "doc_enc", "field")):
            return [("attributes", False)]
        out = [("doc_dec", o.st.norm(a["doc_dec"]) is S.DOC),
               ("partial", a["doc_enc"].op == "ref" and a["doc_enc"].args[0] == self.run.enc_a)]
        if not out[-1][1]:
            return out

        def go(st):
            sink = []
            f = EFormat(st, self.sc, self.run)
            recs = ()
            try:
                if st.norm(a["field"]) is const("p"):
                    # problems with the set of keys may be found before or after h and t
                    f.keys()
                f.prefix(sink, None)
                if o.open is None:
                    if not o.closed:
                        f.walk(sink)
                    return [("justified", False)]
                rec = o.open
                if not self.field_loop(f, rec):
                    return [("field loop", False)]
                recs = (rec,)
                K = st.norm(mk("str_of_int", rec.N, ty="str"))
                known = self.sc.base_has("spec", K, st) if K.op == "const" else mk("haskey", _spec(), K, ty="bool")
                if not f.ask(known):
                    raise Fail(K, None, "nospec")
                f.efield(K)
                return [("justified", False)]
            except Fail as e:
                r = [("justified", True), ("field", same(st, a["field"], e.key))]
                it, eo = items_of(st, self.run.enc_a)
                r.append(("loops", folded(eo, recs)))
                keys = {p.key for p in sink}
                if e.cond in ("range", "keys"):
                    r.append(("keys", set(it) <= {const("h"), const("t")}))
                    return r + self.doc(st, False)
                r.append(("keys", keys <= set(it) and set(it) <= keys | {e.key} and all(x[0] for x in it.values())))
                ext = e.key in keys
                r += self.entries(f, it, [p for p in sink if p.key is not e.key])
                if e.key in it:
                    v = resolve(st, it[e.key][1])
                    ee = items_of(st, v.args[0])[0] if v.op == "ref" else {}
                    r.append(("shape", set(ee) == {const("len"), const("data")} and all(resolve(st, x[1]).ty == "bytes" for x in ee.values())))
                    if ext and r[-1][1]:
                        base = [p for p in sink if p.key is e.key][0]
                        d = resolve(st, ee[const("data")][1])
                        cs = list(d.args) if d.op == "concat" else [d]
                        n = len(base.data)
                        r.append(("extension partial", f.data_is(T.concat(cs[:n], "bytes"), base.data, self.sc.config(e.key), e.key)))
                return r + self.doc(st, False)
        for st, r in cases(o.st, settled(go)):
            out += r
        return out
