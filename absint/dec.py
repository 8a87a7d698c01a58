"""Decoding: the summaries of decode() against the reference model of the wire format."""
from . import bdd, ref, scen as S, terms as T
from .evalt import NoModel, Undefined
from .outcome import CDict, Inst, Marker, Outcome, collect, conc, match, refute, field_loops, decisive
from .worlds import Gen, Mined
from .state import subterms, c_eq0
from .terms import const

DERR = "iso8583.decoder.DecodeError"


class Bind:
    """A world, with the roles of loop-carried symbols"""
    def __init__(self, w, recs):
        self.w = w
        self.recs = recs
        self.base = w.leaves(w)
        self.models = {}
        self.pres = {}
        self.fparts = [p for p in w.parts if p.key.isdigit() and p.key != "1"]
        self.n_done = len(self.fparts)
        self.order = [str(n) for n in sorted(w.fields)]
        self.prefix_end = self.fparts[0].o if self.fparts else (w.parts[-1].end if w.parts else 0)
        self.all_done = w.err is None or w.err.cond == "extra"
        self.prefix_done = self.all_done or w.err.key in self.order and w.err.cond not in ("size", "ext-size", "bm-hex") and w.err.key not in ("p", "1", "h", "t")

    def off(self, j):
        if j < len(self.fparts):
            return self.fparts[j].o
        return self.fparts[-1].end if self.fparts else self.prefix_end

    def key(self, j):
        return self.order[j]

    def model(self, o):
        """Models for outcome o: list of (j, model); j: iteration (None outside the field loop)"""
        closed = tuple(o.closed)
        if self.base is None:
            return []
        if o.open is None:
            k = ("c",) + tuple(id(r) for r in closed)
            if k not in self.models:
                syms = dict(self.base)
                ok = True
                for r in closed:
                    if not self.bind(r, None, syms):
                        ok = False
                self.models[k] = self.w.model(syms) if ok else None
            m = self.models[k]
            return [] if m is None else [(None, m)]
        out = []
        for j in range(min(self.n_done + 1, len(self.order)) if self.prefix_done else 1):
            k = ("o", id(o.open), j) + tuple(id(r) for r in closed)
            if k not in self.models:
                syms = dict(self.base)
                ok = all(self.bind(r, None, syms) for r in closed) and self.bind(o.open, j, syms)
                self.models[k] = self.w.model(syms) if ok else None
            m = self.models[k]
            if m is not None:
                out.append((j, m))
        return out

    def elements(self, rec, syms):
        m = self.w.model(syms)
        if rec.kind == "items" and rec.dom is not None:
            return [n for g, n in rec.dom if m.guard(g)]
        raise NoModel("loop %s" % rec.where)

    def bind(self, rec, j, syms):
        """Values of the symbols of a loop at the head of iteration j (None: after the loop)"""
        if not self.prefix_done and (rec not in self.field_loops or rec.dom is None or len(rec.dom) <= 24):
            return False
        try:
            if rec.pre is not None and not self.holds_pre(rec, syms):
                return False
        except Undefined:
            return False
        els = self.elements(rec, syms)
        if not self.prefix_done:
            # the loop should not have been reached: its first iteration needs no reference
            if bool(els) is (j is None):
                return False
            if els:
                syms[rec.N.args[0]] = els[0]
            m = self.w.model(dict(syms))
            try:
                for s, entry in rec.phis.items():
                    syms[s.args[0]] = conc(rec.pre, m, entry)
            except Undefined:
                return False
            return True
        if [str(n) for n in els] != self.order:
            if decisive(rec, [str(n) for n in els], self.order, self.field_loops, self.outs):
                ps = {"C05", "C03"}
                raise Mismatch(ps, "fields are those the bitmaps announce", "%s runs over fields %s, announced are %s" %
                               (rec.where, [str(n) for n in els][:20], self.order[:20]), None, "fieldset")
            raise NoModel("loop %s does not run over the announced fields" % rec.where)
        if j is None:
            if not self.all_done:
                return False
            j = len(els)
        else:
            syms[rec.N.args[0]] = els[j]
        m = self.w.model(dict(syms))
        for s, entry in rec.phis.items():
            try:
                e = conc(rec.pre, m, entry) if rec.pre is not None else m.ev(entry)
            except Undefined:
                return False
            syms[s.args[0]] = self.role(e, j, rec, s)
        return True

    def holds_pre(self, rec, syms):
        r = self.pres.get(rec)
        if r is None:
            if not hasattr(rec, "pre_out"):
                rec.pre_out = Outcome("pre", rec.pre, None)
            r = self.pres[rec] = match(rec.pre_out, self.w.model(dict(syms)))
        return r

    def role(self, e, j, rec, s):
        if j == 0:
            return e
        buf = self.w.buf
        o0, oj = self.prefix_end, self.off(j)
        if isinstance(e, bool) or e is None:
            raise NoModel("loop variable %s" % s.args[0])
        if isinstance(e, int):
            if e == o0:
                return oj
            if e == len(buf) - o0:
                return len(buf) - oj
            raise NoModel("loop variable %s" % s.args[0])
        if isinstance(e, str):
            if e in ("p", "1"):
                return self.order[j - 1]
            raise NoModel("loop variable %s" % s.args[0])
        if isinstance(e, (bytes, bytearray)):
            if bytes(e) == buf[o0:] and e:
                return type(e)(buf[oj:])
            if bytes(e) == buf[:o0]:
                return type(e)(buf[:oj])
        raise NoModel("loop variable %s" % s.args[0])


def expected(w, upto=None):
    """(decoded, encoded) dictionaries of the completed elements"""
    d, e = {}, {}
    for p in w.parts[:upto]:
        if p.key == "1+":
            d["1"] += p.dec
            e["1"] = {"len": b"", "data": e["1"]["data"] + p.data}
        else:
            d[p.key] = p.dec
            e[p.key] = {"len": p.len, "data": p.data}
    return d, e


class Mismatch(Exception):
    def __init__(self, props, rule, text, key=None, kind=None, actual=None):
        self.props, self.rule, self.text, self.key, self.kind = props, rule, text, key, kind
        self.actual = actual
        super().__init__(text)


def elem_props(key):
    if key == "h":
        return {"C25"}
    if key in ("t", "p", "1"):
        return {"C23"}
    return set()


COND = {"short-len": {"C07"}, "over": {"C07"}, "short-data": {"C07"}, "odd-text": {"C07"}, "len-digits": {"C10"},
        "len-codec": {"C10"}, "bm-hex": {"C10"}, "size": {"C23"}, "ext-size": {"C23"}, "extra": {"C03"},
        "codec": {"C09"}, "pad": {"C09"}, "nospec": {"C05"}}


def spurious(key):
    if key == "extra":
        return {"C27", "C03"}
    if key in ("p", "1"):
        return {"C27", "C23", "C05"}
    if key == "t":
        return {"C27", "C23"}
    if key == "h":
        return {"C27", "C25", "C09"}
    return {"C27", "C09", "C07"}


def check_value(key, d, e, p_dec, p_enc):
    """Entries of one completed element -> mismatches"""
    if not isinstance(d, str):
        yield Mismatch({"C14"}, "decoded entry is text", "decoded entry %r is %s" % (key, type(d).__name__), key, "dtype")
    elif d != p_dec:
        ps = {"C09"} if key not in ("p", "1", "t") else {"C05"} if key in ("p", "1") else {"C09", "C23"}
        yield Mismatch(ps | (elem_props(key) if key == "h" else set()), "decoded value",
                       "decoded entry %r is %.80r, required %.80r" % (key, d, p_dec), key, "dec")
    if not isinstance(e, dict) or set(e) != {"len", "data"}:
        yield Mismatch({"C14"}, "encoded entry has exactly len and data", "encoded entry %r is %.120r" % (key, e), key, "eshape")
        return
    for n in ("len", "data"):
        if type(e[n]) is not bytes:
            yield Mismatch({"C14"}, "encoded parts are immutable bytes", "encoded entry %r, %s is %s" % (key, n, type(e[n]).__name__), key, "etype" + n)
        if isinstance(e[n], (bytes, bytearray, memoryview)) and bytes(e[n]) != p_enc[n]:
            ps = {"C03"} | elem_props(key) | ({"C07"} if key not in ("t", "p", "1") else set())
            yield Mismatch(ps, "element takes its own bytes", "encoded entry %r, %s is %.80r, required %.80r" % (key, n, bytes(e[n]), p_enc[n]), key, "e" + n)


def shape(d, e):
    """Shape of (partial) dictionaries"""
    for k, v in d.items():
        if not isinstance(k, str) or not isinstance(v, str):
            yield Mismatch({"C14"}, "decoded dictionary maps str to str", "decoded entry %r: %.80r" % (k, v), k, "dtype")
    for k, v in e.items():
        if not isinstance(k, str):
            yield Mismatch({"C14"}, "encoded dictionary has str keys", "encoded key %r" % (k,), k, "ktype")
        if not isinstance(v, dict) or set(v) != {"len", "data"}:
            yield Mismatch({"C14"}, "encoded entry has exactly len and data", "encoded entry %r is %.120r" % (k, v), k, "eshape")
            continue
        for n in ("len", "data"):
            if type(v[n]) is not bytes:
                yield Mismatch({"C14"}, "encoded parts are immutable bytes", "encoded entry %r, %s is %s" % (k, n, type(v[n]).__name__), k, "etype" + n)


def keycmp(d, e, exp_d, extra=None, where="result"):
    want = set(exp_d)
    for name, x in (("decoded", d), ("encoded", e)):
        for k in want - set(x):
            yield Mismatch({"C03", "C05"} | elem_props(k), "every element is reported", "%s dictionary lacks %r" % (name, k), k, "missing")
        for k in set(x) - want:
            if k != extra:
                yield Mismatch({"C05"} if k not in ("h",) else {"C25"}, "only received elements are reported", "%s dictionary has %r" % (name, k), k, "unexpected")


def dicts_of(o, m, dec_a, enc_a):
    d = conc(o.st, m, T.mk("ref", dec_a, ty="ref"))
    e = conc(o.st, m, T.mk("ref", enc_a, ty="ref"))
    return d, e


def compare(o, b, j, m, dec_a, enc_a):
    """Mismatches of outcome o in world b (its conditions hold in model m)"""
    w = b.w
    out = []
    nparts = len(w.parts) if j is None else len(w.parts) - len(b.fparts) + j
    if o.kind == "iter":
        if o.rec is not o.open or j is None:
            return out
        if not b.prefix_done:
            out.append(Mismatch(COND[w.err.cond] | elem_props(w.err.key) - ({"C23"} if w.err.cond != "size" else set()), "malformed element is refused (%s)" % w.err.cond,
                                "fields are decoded although %r" % w.err, w.err.key, "accept"))
            return out
        key = b.key(j)
        if j >= b.n_done:
            # the reference refuses this element
            out.append(Mismatch(COND[w.err.cond] | ({"C25"} if key == "h" else set()), "malformed element is refused (%s)" % w.err.cond,
                                "field %s is accepted although: %s" % (key, w.err.cond), key, "accept"))
            return out
        p = b.fparts[j]
        d, e = dicts_of(o, m, dec_a, enc_a)
        exp_d, exp_e = expected(w, nparts - j)
        exp_d[key] = p.dec
        exp_e[key] = {"len": p.len, "data": p.data}
        out += compare_dicts(d, e, exp_d, exp_e)
        for s, v in o.posts.items():
            if s not in o.rec.phis:
                continue
            entry = m_entry(b, o.rec, s)
            try:
                want = b.role(entry, j + 1, o.rec, s)
            except NoModel:
                continue
            got = conc(o.st, m, v)
            if isinstance(want, (bytes, bytearray)):
                got = bytes(got) if isinstance(got, (bytes, bytearray)) else got
                want = bytes(want)
            if got != want:
                if isinstance(want, str):
                    out.append(Mismatch({"C15"}, "key of the element under way", "key after field %s is %r" % (key, got), key, "key"))
                else:
                    out.append(Mismatch({"C03", "C07"}, "cursor moves to the end of the element", "after field %s (at %d, %d+%d bytes) the cursor is at %.40r, required %.40r" % (key, p.o, len(p.len), len(p.data), got, want), key, "post"))
        return out
    if o.kind == "ret":
        if w.err is not None:
            out.append(Mismatch(COND[w.err.cond] | elem_props(w.err.key) - ({"C23"} if w.err.cond != "size" else set()), "malformed element is refused (%s)" % w.err.cond, "accepted although %r" % w.err, w.err.key, "accept"))
            return out
        r = conc(o.st, m, o.v)
        if not (isinstance(r, tuple) and len(r) == 2 and all(type(x) is CDict for x in r)):
            out.append(Mismatch({"C14"}, "decode returns two dictionaries", "decode returns %.100r" % (r,), None, "ret"))
            return out
        d, e = r
        exp_d, exp_e = expected(w)
        if b.fparts and d.loops:
            for k in list(exp_d):
                if k.isdigit() and k != "1" and k not in d and k not in e:
                    del exp_d[k], exp_e[k]
        if tuple(d.loops) != tuple(e.loops):
            out.append(Mismatch({"C05", "C03"}, "both dictionaries are filled by the same loop", "field entries come from different loops", None, "loops"))
        out += compare_dicts(d, e, exp_d, exp_e)
        return out
    # ---------------------------------------------------------------- raises
    cl = o.classes()
    if cl is None:
        raise NoModel("raised value")
    if DERR not in cl:
        out.append(Mismatch({"C01"}, "only DecodeError escapes", "%s escapes (%s)" % (cl[0], exc_text(o)), None, "escape"))
        if o.v.op == "exc" and any(c in ("RecursionError", "MemoryError") for c in cl):
            out[-1].props = {"C01", "C21"}
        if w.err is None:
            out[-1].props |= {"C27"}
        return out
    a = o.attrs()
    miss = [n for n in ("msg", "s", "doc_dec", "doc_enc", "pos", "field") if n not in a]
    if miss:
        out.append(Mismatch({"C15"}, "DecodeError attributes", "attribute %s is missing" % ", ".join(miss), None, "attr"))
        return out
    av = {n: conc(o.st, m, a[n]) for n in ("pos", "field", "doc_dec", "doc_enc")}
    if a["s"] is not b.sterm and o.st.norm(a["s"]) is not b.sterm:
        try:
            sv = conc(o.st, m, a["s"])
        except (NoModel, Undefined):
            sv = None
        out.append(Mismatch({"C15"}, "s is the input itself", "s is %s" % T.show(a["s"])[:60], None, "s"))
    field, pos = av["field"], av["pos"]
    # which element does the reference refuse
    el = w.err
    if j is not None and el is not None and j < b.n_done:
        el = None
    if el is None:
        key = b.key(j) if j is not None else field
        text = T.show(a["msg"])[:80]
        p = b.fparts[j] if j is not None else next((p for p in w.parts if p.key.rstrip("+") == field), None)
        if p is not None and p.loose:
            return out
        if j is None and w.err is None and "xtra" in text and w.parts and field == w.parts[-1].key.rstrip("+"):
            key = "extra"
        out.append(Mismatch(spurious(key), "well-formed element is accepted", "element %s is refused (%s) although it is well formed" % (key, text), key, "refuse"))
        return out
    if (j is None or not b.prefix_done) and isinstance(field, str) and field != el.key:
        ks = [p.key.rstrip("+") for p in w.parts]
        fi, ei = place(field), place(el.key)
        if ei < fi:
            out.append(Mismatch(COND[el.cond] | {"C15"} | elem_props(el.key) - {"C23"}, "malformed element is refused (%s)" % el.cond, "element %s is accepted although %s; %s reported instead" % (el.key, el.cond, field), el.key, "accept"))
        elif fi < ei and field in ks:
            out.append(Mismatch(spurious(field) | {"C15"}, "well-formed element is accepted", "element %s is refused although it is well formed" % field, field, "refuse"))
        else:
            out.append(Mismatch({"C15"}, "field names the failing element", "field is %r, required %r" % (field, el.key), el.key, "field"))
        return out
    if field != el.key or type(field) is not str:
        out.append(Mismatch({"C15"}, "field names the failing element", "field is %r, required %r (%s)" % (field, el.key, el.cond), el.key, "field"))
    if pos != el.pos or type(pos) is not int:
        out.append(Mismatch({"C15"}, "pos is the offset of the failing part", "pos is %r, required %r (%s of %s)" % (pos, el.pos, el.cond, el.key), el.key, "pos"))
    d, e = av["doc_dec"], av["doc_enc"]
    if type(d) is not CDict or type(e) is not CDict:
        out.append(Mismatch({"C15"}, "partial dictionaries", "doc_dec is %.60r, doc_enc is %.60r" % (d, e), None, "partial"))
        return out
    exp_d, exp_e = expected(w, nparts if j is None else nparts - j)
    if j is None and (d.loops or e.loops):
        for k in list(exp_d):
            if k.isdigit() and k != "1" and k not in d and k not in e:
                del exp_d[k], exp_e[k]
    if tuple(d.loops) != tuple(e.loops) or (j is not None and o.open is not None and j > 0 and o.open not in d.loops):
        out.append(Mismatch({"C15"}, "partial dictionaries hold the completed elements", "completed fields are missing from a partial dictionary", None, "loops"))
    cur = el.key if el.cond != "extra" else None
    if set(d) != set(e):
        out.append(Mismatch({"C15"}, "partial dictionaries have the same keys", "keys differ: %s / %s" % (sorted(map(str, d)), sorted(map(str, e))), None, "keys"))
    for k in set(exp_d):
        if k not in d or k not in e:
            out.append(Mismatch({"C15"}, "partial dictionaries hold the completed elements", "completed element %r is missing" % (k,), k, "missing"))
    for k in set(d) | set(e):
        if k not in exp_d and k != cur:
            out.append(Mismatch({"C15"}, "partial dictionaries hold only received elements", "unexpected element %r" % (k,), k, "unexpected"))
    for x in shape(d, e):
        out.append(x)
    bad = {x.key for x in out}
    for k in exp_d:
        if k in d and k in e and k not in bad:
            if k == cur:
                # extension: what was completed is kept in front
                if not (d[k].startswith(exp_d[k]) and e[k]["len"] == exp_e[k]["len"] and e[k]["data"].startswith(exp_e[k]["data"])):
                    out.append(Mismatch({"C15"}, "partial dictionaries hold the completed elements", "element %r lost" % k, k, "partial"))
                continue
            for x in check_value(k, d[k], e[k], exp_d[k], exp_e[k]):
                x.props = x.props | {"C15?"}
                out.append(x)
    return out


def place(key):
    """Position of an element in the message"""
    if key in ("h", "t", "p", "1"):
        return ("h", "t", "p", "1").index(key)
    return 9 + int(key) if isinstance(key, str) and key.isascii() and key.isdigit() else 9


def exc_text(o):
    if o.v.op == "exc":
        return "%s at %s" % (o.v.args[1], o.v.args[3])
    return o.where()


def m_entry(b, rec, s):
    syms = dict(b.base)
    m = b.w.model(syms)
    return conc(rec.pre, m, rec.phis[s]) if rec.pre is not None else m.ev(rec.phis[s])


def compare_dicts(d, e, exp_d, exp_e):
    out = list(shape(d, e))
    out += list(keycmp(d, e, exp_d))
    bad = {(x.key, x.kind) for x in out}
    for k in exp_d:
        if k in d and k in e:
            for x in check_value(k, d[k], e[k], exp_d[k], exp_e[k]):
                if (x.key, x.kind) not in bad:
                    out.append(x)
    return out


def wire_bitmaps(fields):
    """Binary bitmaps announcing exactly these fields"""
    bits = set(fields)
    if max(bits) > 128:
        bits.add(65)
    if max(bits) > 64:
        bits.add(1)
    out = bytearray(8 * (-(-max(bits) // 64)))
    for n in bits:
        out[(n - 1) // 8] |= 0x80 >> (n - 1) % 8
    return bytes(out)


class Run:
    """Analysis of decode() in one scenario"""
    def __init__(self, repo, sc, module="iso8583.decoder", name="decode"):
        self.sc = sc
        i, st = S.boot(repo, [module])
        self.i = i
        f = S.func(i, st, module, name)
        if f is None:
            raise FileNotFoundError("%s.%s" % (module, name))
        st.heap[("arg", "spec")] = S.DictO(base="spec")
        self.s = T.sym("s", getattr(sc, "ty", "bytes"))
        self.cut = None
        if sc.pair:
            head, tail = T.sym("s0", "bytes"), T.sym("s1", "bytes")
            self.cut = 2 if sc.cfg["t"].enc == "b" else 4
            self.fixed = wire_bitmaps(sc.pair)
            self.s = T.concat([head, const(self.fixed), tail], "bytes")
            st.assume(c_eq0(T.sub(T.length(head), const(self.cut))), True)
        sc.inputs = [self.s]
        self.rets, self.raises = S.call(i, st, sc, f, [self.s, S.SPEC])
        self.outs, self.recs = collect(i, self.rets, self.raises)
        self.dec_a = self.enc_a = None
        for st, v in self.rets:
            if v.op == "tuple" and len(v.args) == 2 and all(x.op == "ref" for x in v.args):
                self.dec_a, self.enc_a = v.args[0].args[0], v.args[1].args[0]
        for o in self.outs:
            o.site = "%s:%s:return" % (module.replace(".", "/") + ".py", name)
        self.field_loops = field_loops(self.outs, (self.dec_a, self.enc_a))
        self.nomodel = {}

    def worlds(self, n, seed, mined=None):
        g = Gen(self.sc, seed, mined)
        ty = bytearray if getattr(self.sc, "ty", "bytes") == "bytearray" else bytes
        for _ in range(n):
            w = g.message()
            w.leaves = lambda w: self.leaves(w, ty)
            yield self.rebind(w)

    def leaves(self, w, ty):
        """Values of the input symbols in a world; None: not an input of this scenario"""
        if self.cut is None:
            return {"s": ty(w.buf)}
        n = self.cut + len(self.fixed)
        if w.buf[self.cut:n] != self.fixed or len(w.buf) < n:
            return None
        return {"s0": w.buf[:self.cut], "s1": w.buf[n:]}

    def check(self, o, b, j, m):
        return compare(o, b, j, m, self.dec_a, self.enc_a)

    def rebind(self, w):
        b = Bind(w, self.recs)
        b.sterm = self.s
        b.field_loops, b.outs = self.field_loops, self.outs
        return b

    def refute(self, outs, n, seed, mined=None):
        return refute(self, outs, self.worlds(n, seed, mined))
