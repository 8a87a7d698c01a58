"""Decoding: proof that a summary of decode() agrees with the wire format for all leaf values.

The wire format is written down once more, over terms: conditions under which an element must be
refused, in order, and the terms of its parts.  An outcome is proved when every condition is decided
by its facts (splitting cases where needed) and the values it stores are the expected terms."""
from . import bdd, terms as T
from .terms import mk, const
from .state import c_eq0, c_eq, c_lt, c_le0, c_odd, c_guard, c_not, subterms


class Fail(Exception):
    def __init__(self, key, pos, cond):
        self.key, self.pos, self.cond = key, pos, cond


class Split(Exception):
    def __init__(self, c):
        self.c = c


class Unproved(Exception):
    pass


def pred(name, *a):
    return mk("pred", name, *a, ty="bool")


def resolve(st, t):
    """Simplify ite terms whose guard is decided"""
    t = st.norm(t)
    while t.op == "ite":
        if bdd.implies(st.gpc, t.args[0]):
            t = t.args[1]
        elif bdd.and_(st.gpc, t.args[0]) == bdd.FALSE:
            t = t.args[2]
        else:
            raise Split(c_guard(t.args[0]))
        t = st.norm(t)
    if t.op in ("concat", "upper", "hex", "decode", "lin", "slice", "tobytes") and any(x.op == "ite" for x in subterms(t)):
        for x in subterms(t):
            if x.op == "ite":
                g = x.args[0]
                if bdd.implies(st.gpc, g) or bdd.and_(st.gpc, g) == bdd.FALSE:
                    continue
                raise Split(c_guard(g))
        from .loops import subst_term
        m = {}
        for x in subterms(t):
            if x.op == "ite":
                m[x] = x.args[1] if bdd.implies(st.gpc, x.args[0]) else x.args[2]
        for _ in range(4):
            n = st.norm(subst_term(t, m))
            if n is t:
                break
            t = n
    return t


def consistent(st):
    for c, v in st.facts.items():
        if c.op == "or" and v:
            if all(any(st.decide(x) is False for x in alt) for alt in c.args):
                return False
        if c.op == "or" and not v:
            if any(all(st.decide(x) is True for x in alt) for alt in c.args):
                return False
    return True


def cases(st, f, depth=9):
    """Run f(state) with case splits; yields (state, result or Fail)"""
    try:
        yield st, f(st)
    except Fail as e:
        yield st, e
    except Split as s:
        if depth == 0:
            raise Unproved("case split on %s" % T.show(s.c)[:80])
        for v in (True, False):
            x = st.copy()
            x._memo = {}
            if not x.assume(s.c, v):
                continue
            if not consistent(x):
                continue
            yield from cases(x, f, depth - 1)


class SPart:
    def __init__(self, key, o, ln, data, dec, end):
        self.key, self.o, self.len, self.data, self.dec, self.end = key, o, ln, data, dec, end


class Format:
    """The wire format over terms, in one state"""
    def __init__(self, st, sc, s, lib=None):
        self.st, self.sc, self.s = st, sc, s
        self.lib = lib

    def ask(self, c):
        st = self.st
        d = st.decide(c)
        if d is None:
            d = self.implied(c)
        if d is None:
            raise Split(c)
        return d

    def implied(self, c):
        st = self.st
        if c.op == "pred":
            n = c.args[0]
            x = c.args[1]
            f = lambda name: st.fact(pred(name, x))
            if n in ("isascii", "isdigit") and f("digits") and f("digits") is True:
                if n == "isascii" or st.decide(c_le0(T.sub(const(1), T.length(x)))):
                    return True
            if n == "isascii" and st.fact(pred("hexstr", x)):
                return True
        return None

    def refuse_unless(self, c, key, pos, cond):
        if not self.ask(c):
            raise Fail(key, pos, cond)

    def refuse_if(self, c, key, pos, cond):
        if self.ask(c):
            raise Fail(key, pos, cond)

    def text(self, key, pos, x, enc, cond):
        self.refuse_unless(pred("codec", enc), key, pos, cond)
        x = T.strip_copy(x)
        self.refuse_unless(pred("decodable", x, enc), key, pos, cond)
        return mk("decode", x, enc, ty="str")

    def cut(self, a, b):
        """Part of the message"""
        if self.s.op == "concat":
            return self.lib.slice_term(self.s, self.st.norm(a), self.st.norm(b), self.st)
        return T.mk_slice(self.s, a, b)

    def field(self, key, o):
        st = self.st
        c = self.sc.config(key)
        lt = mk("lentype", key, ty="int") if c.var else const(0)
        ml = const(c.maxlen) if c.maxlen is not None else mk("maxlen", key, ty="int")
        o2 = T.add(o, lt)
        if c.var:
            ln = self.cut(o, o2)
            self.refuse_unless(c_eq0(T.sub(T.length(ln), lt)), key, o, "short-len")
            ln = T.strip_copy(ln)
            if c.lenenc == "b":
                n = mk("from_bytes", ln, const("big"), T.FALSE, ty="int")
            else:
                if c.lenenc == "bcd":
                    x = T.hexstr(ln)
                    self.refuse_unless(pred("intable", x, const(10)), key, o, "len-digits")
                else:
                    x = self.text(key, o, ln, mk("lenenc", key, ty="str"), "len-codec")
                    self.refuse_unless(pred("isascii", x), key, o, "len-digits")
                    self.refuse_unless(pred("isdigit", x), key, o, "len-digits")
                    if st.decide(pred("intable", x, const(10))) is False:
                        raise Fail(key, o, "over")
                n = mk("int_of_str", x, const(10), ty="int")
            self.refuse_if(c_lt(ml, n), key, o, "over")
            ln = T.tobytes(ln)
        else:
            ln = T.EMPTY_B
            n = ml
        if self.ask(c_eq0(st.norm(n))):
            return SPart(key, o, ln, T.EMPTY_B, T.EMPTY_S, o2)
        nib = c.count == "nibbles"
        size = n
        odd = False
        if nib:
            odd = self.ask(c_odd(st.norm(n)))
            size = st.norm(T.floordiv(st.norm(T.add(n, const(1))), const(2)))
        d = self.cut(o2, T.add(o2, size))
        self.refuse_unless(c_eq0(T.sub(T.length(d), size)), key, o2, "short-data")
        if c.enc == "b":
            dec = T.upper(T.hexstr(T.strip_copy(d)))
            if odd:
                dec = self.unpad(key, o2, c, dec, size)
        else:
            if odd:
                raise Fail(key, o2, "odd-text")
            dec = self.text(key, o2, d, mk("enc", key, ty="str"), "codec")
        return SPart(key, o, ln, T.tobytes(d), dec, T.add(o2, size))

    def unpad(self, key, o2, c, dec, size):
        for side, v in (("left_pad", c.left), ("right_pad", c.right)):
            if not v:
                continue
            pad = T.upper(self.st.norm(T.mk_slice(mk("cfgpad", const(side), key, ty="str"), const(0), const(1))))
            total = T.scale(size, 2)
            if side == "left_pad":
                have = T.mk_slice(dec, const(0), const(1))
                rest = T.mk_slice(dec, const(1), None)
            else:
                have = T.mk_slice(dec, T.sub(total, const(1)), None)
                rest = T.mk_slice(dec, const(0), T.sub(total, const(1)))
            if self.ask(c_eq(self.st.norm(have), pad)):
                return rest
        raise Fail(key, o2, "pad")

    def type_(self, o):
        c = self.sc.cfg["t"]
        size = 2 if c.enc == "b" else 4
        d = self.cut(o, T.add(o, const(size)))
        key = const("t")
        self.refuse_unless(c_eq0(T.sub(T.length(d), const(size))), key, o, "size")
        if c.enc == "b":
            dec = T.upper(T.hexstr(T.strip_copy(d)))
        else:
            dec = self.text(key, o, d, mk("enc", key, ty="str"), "codec")
        return SPart(key, o, T.EMPTY_B, T.tobytes(d), dec, T.add(o, const(size)))

    def bitmap(self, name, o, cond="size"):
        key = const(name)
        c = self.sc.config(key)
        size = 8 if c.enc == "b" else 16
        d = self.cut(o, T.add(o, const(size)))
        self.refuse_unless(c_eq0(T.sub(T.length(d), const(size))), key, o, cond)
        x = T.strip_copy(d)
        if c.enc == "b":
            dec = T.upper(T.hexstr(x))
            src = x
        else:
            dec = self.text(key, o, d, mk("enc", key, ty="str"), "codec")
            self.refuse_unless(pred("hexstr", dec), key, o, "bm-hex")
            src = mk("unhex", dec, ty="bytes")
            self.refuse_unless(c_eq0(self.st.norm(T.sub(T.length(src), const(8)))), key, o, "bm-hex")
        src = self.st.norm(src)
        if src.op == "const":
            b = T.cval(src)
            bits = [bdd.TRUE if b[i // 8] >> (7 - i % 8) & 1 else bdd.FALSE for i in range(64)]
        else:
            bits = [bdd.var(("bit", src, i)) for i in range(1, 65)]
        return SPart(key, o, T.EMPTY_B, T.tobytes(d), dec, T.add(o, const(size))), bits

    def prefix(self, sink):
        """h, t, p, 1 and the extension; -> (offset, {field number: guard})"""
        st = self.st
        o = const(0)
        hc = self.sc.cfg["h"]
        ml = const(hc.maxlen) if hc.maxlen is not None else mk("maxlen", const("h"), ty="int")
        if not self.ask(c_le0(st.norm(ml))):
            p = self.field(const("h"), o)
            sink.append(p)
            o = p.end
        p = self.type_(o)
        sink.append(p)
        p, bits = self.bitmap("p", p.end)
        sink.append(p)
        o = p.end
        gs = {n: bits[n - 1] for n in range(2, 65)}
        last = "p"
        if self.ask(c_guard(bits[0])):
            last = "1"
            p, b2 = self.bitmap("1", o)
            sink.append(p)
            o = p.end
            for n in range(66, 129):
                gs[n] = b2[n - 65]
            if self.ask(c_guard(b2[0])):
                q, b3 = self.bitmap("1", o, "ext-size")
                q = SPart(q.key, q.o, q.len, q.data, q.dec, q.end)
                p.dec = T.concat([p.dec, q.dec], "str")
                p.data = T.concat([p.data, q.data], "bytes")
                o = q.end
                for n in range(129, 193):
                    gs[n] = b3[n - 129]
        return o, gs, const(last)


def walk(f, gs, o, last, sink, most=3):
    """The announced fields one by one, when there are few -> (end, last key)"""
    st = f.st
    may = [n for n in sorted(gs) if bdd.and_(gs[n], st.gpc) != bdd.FALSE]
    if len(may) > most:
        raise Unproved("no field loop")
    for n in may:
        if not f.ask(c_guard(gs[n])):
            continue
        K = const(str(n))
        if not f.ask(f.sc.base_has("spec", K, st)):
            raise Fail(K, o, "nospec")
        p = f.field(K, o)
        sink.append(p)
        o, last = p.end, K
    return o, last


def items_of(st, addr):
    o = st.heap.get(addr)
    if o is None or o.kind != "dict" or o.base is not None:
        raise Unproved("not a dictionary of this call")
    out = {}
    for k, (g, v, site) in o.items.items():
        if bdd.and_(g, st.gpc) == bdd.FALSE:
            continue
        out[st.norm(k)] = (bdd.implies(st.gpc, g), v)
    return out, o


def same(st, a, b):
    a, b = resolve(st, a), st.norm(b)
    if a is b or st.prove_eq(a, b):
        return True
    if a.ty == b.ty and a.op == "concat" and b.op == "concat":
        return a.args == b.args
    return False


def same_entry(st, dec_v, enc_v, p):
    """-> list of (claim name, ok)"""
    out = []
    out.append(("dec", same(st, dec_v, p.dec) and resolve(st, dec_v).ty == "str"))
    ok = False
    v = resolve(st, enc_v)
    if v.op == "ref":
        try:
            it, o = items_of(st, v.args[0])
        except Unproved:
            it = {}
        ok = set(it) == {const("len"), const("data")} and all(x[0] for x in it.values()) and not o.loops
        if ok:
            for n, want in (("len", p.len), ("data", p.data)):
                x = resolve(st, it[const(n)][1])
                out.append(("e" + n, x.ty == "bytes" and (same(st, x, want) or same(st, T.strip_copy(x), T.strip_copy(want)))))
    out.append(("eshape", ok))
    return out


class Prover:
    def __init__(self, run):
        self.run = run
        self.sc, self.s = run.sc, run.s

    def prove(self, o):
        """-> list of (claim, ok)"""
        try:
            return self.prove1(o)
        except Unproved as e:
            return [("cases: %s" % e, False)]
        except Split as e:
            return [("case split on %s" % T.show(e.c)[:60], False)]

    def prove1(self, o):
        if o.st.weak:
            return [("weak", None)]
        if o.kind == "raise":
            return self.raise_(o)
        if o.kind == "ret":
            return self.ret(o)
        return self.iter_(o)

    # ------------------------------------------------------------ loop bookkeeping
    def field_loop(self, st, rec, gs, o0):
        """The loop runs over the announced fields, ascending, with a cursor; -> (cursor symbols)"""
        if rec.kind != "items" or rec.unordered or rec.dom is None:
            return None
        pre = rec.pre
        table = {}
        last = 0
        for g, n in rec.dom:
            if n <= last:
                return None
            last = n
            table[n] = g
        for n in range(0, 200):
            want = gs.get(n, bdd.FALSE)
            if not bdd.equiv_under(pre.gpc, table.get(n, bdd.FALSE), want):
                return None
        if max(table, default=0) > 199:
            return None
        return [s for s, e in rec.phis.items() if e.ty == "int" and pre.prove_eq(e, o0)]

    def dicts(self, st, parts, own, recs):
        """Keys of the two dictionaries"""
        out = []
        want = {p.key for p in parts}
        its = []
        for a in (self.run.dec_a, self.run.enc_a):
            it, o = items_of(st, a)
            its.append(it)
            ok = set(it) == want | ({own} if own is not None else set()) and all(x[0] for x in it.values())
            out.append(("keys", ok))
            out.append(("loops", tuple(o.loops) == tuple(recs)))
        return out, its

    def values(self, st, its, parts):
        out = []
        for p in parts:
            a, b = its[0].get(p.key), its[1].get(p.key)
            if a is None or b is None:
                out.append(("missing", False))
                continue
            out += same_entry(st, a[1], b[1], p)
        return out

    # ------------------------------------------------------------ outcomes
    def iter_(self, o):
        rec = o.rec
        out = []
        if [r for r in o.closed if r is not rec]:
            return [("nested", False)]

        def go(st):
            sink = []
            f = Format(st, self.sc, self.s, self.run.i.lib)
            o0, gs, last = f.prefix(sink)
            cur = self.field_loop(st, rec, gs, o0)
            if cur is None:
                return [("field loop", False)]
            cl = [("field loop", True)]
            K = st.norm(mk("str_of_int", rec.N, ty="str"))
            if f.ask(mk("haskey", _spec(), K, ty="bool")) is not True and K.op != "const":
                raise Fail(K, None, "nospec")
            best = None
            for c in cur:
                p = f.field(K, c)
                its, d = self.dicts(st, sink + [p], None, (rec,))
                r = its + self.values(st, d, sink + [p])
                post = o.posts.get(c)
                r.append(("post", post is not None and same(st, post, p.end)))
                for s, v in o.posts.items():
                    if s.ty == "str":
                        r.append(("key", same(st, v, K)))
                if best is None or sum(x[1] for x in r) > sum(x[1] for x in best):
                    best = r
            return cl + (best or [("cursor", False)])
        for st, r in cases(o.st, go):
            if isinstance(r, Fail):
                out.append(("accepts: %s" % r.cond, False))
            else:
                out += r
        return out

    def ret(self, o):
        out = []
        v = o.v
        if not (v.op == "tuple" and len(v.args) == 2 and all(x.op == "ref" for x in v.args)):
            return [("ret", False)]
        if (v.args[0].args[0], v.args[1].args[0]) != (self.run.dec_a, self.run.enc_a) or v.args[0] is v.args[1]:
            return [("ret", False)]

        def go(st):
            sink = []
            f = Format(st, self.sc, self.s, self.run.i.lib)
            o0, gs, last = f.prefix(sink)
            rec, end = self.after_loop(o, f, gs, o0, last, sink)[:2]
            r, its = self.dicts(st, sink, None, (rec,) if rec else ())
            r += self.values(st, its, sink)
            r.append(("all consumed", st.decide(c_eq0(T.sub(T.length(self.s), end))) is True))
            return r
        for st, r in cases(o.st, go):
            out += [("accepts: %s" % r.cond, False)] if isinstance(r, Fail) else r
        return out

    def after_loop(self, o, f, gs, o0, last, sink):
        st = f.st
        recs = [r for r in o.closed]
        if not recs:
            end, last = walk(f, gs, o0, last, sink)
            return None, end, last
        if len(recs) != 1:
            raise Unproved("several loops")
        cur = self.field_loop(st, recs[0], gs, o0)
        if not cur:
            raise Unproved("field loop")
        return recs[0], cur[0], last

    def raise_(self, o):
        from .dec import DERR
        cl = o.classes()
        if cl is None or DERR not in cl:
            return [("class", False)]
        a = o.attrs()
        if any(n not in a for n in ("msg", "s", "doc_dec", "doc_enc", "pos", "field")):
            return [("attributes", False)]
        out = [("s", o.st.norm(a["s"]) is self.s)]
        refs = a["doc_dec"], a["doc_enc"]
        out.append(("partial", all(x.op == "ref" for x in refs) and (refs[0].args[0], refs[1].args[0]) == (self.run.dec_a, self.run.enc_a)))
        if not out[-1][1]:
            return out

        def go(st):
            sink = []
            f = Format(st, self.sc, self.s, self.run.i.lib)
            recs = ()
            try:
                o0, gs, last = f.prefix(sink)
                if o.open is not None:
                    rec = o.open
                    cur = self.field_loop(st, rec, gs, o0)
                    if not cur:
                        return [("field loop", False)]
                    recs = (rec,)
                    K = st.norm(mk("str_of_int", rec.N, ty="str"))
                    known = f.sc.base_has("spec", K, st) if K.op == "const" else mk("haskey", _spec(), K, ty="bool")
                    if not f.ask(known):
                        raise Fail(K, cur[0], "nospec")
                    f.field(K, cur[0])
                    return [("justified", False)]
                rec, end, last = self.after_loop(o, f, gs, o0, last, sink)
                recs = (rec,) if rec else ()
                if f.ask(c_eq0(T.sub(T.length(self.s), end))):
                    return [("justified", False)]
                key = last
                if rec:
                    for s, e in rec.phis.items():
                        if e.ty == "str":
                            key = s
                raise Fail(key, end, "extra")
            except Fail as e:
                r = [("justified", True)]
                r.append(("field", same(st, a["field"], e.key)))
                r.append(("pos", same(st, a["pos"], e.pos)))
                own = None
                parts = sink
                if e.cond not in ("extra", "nospec"):
                    own = e.key
                its = [items_of(st, x)[0] for x in (self.run.dec_a, self.run.enc_a)]
                if own is not None and not any(own in it for it in its):
                    own = None
                ext = own is not None and any(p.key is own for p in parts)
                rr, its = self.dicts(st, parts, None if ext else own, recs)
                r += rr
                if ext:
                    parts = [p for p in parts if p.key is not own]
                    base = [p for p in sink if p.key is own][0]
                    r.append(("extension partial", self.prefixed(st, its, base)))
                r += self.values(st, its, parts)
                if own is not None and not ext:
                    d, v = resolve(st, its[0][own][1]), resolve(st, its[1][own][1])
                    r.append(("shape", d.ty == "str"))
                    it, eo = items_of(st, v.args[0]) if v.op == "ref" else ({}, None)
                    r.append(("shape", set(it) == {const("len"), const("data")} and all(resolve(st, x[1]).ty == "bytes" for x in it.values())))
                return r
        for st, r in cases(o.st, go):
            out += r
        return out

    def prefixed(self, st, its, base):
        d = resolve(st, its[0][base.key][1])
        v = resolve(st, its[1][base.key][1])
        if v.op != "ref":
            return False
        it, _ = items_of(st, v.args[0])
        if set(it) != {const("len"), const("data")}:
            return False
        e = resolve(st, it[const("data")][1])

        def starts(x, y):
            y = st.norm(y)
            if x is y:
                return True
            if x.op == "slice" and T.strip_copy(y).op == "slice":
                a, b = x.args, T.strip_copy(y).args
                return a[0] is b[0] and a[1] is b[1]
            if x.op == "tobytes":
                return starts(x.args[0], T.strip_copy(y))
            if x.op == "concat":
                ys = y.args if y.op == "concat" else (y,)
                return x.args[:len(ys)] == ys
            return False
        return d.ty == "str" and e.ty == "bytes" and starts(d, base.dec) and starts(e, base.data) and \
            same(st, it[const("len")][1], T.EMPTY_B)


def _spec():
    from .scen import SPEC
    return SPEC
