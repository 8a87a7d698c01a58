"""Interpretations of the leaf symbols: specification values together with a message or a document.

A world is one valuation of everything the analysis left symbolic.  Worlds are used to refute: a path
summary whose facts hold in a world and whose values differ from the reference model there is a
violation, and the world is the witness.
"""
import random

from . import bdd
from . import ref
from . import terms as T
from .evalt import Model, NoModel, Undefined, facts_of

CODECS = ("ascii", "latin-1", "cp500", "utf-8", "cp037", "cp1252", "utf-16-le", "utf-16", "utf-8-sig", "big5")
BAD_CODECS = ("nope", "rot13", "hex", "a\0b")
HEXU = "0123456789ABCDEF"
DIGIT_SETS = ("+{}", " {}", "{} ", "-{}", "1_0", "\u0661", "\u00b2", "\uff11\uff12", "0x", "1.", "{}\n", "\u2160", "",
              "A", "1A")


class Mined:
    """Constants that occur in the conditions and values under examination"""
    def __init__(self, terms=(), guards=()):
        self.guards = [g for g in guards if g > 1]
        self.ints, self.strs, self.bytes, self.ops = set(), set(), set(), set()
        self.specs = set()
        for g in self.guards:
            for n in bdd.support(g):
                n = bdd.var_name(n) if isinstance(n, int) else n
                if isinstance(n, tuple) and n[0] == "spec" and isinstance(n[1], str):
                    self.specs.add(n[1])
        from .state import subterms
        seen = set()
        for t in terms:
            for x in subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                self.ops.add(x.op)
                if x.op in ("enc", "lenenc", "lentype", "maxlen", "desc", "cfgpad") and x.args[-1].op == "const":
                    self.specs.add(T.cval(x.args[-1]))
                if x.op == "const":
                    v = T.cval(x)
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int):
                        self.ints.add(v)
                    elif isinstance(v, str):
                        self.strs.add(v)
                    elif isinstance(v, bytes):
                        self.bytes.add(v)
                elif x.op == "lin":
                    self.ints.add(x.args[0])
                    self.ints.add(-x.args[0])
                elif x.op in ("memb", "oneof", "lookup"):
                    for a in x.args[1]:
                        c = a[0] if isinstance(a, tuple) else a
                        v = c if not isinstance(c, T.Term) else (T.cval(c) if c.op == "const" else None)
                        if isinstance(v, str):
                            self.strs.add(v)
                        elif isinstance(v, int) and not isinstance(v, bool):
                            self.ints.add(v)
        near = set()
        for n in self.ints:
            near |= {n, n - 1, n + 1}
        self.near = sorted(n for n in near if 0 <= n <= 20000)
        self.big = sorted(n for n in near if 20000 < n <= 2000000)
        self.keys = sorted(n for n in near if 2 <= n <= 192 and n != 65)
        self.keys += [int(s) for s in sorted(self.strs) if s.isascii() and s.isdigit() and 2 <= int(s or 0) <= 192 and s != "65"]
        self.strs = sorted(self.strs)
        self.specs = sorted(k for k in self.specs if isinstance(k, str) and k.isdigit() and k.isascii() and k != "1")
        self.bytes = sorted(self.bytes)
        # powers: 2**k boundaries are lengths of integers
        self.some = [n for n in self.near if n > 1]


# lengths at the limits of wide prefixes
HUGE = (65535, 65536, 99999, 99999, 100000, 100001, 131072)


class Gen:
    def __init__(self, scen, seed, mined=None):
        self.sc = scen
        self.r = random.Random(seed)
        self.m = mined or Mined()
        self.wild = 0.25
        self.twin = None

    # -------------------------------------------------------------- specification
    def codec(self):
        r = self.r.random()
        if r < 0.62:
            return self.r.choice(CODECS[:4])
        if r < 0.88:
            return self.r.choice(CODECS)
        if r < 0.91:
            return self.r.choice(("idna", "undefined", "utf-7", "punycode", "utf-32"))
        if self.m.strs and r < 0.93:
            return self.r.choice(self.m.strs)
        return self.r.choice(BAD_CODECS)

    def entry(self, key):
        r = self.r
        c = self.sc.config(T.const(key))
        e = {}
        e["data_enc"] = "b" if c.enc == "b" else self.codec()
        if e["data_enc"] == "b" and c.enc != "b":
            e["data_enc"] = "ascii"
        e["len_enc"] = c.lenenc if c.lenenc in ("b", "bcd") else self.codec()
        if c.lenenc not in ("b", "bcd") and e["len_enc"] in ("b", "bcd"):
            e["len_enc"] = "ascii"
        e["len_type"] = 0
        if c.var:
            e["len_type"] = r.choice((1, 1, 2, 2, 3, 3, 4, 4, 5, 6))
            if self.m.some and r.random() < 0.08:
                e["len_type"] = max(1, min(12, r.choice(self.m.some)))
        if c.maxlen is not None:
            e["max_len"] = c.maxlen
        elif self.m.big and key != "t" and r.random() < (0.2 if c.var else 0.05):
            e["max_len"] = r.choice(self.m.big) + r.choice((0, 0, 1, 1000))
            if c.var:
                e["len_type"] = r.choice((3, 5, 6, 6, 7))
        elif c.var and key != "t" and r.random() < 0.01:
            e["max_len"] = r.choice(HUGE)
            e["len_type"] = r.choice((2, 3, 3, 4, 5, 6))
        else:
            e["max_len"] = self.size(key)
        if c.count is not None:
            e["len_count"] = c.count
        for side, v in (("left_pad", c.left), ("right_pad", c.right)):
            if v is not None:
                e[side] = "" if v == "" else r.choice(("F", "0", "f", "a", "A", "D", "d0", "Ef", "x", "1", "\u00df", "9"))
        if self.sc.has_desc or r.random() < 0.5:
            e["desc"] = r.choice(("", "d", "Some text", "\u00e9t\u00e9", "a" * 40))
        return e

    def size(self, key):
        r = self.r
        x = r.random()
        if key == "h" and x < 0.12:
            return r.choice((0, -1, -2, -5, -40))
        if self.m.some and x < 0.25:
            return r.choice(self.m.some)
        if x < 0.6:
            return r.randint(0 if key != "h" else 1, 8)
        if x < 0.9:
            return r.randint(1, 40)
        if x < 0.97:
            return r.choice((99, 100, 127, 128, 255, 256, 300))
        return r.choice((999, 1000, 9999, 65535, 10 ** 6))

    # -------------------------------------------------------------- wire data
    def blob(self, n):
        r = self.r
        if n > 3000:
            return bytes([r.randrange(256)]) * n
        if self.m.bytes and r.random() < 0.1:
            b = r.choice(self.m.bytes)
            if b:
                return (b * n)[:n]
        x = r.random()
        if x < 0.1:
            return bytes(n)
        return bytes(r.randrange(256) for _ in range(n))

    def chars(self, codec, n):
        """n bytes of text in the codec"""
        r = self.r
        if n == 0:
            return b""
        if self.m.strs and r.random() < 0.12:
            s = r.choice(self.m.strs)
            try:
                b = s.encode(codec)
                if len(b) == n:
                    return b
                if b and len(b) < n:
                    return (b * n)[:n]
            except Exception:
                pass
        x = r.random()
        pool = "0123456789ABCxyz =;^-/ " if x < 0.6 else "0123456789" if x < 0.8 else "abcdefg\x00\n\t\u00e9\u00b2"
        if n > 3000:
            pool = r.choice("A1")
        s = "".join(r.choice(pool) for _ in range(min(n, 3001)))
        if n > 3001:
            s = pool * n
        try:
            b = s.encode(codec)
        except Exception:
            try:
                b = ("A" * n).encode(codec)
            except Exception:
                return self.blob(n)
        return b[:n] if len(b) >= n else b + self.blob(n - len(b))

    def hexdigits(self, b, codec, wild):
        r = self.r
        s = b.hex()
        if r.random() < 0.7:
            s = s.upper()
        if wild and r.random() < 0.5:
            k = r.randrange(len(s))
            x = r.choice((" ", "G", "+", "\n", "_", "\uff11", "0x", ".", "  "))
            s = s[:k] + x + s[k + len(x):]
        try:
            w = s.encode(codec)
        except Exception:
            w = s.encode("utf-8")
        if len(w) != 16 and r.random() < 0.9:
            w = w[:16]
            w += self.blob(16 - len(w))
        return w

    def declared(self, n, e):
        """A length prefix saying n"""
        lt, enc = e["len_type"], e["len_enc"]
        try:
            if enc == "b":
                return n.to_bytes(lt, "big")
            if enc == "bcd":
                return bytes.fromhex(("%0*d" % (2 * lt, n))[-2 * lt:])
            b = ("%0*d" % (lt, n)).encode(enc)
            if len(b) == lt:
                return b
            return (b + b"0" * lt)[:lt]
        except Exception:
            return self.blob(lt)

    def odd_prefix(self, n, e):
        r = self.r
        lt, enc = e["len_type"], e["len_enc"]
        if enc == "b":
            return self.blob(lt)
        if enc == "bcd":
            b = bytearray(self.declared(n, e))
            b[r.randrange(lt)] = r.choice((0x0A, 0xA0, 0xFF, 0x1F, 0x0C))
            return bytes(b)
        p = r.choice(DIGIT_SETS)
        s = p.format(n)
        try:
            w = s.encode(enc)
        except Exception:
            return self.blob(lt)
        if len(w) < lt:
            try:
                w = (("0" * lt) + s).encode(enc)[-lt:] if r.random() < 0.5 else s.ljust(lt, r.choice("0 _")).encode(enc)
            except Exception:
                pass
        w = w[:lt]
        return w + b"0" * (lt - len(w))

    def count(self, e):
        """element length to use"""
        r = self.r
        m = max(0, e["max_len"])
        if e["len_type"] == 0:
            return m
        if self.m.big and m > 20000 and r.random() < 0.6:
            return r.choice(self.m.big)
        cap = min(m, 400)
        x = r.random()
        if x < 0.3:
            n = r.randint(0, min(cap, 6))
        elif x < 0.55:
            n = r.randint(0, cap)
        elif x < 0.7:
            n = cap
        elif x < 0.78:
            n = 0
        elif x < 0.9 and self.m.some:
            n = r.choice(self.m.some)
        else:
            n = m + r.choice((0, 1, -1, 2))
        return max(0, n)

    def element(self, e, wild):
        """wire bytes of one element"""
        r = self.r
        n = self.count(e)
        if n > 140000:
            n = 140000
        pre = b""
        if e["len_type"]:
            pre = self.odd_prefix(n, e) if wild and r.random() < 0.4 else self.declared(n, e)
        nib = e.get("len_count") == "nibbles"
        size = (n + 1) // 2 if nib else n
        if e["data_enc"] == "b":
            d = bytearray(self.blob(size))
            if nib and n % 2 and size:
                lp, rp = e.get("left_pad", "")[:1], e.get("right_pad", "")[:1]
                side = r.choice("lr")
                if lp and lp in ref.HEX and (side == "l" or not rp) and r.random() < 0.85:
                    d[0] = int(lp, 16) << 4 | d[0] & 15
                elif rp and rp in ref.HEX and r.random() < 0.9:
                    d[-1] = d[-1] & 0xF0 | int(rp, 16)
            d = bytes(d)
        else:
            d = self.chars(e["data_enc"], size)
            if wild and r.random() < 0.3:
                d = self.blob(size)
        return pre + d

    def bitmap(self, bits, e, wild):
        bm = bytearray(8)
        for n in bits:
            bm[(n - 1) // 8] |= 0x80 >> (n - 1) % 8
        if e["data_enc"] == "b":
            return bytes(bm)
        return self.hexdigits(bytes(bm), e["data_enc"], wild)

    def spec(self, nums):
        s = {k: self.entry(k) for k in ("h", "t", "p", "1")}
        for n in nums:
            if self.r.random() < 0.97 or str(n) in self.sc.special:
                s[str(n)] = self.entry(str(n))
        # entries of elements that the message does not have
        for k in self.m.specs if len(self.m.specs) < 9 else self.r.sample(self.m.specs, 4):
            if k not in s and k not in self.sc.absent and self.r.random() < 0.6:
                s[k] = self.entry(k)
        self.twin = None
        if self.sc.pair and self.r.random() < 0.4:
            # two elements that are alike, in everything but one or two properties
            a, b = [str(n) for n in self.sc.pair]
            if a in s and b in s:
                self.twin = b, a
                ca, cb = self.sc.config(T.const(a)), self.sc.config(T.const(b))
                for name, same in (("data_enc", ca.enc == cb.enc), ("len_enc", ca.lenenc == cb.lenenc), ("len_type", ca.var == cb.var),
                                   ("max_len", ca.maxlen is None and cb.maxlen is None),
                                   ("left_pad", ca.left == cb.left), ("right_pad", ca.right == cb.right)):
                    if same and name in s[a] and name in s[b] and self.r.random() < (0.5 if "pad" in name or name == "data_enc" else 0.85):
                        s[b][name] = s[a][name]
        return s

    def guided(self):
        """Fields that satisfy the condition on bits or keys of a path under examination"""
        r = self.r
        g = r.choice(self.m.guards)
        out, srcs = set(), {}
        bits = []
        while g > 1:
            v, lo, hi = bdd._nodes[g]
            b = hi != bdd.FALSE and (lo == bdd.FALSE or r.random() < 0.5)
            name = bdd.var_name(v)
            if isinstance(name, tuple) and name[0] == "has" and name[1].isdigit():
                if b:
                    out.add(int(name[1]))
            elif isinstance(name, tuple) and name[0] == "bit":
                srcs.setdefault(name[1], 64 * len(srcs))
                if b:
                    bits.append((name[1], name[2]))
            g = hi if b else lo
        out |= {srcs[t] + i for t, i in bits}
        return {n for n in out if 2 <= n <= 192 and n != 65 and str(n) not in self.sc.absent}

    def pick_fields(self):
        r = self.r
        if self.sc.pair:
            return sorted(self.sc.pair)
        if self.m.guards and r.random() < 0.3:
            out = self.guided()
            if out and len(out) < 40:
                return sorted(out)
        hi = r.choice((64, 64, 128, 128, 192))
        k = r.choice((0, 1, 1, 2, 2, 3, 5))
        pool = [n for n in range(2, hi + 1) if n != 65 and str(n) not in self.sc.absent]
        out = set(r.sample(pool, k))
        if k and r.random() < 0.25:
            out.add(r.choice((2, 3, 9, 10, 11, 63, 64, 66, 99, 100, 127, 128, 129, 192)))
        if k and self.m.keys and r.random() < 0.5:
            out.add(r.choice(self.m.keys))
        for k in self.sc.special:
            if k.isdigit() and r.random() < 0.5 and k not in ("1", "65"):
                out.add(int(k))
        return sorted(n for n in out if str(n) not in self.sc.absent)

    def message(self):
        """-> MessageWorld"""
        r = self.r
        fields = self.pick_fields()
        spec = self.spec(fields)
        fault = r.random()
        target = None
        order = ["h", "t", "p", "1", "1+"] + [str(n) for n in fields]
        if fault < 0.45:
            target = r.choice(order[-len(fields):] if fields and r.random() < 0.6 else order)
        w = b""
        cuts = [0]

        def put(b, key):
            nonlocal w
            w += b
            cuts.append(len(w))
        if spec["h"]["max_len"] > 0:
            put(self.element(spec["h"], target == "h"), "h")
        if spec["t"]["data_enc"] == "b":
            put(self.blob(2), "t")
        else:
            put(self.chars(spec["t"]["data_enc"], 4), "t")
        ter = [n - 128 for n in fields if n > 128]
        sec = [n - 64 for n in fields if 64 < n <= 128] + ([1] if ter else [])
        if self.sc.pair:
            pass
        elif not ter and sec and r.random() < 0.06:
            sec.append(1)
            ter = None
        if not sec and not self.sc.pair and r.random() < 0.06:
            sec = None
        pri = [n for n in fields if n <= 64] + ([1] if sec or sec is None else [])
        put(self.bitmap(pri, spec["p"], target == "p"), "p")
        if sec or sec is None:
            put(self.bitmap(sec or [], spec["1"], target == "1"), "1")
        if ter or ter is None:
            put(self.bitmap(ter or [], spec["1"], target == "1+"), "1+")
        last = {}
        for n in fields:
            e = spec.get(str(n)) or self.entry(str(n))
            b = self.element(e, target == str(n))
            if self.twin and self.twin[0] == str(n) and e["len_enc"] == spec[self.twin[1]]["len_enc"] \
                    and e["len_type"] == spec[self.twin[1]]["len_type"]:
                b = last[self.twin[1]]
            last[str(n)] = b
            put(b, str(n))
        x = r.random()
        if x < 0.12:
            w = w[:r.randint(0, len(w))]
        elif x < 0.2:
            k = r.randrange(len(cuts))
            w = w[:max(0, cuts[k] + r.choice((-1, 0, 1, 2)))]
        elif x < 0.28:
            w += self.blob(r.choice((1, 1, 2, 5)))
        elif x < 0.31:
            w = self.blob(r.randint(0, 30))
        return MessageWorld(self, spec, w)

    # -------------------------------------------------------------- documents
    def value(self, e, count, wild):
        """A dictionary-side value for an element of n units"""
        r = self.r
        n = self.count(e)
        if n > 20000 and n not in self.m.big and n not in HUGE:
            n = 20000
        return self.sized(e, n, count, wild)

    def sized(self, e, n, count, wild):
        r = self.r
        if e["data_enc"] == "b":
            digits = n if count == "nibbles" else 2 * n
            s = "".join(r.choice(HEXU) for _ in range(min(digits, 4000)))
            if digits > 4000:
                s = r.choice(HEXU) * digits
            x = r.random()
            if x < 0.25:
                s = s.lower()
            elif x < 0.35 and s:
                s = "".join(c.lower() if r.random() < 0.5 else c for c in s)
            if wild and s:
                k = r.randrange(len(s))
                x = r.choice((" ", "G", "+", "\n", "_", "\uff11", "\u00e9", "", "0", "  "))
                s = s[:k] + x + s[k + max(1, len(x)):]
            return s
        units = (n + 1) // 2 if count == "nibbles" else n
        if self.m.strs and r.random() < 0.12:
            s = r.choice(self.m.strs)
            if len(s) == units:
                return s
        if units > 4000:
            return r.choice("A1") * units
        pool = r.choice(("0123456789", "ABCxyz 019=^", "abc \u00e9\u20ac\u00b2", "A\n\t\x00'\"\\", "ABC"))
        if not wild:
            pool = pool.replace("\u20ac", "")
        s = "".join(r.choice(pool) for _ in range(units))
        if e["data_enc"].startswith("utf-16") and units > 1 and r.random() < 0.7:
            s = s[:units // 2]
        return s

    def document(self, nums=None):
        """-> DocWorld"""
        r = self.r
        fields = self.pick_fields() if nums is None else nums
        if r.random() < 0.06 and not self.sc.pair:
            fields = sorted(set(fields) | {r.choice((0, 193, 199, 195))})
        alike = []
        for k in self.sc.doc_extra:
            try:
                alike.append(int(T.cval(k)) if k.op == "const" else r.choice((5, 80, 4, 12, 65, 129)))
            except (TypeError, ValueError):
                pass
        spec = self.spec([n for n in fields] + [n for n in alike if 2 <= n <= 192 and r.random() < 0.6])
        x = r.random()
        target = None
        if x < 0.4:
            target = r.choice(["h", "t"] + [str(n) for n in fields])
        doc = {}
        for k in ["h", "t", "p", "1", "65"] + [str(n) for n in fields]:
            if k in self.sc.absent:
                continue
            e = spec.get(k) or self.entry(k)
            if k in ("p", "1", "65"):
                if r.random() < 0.25:
                    doc[k] = r.choice(("", "XX", "FF" * 8, "1", "zz"))
                continue
            if k in ("h", "t") and r.random() < 0.05:
                continue
            if k == "t":
                if e["data_enc"] == "b":
                    n = 2 if r.random() < 0.9 else r.choice((0, 1, 3, 4))
                else:
                    n = 4 if r.random() < 0.9 else r.choice((0, 2, 3, 5, 8))
                doc[k] = self.sized(e, n, "bytes", target == k)
                continue
            doc[k] = self.value(e, e.get("len_count", "bytes"), target == k)
        if self.twin and self.twin[0] in doc and self.twin[1] in doc:
            doc[self.twin[0]] = doc[self.twin[1]]
        reps = {}
        for k in self.sc.doc_extra:
            c = k.args[0] if k.op == "key" else None
            if c in REPS and r.random() < 0.3:
                n = str(r.choice(fields)) if fields else "2"
                reps[c] = r.choice(REPS[c])
                doc[reps[c]] = self.value(spec.get(n) or self.entry(n), "bytes", False)
            if k.op == "const" and r.random() < 0.4:
                n = str(r.choice(fields)) if fields else "2"
                doc[T.cval(k)] = self.value(spec.get(n) or self.entry(n), "bytes", False)
        keys = list(doc)
        r.shuffle(keys)
        w = DocWorld(self, spec, {k: doc[k] for k in keys})
        w.reps = reps
        return w


# keys that stand for a class of keys in a world
REPS = {"big": ("700", "1939", "65537"), "zero": ("012", "0065", "0129"), "arab": ("\u0665", "\u0668\u0660", "\u06f4"),
        "supers": ("\u00b9", "\u2075"), "frac": ("\u00be", "\u2160")}


class World:
    reps = {}
    buf = None
    doc = None

    def lookup(self, op, args, t):
        """Value of a leaf term"""
        if op == "sym":
            raise NoModel("symbol %s" % (args[0],))
        key = args[-1]
        if op in ("enc", "lenenc", "lentype", "maxlen", "desc", "cfgpad"):
            e = self.spec.get(key)
            if e is None:
                e = self.extra.get(key)
                if e is None:
                    e = self.extra[key] = self.gen.entry(key)
            if op == "enc":
                return e["data_enc"]
            if op == "lenenc":
                return e["len_enc"]
            if op == "lentype":
                return e["len_type"]
            if op == "maxlen":
                return e["max_len"]
            if op == "desc":
                return e.setdefault("desc", "Text %s" % key)
            return e[args[0]]
        if op == "val":
            if key in self.doc:
                return self.doc[key]
            raise Undefined("absent value")
        if op == "part":
            if key in self.doc:
                return self.doc[key][args[0]]
            raise Undefined("absent value")
        if op == "key" and key in REPS:
            return self.reps.get(key, REPS[key][0])
        raise NoModel(op)

    def guardval(self, name):
        if isinstance(name, tuple):
            if name[0] == "spec":
                return name[1] in self.spec
            if name[0] == "has":
                return name[1] in self.doc
            if name[0] == "has-other":
                return name[1] in self.doc
            if name[0] == "haskey" and len(name) == 2:
                k = name[1]                 # a key known only by its class
                return (T.cval(k.args[0]) if isinstance(k.args[0], T.Term) else k.args[0]) in self.reps
            if name[0] == "haskey":
                if name[1] == ("arg", "spec") or name[1] == (("arg", "spec"),):
                    return name[2] in self.spec
                if name[1] == ("arg", "doc") or name[1] == (("arg", "doc"),):
                    return name[2] in self.doc
                if len(name) == 3 and isinstance(name[1], str):
                    e = self.spec.get(name[1]) or self.extra.get(name[1])
                    if e is None:
                        e = self.extra[name[1]] = self.gen.entry(name[1])
                    return name[2] in e
        raise NoModel("condition %r" % (name,))

    def model(self, syms):
        def pick(m, t, k):
            if t is None:
                if k[0] == "guard":
                    return self.guardval(k[1])
                return self.guardval(k)
            if k[0] == "sym":
                if k[1] in syms:
                    return syms[k[1]]
                raise NoModel("symbol %s" % (k[1],))
            return self.lookup(k[0], k[1:], t)
        return Model(pick)


class MessageWorld(World):
    def __init__(self, gen, spec, buf):
        self.gen, self.spec, self.buf = gen, spec, buf
        self.extra = {}
        self.parts, self.fields, self.err = ref.decode(buf, spec)

    def describe(self):
        keys = [p.key.rstrip("+") for p in self.parts] + ([self.err.key] if self.err else [])
        return {"message": self.buf.hex() if len(self.buf) < 600 else self.buf[:600].hex() + "...",
                "spec": {k: v for k, v in self.spec.items() if k in keys},
                "expected": repr(self.err) if self.err else "accepted: " + ", ".join(repr(p)[:200] for p in self.parts)}


class DocWorld(World):
    def __init__(self, gen, spec, doc):
        self.gen, self.spec, self.doc = gen, spec, doc
        self.extra = {}
        self.parts, self.err = ref.encode(doc, spec)

    def describe(self):
        return {"document": {k: (v if not isinstance(v, str) or len(v) < 300 else v[:300] + "...") for k, v in self.doc.items()},
                "spec": {k: v for k, v in self.spec.items() if k in self.doc or k in ("h", "t", "p", "1")},
                "expected": repr(self.err) if self.err else "accepted: " + ", ".join(repr(p)[:200] for p in self.parts)}
