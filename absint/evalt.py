"""Models of the term algebra.

The value domain proves equalities by normal forms.  To *refute* an equality (or to show that the
condition of a path and the negation of a requirement are compatible) it suffices to exhibit one
interpretation of the leaf symbols under which all facts of the path hold and the two terms differ.
This module interprets terms (never program code) in such models.  A term with an operation that has
no interpretation here makes the question undecided.
"""
import random

from . import bdd
from . import terms as T
from .terms import Term


class NoModel(Exception):
    """The term has no interpretation (unknown operation or unknown value)."""


class Undefined(Exception):
    """The term is undefined in this model (e.g. the decoding of undecodable bytes)."""


LEAVES = {"sym", "enc", "lenenc", "lentype", "maxlen", "desc", "cfgpad", "val", "part", "key", "half?"}


class Model:
    def __init__(self, pick, gpc_path=None):
        self.pick = pick              # (op, args values, term) -> value
        self.vals = {}
        self.memo = {}
        self.path = gpc_path or {}    # bdd variable index -> bool

    def leaf(self, t):
        args = []
        for a in t.args:
            args.append(self.ev(a) if isinstance(a, Term) else a)
        k = (t.op,) + tuple(args)
        if k not in self.vals:
            self.vals[k] = self.pick(self, t, k)
        return self.vals[k]

    def guard(self, g):
        while g > 1:
            v, lo, hi = bdd._nodes[g]
            b = self.path.get(v)
            if b is None:
                name = bdd.var_name(v)
                if isinstance(name, tuple) and name[0] == "eqn" and isinstance(name[1], Term):
                    b = self.ev(name[1]) == name[2]
                elif isinstance(name, tuple) and name[0] == "bit" and isinstance(name[1], Term):
                    x = self.ev(name[1])
                    k, i = divmod(name[2] - 1, 8)
                    b = k < len(x) and bool(x[k] >> (7 - i) & 1)
                elif isinstance(name, tuple) and name[0] == "gt" and isinstance(name[1], Term):
                    b = self.ev(name[1]) > name[2]
                elif isinstance(name, tuple) and name[0] == "inrange" and isinstance(name[1], Term):
                    b = name[2] <= self.ev(name[1]) < name[3]
                elif isinstance(name, tuple) and name[0] == "eqs" and isinstance(name[1], Term):
                    b = self.ev(name[1]) == name[2]
                else:
                    b = self.pick(self, None, ("guard", name))
                self.path[v] = b
            g = hi if b else lo
        return bool(g)

    def ev(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Undefined):
                raise r
            return r
        try:
            r = self._ev(t)
        except (ValueError, LookupError, OverflowError, TypeError, AttributeError, MemoryError) as e:
            r = Undefined("%s: %s" % (type(e).__name__, e))
            self.memo[t] = r
            raise r
        except Undefined as e:
            self.memo[t] = e
            raise
        self.memo[t] = r
        return r

    def _ev(self, t):
        op, a = t.op, t.args
        e = self.ev
        if op == "const":
            return a[0]
        if op in LEAVES:
            return self.leaf(t)
        if op == "lin":
            r = a[0]
            for x, k in a[1]:
                r += k * e(x)
            return r
        f = OPS.get(op)
        if f is not None:
            return f(*[e(x) if isinstance(x, Term) else x for x in a])
        if op == "slice":
            x = e(a[0])
            i = e(a[1])
            j = None if a[2] is None else e(a[2])
            if i < 0 or (j is not None and j < 0):
                raise Undefined("slice bounds")
            return x[i:j]
        if op == "rawslice":
            x, i, j = e(a[0]), e(a[1]), e(a[2]) if a[2] is not None else None
            return x[i:j]
        if op == "stepslice":
            x = e(a[0])
            return x[slice(*[None if y is None else e(y) for y in a[1:]])]
        if op == "concat":
            vs = [e(x) for x in a]
            r = vs[0]
            for v in vs[1:]:
                r = (bytes(r) if isinstance(r, bytearray) else r) + (bytes(v) if isinstance(v, bytearray) else v)
            return r
        if op == "guard":
            return self.guard(a[0])
        if op == "not":
            return not e(a[0])
        if op == "or":
            for alt in a:
                try:
                    if all(e(c) for c in alt):
                        return True
                except Undefined:
                    pass
            return False
        if op == "le0":
            return e(a[0]) <= 0
        if op == "eq0":
            return e(a[0]) == 0
        if op == "count":
            return sum(1 for g in a[0] if self.guard(g))
        if op == "odd":
            return bool(e(a[0]) & 1)
        if op == "ite":
            return e(a[1]) if self.guard(a[0]) else e(a[2])
        if op == "bits":
            return sum(1 << k for k, g in enumerate(a) if self.guard(g))
        if op == "bitstr":
            return "".join("1" if self.guard(g) else "0" for g in a)
        if op == "bytesof":
            return bytes(e(x) for x in a)
        if op == "pred":
            return self.pred(a[0], [e(x) if isinstance(x, Term) else x for x in a[1:]])
        if op == "lookup":
            k = e(a[0])
            for c, v in a[1]:
                if e(c) == k:
                    return e(v)
            raise Undefined("lookup")
        if op == "oneof":
            x = e(a[0])
            return any(e(c) == x for c in a[1])
        if op == "memb":
            x = e(a[0])
            return any(c == x and self.guard(g) for c, g in a[1])
        if op == "joing":
            sep = e(a[0])
            return sep.join(e(v) for g, v in a[1] if self.guard(g))
        if op == "tuple":
            return tuple(e(x) for x in a)
        if op == "same":
            return e(a[0]) == e(a[1])
        if op == "boolint":
            return int(bool(e(a[0])))
        if op == "haskey":
            return self.pick(self, None, ("haskey", a[0].args if a[0].op == "ref" else (e(a[0].args[0]) if a[0].args else None), e(a[1])))
        if op == "fmt":
            if len(a) == 2 and isinstance(a[1], Term) and a[1].op == "const" and isinstance(T.cval(a[1]), str) and T.cval(a[1])[:1] == "%" and len(T.cval(a[1])) > 1:
                return T.cval(a[1]) % (e(a[0]),)
            if len(a) == 2 and isinstance(a[1], Term) and a[1].op == "const" and isinstance(T.cval(a[1]), str):
                return format(e(a[0]), T.cval(a[1]))
            raise NoModel("fmt")
        if op.startswith("b") and op[1:] in BYTES_METHODS:
            return getattr(e(a[0]), op[1:])(*[e(x) for x in a[1:]])
        if op.startswith("str") and op[3:] in STR_METHODS:
            return getattr(e(a[0]), op[3:])(*[e(x) for x in a[1:]])
        if op.startswith("bytes") and op[5:] in BYTES_METHODS:
            return getattr(e(a[0]), op[5:])(*[e(x) for x in a[1:]])
        if op in STR_METHODS and t.ty == "str":
            return getattr(e(a[0]), op)(*[e(x) for x in a[1:]])
        raise NoModel(op)

    def pred(self, name, a):
        if name == "codec":
            return codec(a[0])
        if name == "nullname":
            return "\0" in a[0]
        if name in ("plain-decode", "plain-encode"):
            try:
                bytes(a[0]).decode(a[1]) if name == "plain-decode" else a[0].encode(a[1])
            except UnicodeError as e:
                return not isinstance(e, (UnicodeDecodeError, UnicodeEncodeError))
            except Exception:
                raise NoModel("codec " + a[1]) from None
            return False
        if name == "decodable":
            return _ok(lambda: bytes(a[0]).decode(a[1]))
        if name == "encodable":
            return _ok(lambda: a[0].encode(a[1]))
        if name == "hexstr":
            x = a[0]
            if isinstance(x, (bytes, bytearray)):
                x = x.decode("latin-1")
            return len(x) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in x)
        if name == "fromhexable":
            return _ok(lambda: bytes.fromhex(a[0]))
        if name == "intable":
            return _ok(lambda: int(a[0], a[1]))
        if name == "fits":
            n, ln, signed = a
            return _ok(lambda: n.to_bytes(ln, "big", signed=signed))
        if name == "contains":
            return a[1] in a[0]
        if name == "truthy":
            return bool(a[0])
        if name == "nonzero":
            return any(a[0])
        if name == "nozero":
            return all(a[0])
        if name == "digits":
            return all(c in "0123456789" for c in a[0])
        if name in STR_METHODS and isinstance(a[0], (str, bytes, bytearray)):
            return bool(getattr(a[0], name)(*a[1:]))
        if name.startswith("b") and name[1:] in BYTES_METHODS and isinstance(a[0], (bytes, bytearray)):
            return bool(getattr(a[0], name[1:])(*a[1:]))
        raise NoModel("pred " + name)


def codec(name):
    import codecs
    try:
        codecs.lookup(name)
        "".encode(name)
        return True
    except UnicodeError:
        return True
    except (LookupError, ValueError, TypeError):
        return False


def _ok(f):
    try:
        f()
        return True
    except (ValueError, LookupError, OverflowError, TypeError):
        return False


STR_METHODS = {n for n in dir(str) if not n.startswith("_")}
BYTES_METHODS = {n for n in dir(bytes) if not n.startswith("_")}


def _unhex(x):
    import binascii
    return binascii.a2b_hex(x)


def _intof(x, base=10):
    return int(x, base)


def _div(a, b):
    if b == 0:
        raise Undefined("division")
    return a // b


def _pad(v, width, align, fill):
    if align == "c":
        return v.center(width, fill)
    return format(v, "%s%s%d" % (fill, align, width)) if width >= 0 else v


def _fmt0(n, w):
    return format(n, "0%dd" % w) if w > 0 else str(n)


OPS = {
    "floordiv": _div,
    "mod": lambda a, b: a % b if b else _div(a, b),
    "mul": lambda a, b: a * b,
    "half": lambda n: n // 2,
    "parity": lambda n: n & 1,
    "min": lambda *a: min(a),
    "max": lambda *a: max(a),
    "abs": abs,
    "len": len,
    "tobytes": bytes,
    "memoryview": bytes,
    "hex": lambda x: bytes(x).hex(),
    "hexsep": lambda x, *a: bytes(x).hex(*a),
    "upper": lambda x: x.upper(),
    "lower": lambda x: x.lower(),
    "unhex": _unhex,
    "fromhex_ws": lambda x: bytes.fromhex(x),
    "byteat": lambda x, i: x[i],
    "from_bytes": lambda x, o, s: int.from_bytes(x, o, signed=bool(s)),
    "to_bytes": lambda n, ln, o: n.to_bytes(ln, o),
    "to_bytes_signed": lambda n, ln, o: n.to_bytes(ln, o, signed=True),
    "int_of_str": _intof,
    "str_of_int": str,
    "fmt0": _fmt0,
    "pad": _pad,
    "padv": lambda v, w, al, fill: v.ljust(w, fill) if al == "<" else v.rjust(w, fill) if al == ">" else v.center(w, fill),
    "zfill": lambda x, n: x.zfill(n),
    "repeat": lambda x, n: x * n if n < 100000 else _toolong(),
    "decode": lambda x, enc, err="strict": bytes(x).decode(enc, err),
    "encode": lambda x, enc, err="strict": x.encode(enc, err),
    "repr": repr,
    "strof": lambda v, *a: str(v),
    "ord": ord,
    "chr": chr,
    "bin": bin,
    "hexint": hex,
    "oct": oct,
    "bit_length": lambda n: n.bit_length(),
    "pow": lambda a, b: a ** b if 0 <= b < 4096 else _toolong(),
    "shl": lambda a, b: a << b if b < 4096 else _toolong(),
    "bitop": lambda o, a, b: a & b if o in ("BitAnd", "&") else a | b if o in ("BitOr", "|") else a ^ b,
    "eq": lambda a, b: a == b and type(a) in (bytes, bytearray) or (a == b if type(a) is type(b) or
                                                                   isinstance(a, (bytes, bytearray)) else False),
    "cmp": lambda o, a, b: _cmp(o, a, b),
}


def _toolong():
    raise Undefined("too long")


def _cmp(o, a, b):
    if o == "Eq":
        return a == b
    if o == "In":
        return a in b
    if o == "Lt":
        return a < b
    if o == "LtE":
        return a <= b
    if o == "Gt":
        return a > b
    if o == "GtE":
        return a >= b
    raise NoModel("cmp " + o)


def random_path(g, rng):
    """A satisfying assignment of a guard"""
    path = {}
    while g > 1:
        v, lo, hi = bdd._nodes[g]
        b = rng.random() < 0.5
        if (hi if b else lo) == bdd.FALSE:
            b = not b
        path[v] = b
        g = hi if b else lo
    return path if g == bdd.TRUE else None


def consts_of(terms):
    """Constants mentioned by the terms, by type"""
    out = {"int": set(), "str": set(), "bytes": set()}
    from .state import subterms
    for t in terms:
        for x in subterms(t):
            if x.op == "const":
                v = T.cval(x)
                if isinstance(v, bool) or v is None:
                    continue
                k = type(v).__name__
                if k in out:
                    out[k].add(v)
            elif x.op == "lin":
                out["int"].add(x.args[0])
                for _, k in x.args[1]:
                    out["int"].add(k)
    return out


def facts_of(st):
    fs = []
    for l in st.les:
        fs.append((T.mk("le0", l, ty="bool"), True))
    for c, v in st.facts.items():
        fs.append((c, v))
    for a, b in st.subst.items():
        if a.ty == "int":
            fs.append((T.mk("eq0", T.sub(a, b), ty="bool"), True))
        else:
            fs.append((T.mk("eq", a, b, ty="bool"), True))
    return fs


def holds(model, st, facts=None):
    """Do all facts of the state hold in the model?"""
    for c, v in (facts if facts is not None else facts_of(st)):
        if model.ev(c) is not v and bool(model.ev(c)) != v:
            return False
    return True
