"""Value-numbering domain: hash-consed terms with normalising constructors.

A term is the abstract value of an expression: a leaf symbol (part of the analysis input), a
constant, or an operation applied to terms.  Two program expressions that compute the same value in
different ways get the same term whenever the normal forms below cover the difference; that is what
makes the analysis indifferent to how the code is written.

Integers are kept as linear forms  c + sum(coef * atom).
"""

_table = {}
_count = 0


class Term:
    __slots__ = ("op", "args", "ty", "id", "has_top", "site")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _key(a):
    if isinstance(a, Term):
        return a.id
    if isinstance(a, tuple):
        return ("#",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args, ty="any"):
    global _count
    k = (op, ty) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        _count += 1
        t.id = _count
        t.site = None
        t.has_top = op == "top" or any(_ht(a) for a in args)
        _table[k] = t
    return t


def _ht(a):
    if isinstance(a, Term):
        return a.has_top
    if isinstance(a, tuple):
        return any(_ht(x) for x in a)
    return False


# ------------------------------------------------------------------ constants
_pytypes = {int: "int", str: "str", bytes: "bytes", bool: "bool", type(None): "none", float: "float",
            complex: "complex", type(Ellipsis): "ellipsis"}


def const(v):
    return mk("const", v, ty=_pytypes[type(v)])


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY_B = const(b"")
EMPTY_S = const("")


def is_const(t, v=...):
    if t.op != "const":
        return False
    return True if v is ... else (type(t.args[0]) is type(v) and t.args[0] == v)


def cval(t):
    return t.args[0]


def sym(name, ty):
    """Leaf symbol: an input of the analysis or a loop-carried value."""
    return mk("sym", name, ty=ty)


_topn = [0]


def top(reason, ty="any"):
    return mk("top", reason, ty=ty)


def tup(vals):
    return mk("tuple", *vals, ty="tuple")


# ------------------------------------------------------------------ linear integers
def lin(t):
    """-> (const, {atom: coef})"""
    if t.op == "const" and isinstance(t.args[0], int):
        return int(t.args[0]), {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return const(int(c))
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)), ty="int")


def add(a, b):
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return from_lin(ca + cb, da)


def scale(a, k):
    c, d = lin(a)
    return from_lin(c * k, {x: v * k for x, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const":
        return scale(b, int(cval(a)))
    if b.op == "const":
        return scale(a, int(cval(b)))
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a, b, ty="int")


def floordiv(a, k):
    """k: const int term or term"""
    if k.op == "const":
        n = int(cval(k))
        if n == 0:
            return top("division by zero", "int")
        if n < 0:
            return floordiv(neg(a), const(-n))
        if n == 1:
            return a
        c, d = lin(a)
        q, r = {}, {}
        for x, v in d.items():
            if v // n:
                q[x] = v // n
            if v % n:
                r[x] = v % n
        qc, rc = c // n, c % n
        rest = from_lin(rc, r)
        if rest.op == "const":
            return from_lin(qc + int(cval(rest)) // n, q)
        # (x // m) // n == x // (m*n)
        if rest.op == "floordiv" and rest.args[1].op == "const":
            inner = floordiv(rest.args[0], const(int(cval(rest.args[1])) * n))
            return add(from_lin(qc, q), inner)
        return add(from_lin(qc, q), mk("floordiv", rest, k, ty="int"))
    return mk("floordiv", a, k, ty="int")


def mod(a, k):
    if k.op == "const" and int(cval(k)) > 0:
        n = int(cval(k))
        c, d = lin(a)
        r = from_lin(c % n, {x: v % n for x, v in d.items()})
        if r.op == "const":
            return const(int(cval(r)) % n)
        return sub(r, scale(floordiv(r, k), n))
    return mk("mod", a, k, ty="int")


def half(n):
    """h such that n == 2h or n == 2h+1 (used once the parity of n is known)"""
    return mk("half", n, ty="int")


def length(x):
    """len() of a str/bytes-like term"""
    if x.op == "const":
        return const(len(cval(x)))
    if x.op == "concat":
        r = const(0)
        for a in x.args:
            r = add(r, length(a))
        return r
    if x.op in ("tobytes", "memoryview"):
        return length(x.args[0])
    if x.op == "ite":
        a, b = length(x.args[1]), length(x.args[2])
        if a is b:
            return a
    if x.op in ("hex",):
        return scale(length(x.args[0]), 2)
    if x.op == "bytesof":
        return const(len(x.args))
    if x.op == "bitstr":
        return const(len(x.args))
    if x.op == "to_bytes":
        return x.args[1]
    if x.op == "upper" and x.args[0].op in ("hex", "fmt0", "str_of_int", "concat_hex"):
        return length(x.args[0])
    if x.op == "unhex" and x.args[0].op == "fmt0":
        w = x.args[0].args[1]
        # only built when the string has exactly this width (the caller compared lengths)
    if x.op == "repeat" and is_const(length(x.args[0]), 1):
        return x.args[1]
    return mk("len", x, ty="int")


# ------------------------------------------------------------------ strings and bytes
def bytes_like(ty):
    return ty in ("bytes", "bytearray", "memoryview")


def tobytes(x):
    """Immutable copy (bytes(x)); content is the same."""
    if x.ty == "bytes":
        return x
    if x.op in ("tobytes", "memoryview"):
        return tobytes(x.args[0])
    return mk("tobytes", x, ty="bytes")


def strip_copy(x):
    """Content of a bytes-like term, whatever its concrete type."""
    while x.op in ("tobytes", "memoryview"):
        x = x.args[0]
    return x


def mk_slice(x, a, b):
    """x[a:b] where 0 <= a <= b is known (b None: to the end).  Not clipped."""
    if b is not None and a is b:
        return const(b"" if bytes_like(x.ty) else "")
    if x.op == "const" and a.op == "const" and (b is None or b.op == "const"):
        return const(cval(x)[cval(a):(None if b is None else cval(b))])
    if is_const(a, 0) and b is None and x.ty != "bytearray":
        return x
    if x.op == "tobytes":
        return tobytes(mk_slice(x.args[0], a, b))
    if x.op == "slice" and x.args[2] is None:
        base, a0, _ = x.args
        return mk_slice(base, add(a0, a), None if b is None else add(a0, b))
    return mk("slice", x, a, b, ty=x.ty)


def concat(parts, ty=None):
    """Concatenation; adjacent constants and adjacent slices of one sequence are fused.
    Callers that fuse slices must know the first one is full; see State.norm."""
    out = []
    for p in parts:
        if p.op == "concat":
            seq = list(p.args)
        else:
            seq = [p]
        for q in seq:
            if q.op == "const" and len(cval(q)) == 0:
                continue
            if out and out[-1].op == "const" and q.op == "const":
                l, r = cval(out[-1]), cval(q)
                if type(l) is type(r):
                    out[-1] = const(l + r)
                    continue
            if out and out[-1].op == "bytesof" and q.op == "bytesof":
                out[-1] = mk("bytesof", *(out[-1].args + q.args), ty="bytes")
                continue
            out.append(q)
    t = ty or (parts[0].ty if parts else "bytes")
    if not out:
        return const("" if t == "str" else b"")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out, ty=t)


def hexstr(x):
    x = strip_copy(x)
    if x.op == "const":
        return const(cval(x).hex())
    if x.op == "unhex" and x.args[0].op in ("hex", "fmt0"):
        return x.args[0]
    return mk("hex", x, ty="str")


_digits_only = ("fmt0", "str_of_int")


def upper(x):
    if x.op == "const":
        return const(cval(x).upper())
    if x.op in ("upper",) + _digits_only:
        return x
    if x.op == "lower":
        return upper(x.args[0]) if x.args[0].op == "hex" else mk("upper", x, ty=x.ty)
    return mk("upper", x, ty=x.ty)


def lower(x):
    if x.op == "const":
        return const(cval(x).lower())
    if x.op in ("lower", "hex") + _digits_only:
        return x
    if x.op == "upper" and x.args[0].op == "hex":
        return x.args[0]
    return mk("lower", x, ty=x.ty)


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 7:
        return "..."
    s = lambda x: show(x, depth + 1)
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "lin":
        out = []
        for a, k in t.args[1]:
            out.append(("%s" if k == 1 else "-%s" if k == -1 else str(k) + "*%s") % s(a))
        if t.args[0] or not out:
            out.append(str(t.args[0]))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if t.op == "slice":
        x, a, b = t.args
        return "%s[%s:%s]" % (s(x), "" if is_const(a, 0) else s(a), "" if b is None else s(b))
    if t.op == "ref":
        return "<object %s>" % (t.args[0],) if depth < 2 else "<object>"
    if t.op == "top":
        return "?(%s)" % t.args[0]
    if t.op == "bits":
        return "<%d bits>" % len(t.args)
    if t.op == "bytesof":
        return "<%d computed bytes>" % len(t.args)
    if t.op == "guard":
        from . import bdd
        return "[%s]" % bdd.show(t.args[0])
    if t.op == "func":
        return "<function %s>" % getattr(t.args[0], "name", "?")
    return "%s(%s)" % (t.op, ", ".join(s(a) for a in t.args))
