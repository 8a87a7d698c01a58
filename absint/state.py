"""Abstract state: heap of objects, value-numbering facts, linear equalities and inequalities, a
guard (BDD) for the key/bit conditions that hold, and the ordered log of observable events."""
import math

from . import bdd
from . import terms as T
from .terms import mk, const, lin, from_lin, Term


# ------------------------------------------------------------------ condition terms
def c_guard(g):
    if g == bdd.TRUE:
        return T.TRUE
    if g == bdd.FALSE:
        return T.FALSE
    return mk("guard", g, ty="bool")


def c_not(c):
    if c.op == "const":
        return const(not T.cval(c))
    if c.op == "not":
        return c.args[0]
    if c.op == "guard":
        return c_guard(bdd.not_(c.args[0]))
    if c.op == "le0":
        return c_le0(T.sub(const(1), c.args[0]))
    return mk("not", c, ty="bool")


def sure_nonneg(n):
    c, d = lin(n)
    return c >= 0 and all(k > 0 and a.op in ("len", "lentype", "half", "count", "bits", "ord") for a, k in d.items())


def _powered(a):
    """A power term as (2 or 10, exponent)"""
    if a.op == "shl":
        c, d = lin(a.args[0])
        if d or c <= 0 or c & (c - 1):
            return None
        return 2, T.add(a.args[1], const(c.bit_length() - 1))
    b, e = a.args
    if b.op != "const" or T.cval(b) < 2:
        return None
    b, k = T.cval(b), 1
    if b & (b - 1) == 0:
        return 2, T.scale(e, b.bit_length() - 1)
    while b % 10 == 0:
        b //= 10
        k *= 10
    return (10, T.scale(e, len(str(k)) - 1)) if b == 1 else None


def _exact(l, k):
    c, d = lin(l)
    if c % k or any(v % k for v in d.values()):
        return None
    return T.from_lin(c // k, {a: v // k for a, v in d.items()})


def c_size(l):
    """Comparison of a number with a power, or of its size in bits: whether it fits in so many bytes or digits"""
    c, d = lin(l)
    for a, k in d.items():
        if a.op == "bit_length" and abs(k) == 1 and sure_nonneg(a.args[0]):
            # bits - 8 * bytes <= 0, or 8 * bytes + 1 - bits <= 0
            rest = T.sub(a, l) if k == 1 else T.sub(T.add(l, a), const(1))
            b = _exact(rest, 8)
            if b is not None and sure_nonneg(b):
                f = mk("pred", "fits", a.args[0], b, T.FALSE, ty="bool")
                return f if k == 1 else c_not(f)
        elif a.op in ("pow", "shl") and abs(k) == 1:
            p = _powered(a)
            # n + 1 - power <= 0, or power - n <= 0
            n = T.sub(T.add(l, a), const(1)) if k == -1 else T.sub(a, l)
            if p is None or not sure_nonneg(n) or not sure_nonneg(p[1]):
                continue
            if p[0] == 2:
                b = _exact(p[1], 8)
                if b is None:
                    continue
                f = mk("pred", "fits", n, b, T.FALSE, ty="bool")
            else:
                f = c_le0(T.sub(T.length(mk("fmt0", n, p[1], ty="str")), p[1]))
            return f if k == -1 else c_not(f)
    return None


def c_le0(l):
    if l.op == "const":
        return const(T.cval(l) <= 0)
    c, d = lin(l)
    if any(a.op in ("bit_length", "pow", "shl") for a in d):
        r = c_size(l)
        if r is not None:
            return r
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "count":
            # c + k * count <= 0
            if k > 0:
                g = bdd.at_least(a.args[0], -c // k + 1)
                if g is not None:
                    return c_guard(bdd.not_(g))
            else:
                g = bdd.at_least(a.args[0], -(-c // -k))
                if g is not None:
                    return c_guard(g)
    return mk("le0", l, ty="bool")


def c_eq0(l):
    if l.op == "const":
        return const(T.cval(l) == 0)
    c, d = lin(l)
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "parity":
            # k * parity + c == 0
            if c == 0:
                return c_not(c_odd(a.args[0]))
            return c_odd(a.args[0]) if k == -c else const(False)
        if a.op == "count":
            if c % k:
                return T.FALSE
            x, y = bdd.at_least(a.args[0], -c // k), bdd.at_least(a.args[0], -c // k + 1)
            if x is not None and y is not None:
                return c_guard(bdd.and_(x, bdd.not_(y)))
    # canonical sign
    first = min(d, key=lambda x: x.id)
    if d[first] < 0:
        l = T.neg(l)
    return mk("eq0", l, ty="bool")


def c_lt(a, b):
    """a < b"""
    return c_le0(T.add(T.sub(a, b), const(1)))


def c_le(a, b):
    return c_le0(T.sub(a, b))


def c_eq(a, b):
    """a == b for non-integer terms"""
    if a is b:
        return T.TRUE
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b, ty="bool")


def c_odd(n):
    c, d = lin(n)
    r = {x: k % 2 for x, k in d.items() if k % 2}
    odd = c % 2
    if not r:
        return const(bool(odd))
    if len(r) == 1:
        (x, _), = r.items()
        t = mk("odd", x, ty="bool")
    else:
        t = mk("odd", from_lin(0, r), ty="bool")
    return c_not(t) if odd else t


def c_parity(n):
    c, d = lin(n)
    o = c_odd(n)
    if o.op == "const":
        return const(int(T.cval(o)))
    if o.op == "not":
        return T.sub(const(1), c_parity(o.args[0].args[0]))
    return mk("parity", o.args[0], ty="int")


class Infeasible(Exception):
    pass


class State:
    __slots__ = ("heap", "facts", "les", "subst", "gpc", "events", "counts", "ghost", "_memo", "weak")

    def __init__(self):
        self.heap = {}
        self.facts = {}          # condition term -> bool
        self.les = ()            # linear terms known <= 0
        self.subst = {}          # atom -> term
        self.gpc = bdd.TRUE
        self.events = None       # linked list (prev, event)
        self.counts = {}         # allocation counters
        self.ghost = {}
        self._memo = {}
        self.weak = ()           # reasons why this state may be infeasible or imprecise

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.les = self.les
        s.subst = dict(self.subst)
        s.gpc = self.gpc
        s.events = self.events
        s.counts = dict(self.counts)
        s.ghost = dict(self.ghost)
        s._memo = dict(self._memo)
        s.weak = self.weak
        return s

    def event(self, *ev):
        self.events = (self.events, ev)

    def weaken(self, why):
        if why not in self.weak:
            self.weak = self.weak + (why,)

    # -------------------------------------------------------------- normalisation
    def norm(self, t):
        if not self.subst and t.op not in ("concat",):
            if t.op != "tuple" and "concat" not in _ops(t):
                return t
        m = self._memo.get(t)
        if m is not None:
            return m
        r = self._norm(t)
        self._memo[t] = r
        return r

    def _norm(self, t):
        s = self.subst.get(t)
        if s is not None:
            return self.norm(s)
        if t.op in ("const", "sym", "ref", "top", "guard", "bits", "func", "class", "builtin", "module", "half"):
            return t
        if t.op == "lin":
            r = const(t.args[0])
            for a, k in t.args[1]:
                r = T.add(r, T.scale(self.norm(a), k))
            return r
        args = tuple(self._norm_arg(a) for a in t.args)
        r = self._shape(t, args)
        if r is not t:
            s = self.subst.get(r)
            if s is not None:
                return self.norm(s)
        return r

    def _shape(self, t, args):
        r = rebuild(t.op, args, t.ty)
        if r.op == "concat":
            r = self.fuse(r)
        elif r.op == "slice" and r.args[2] is not None and r.args[0].op == "sym" \
                and r.args[2] is self.end_of(r.args[0]):
            x, a, b = r.args             # up to the end of the input
            r = x if T.is_const(a, 0) and x.ty != "bytearray" else T.mk_slice(x, a, None)
        return r

    def end_of(self, x):
        """The length of an input, where an equation gives it (computed with its slices left as they are)."""
        n = T.length(x)
        if n not in self.subst:
            return n
        ends = self._memo.get("#ends")
        if ends is None:
            ends = self._memo["#ends"] = {}
        if x not in ends:
            outer, self._memo = self._memo, {"#ends": {x: None}}
            r = self.norm(n)
            self._memo = outer
            ends[x] = r
        return ends[x]

    def _norm_arg(self, a):
        if isinstance(a, Term):
            return self.norm(a)
        if isinstance(a, tuple):
            return tuple(self._norm_arg(x) for x in a)
        return a

    def fuse(self, t):
        """Merge adjacent slices x[a:b] + x[b:c] when the first is complete."""
        parts = list(t.args)
        out = []
        for p in parts:
            if out and _core(out[-1]).op == "slice" and _core(p).op == "slice":
                q = out[-1]
                x, a, b = _core(q).args
                y, c, d = _core(p).args
                if x is y and b is not None and b is c and self.prove_le0(
                        T.sub(T.sub(b, a), T.length(_core(q)))):
                    f = T.mk_slice(x, a, d)
                    if p.ty == "bytes" or q.ty == "bytes":
                        f = T.tobytes(f)
                    out[-1] = f
                    continue
            out.append(p)
        return T.concat(out, t.ty)

    # -------------------------------------------------------------- linear reasoning
    def prove_le0(self, l):
        l = self.norm(l)
        if l.op == "const":
            return T.cval(l) <= 0
        return self._prove(lin(l), 5, self._lefacts(), set())

    def _lefacts(self):
        m = self._memo.get("#les")
        if m is None:
            m = []
            for f in self.les:
                g = self.norm(f)
                if g.op != "const":
                    m.append(tight(*lin(g)))
            self._memo["#les"] = m
        return m

    def _prove(self, g, depth, facts, seen):
        c, d = g
        if not d:
            return c <= 0
        c, d = tight(c, d)
        if depth == 0:
            return False
        key = (c, tuple(sorted((a.id, k) for a, k in d.items())))
        if key in seen:
            return False
        seen.add(key)
        best = None
        for a, k in d.items():
            cands = []
            for f in facts:
                fk = f[1].get(a, 0)
                if fk * k > 0:
                    cands.append(f)
            for f in intrinsic(self, a):
                fk = f[1].get(a, 0)
                if fk * k > 0:
                    cands.append(f)
            if not cands:
                continue          # it may cancel when another atom is eliminated
            if any(fd == d and c <= fc for fc, fd in cands):
                return True
            if best is None or len(cands) < len(best[1]):
                best = (a, cands)
        if best is None:
            return False
        a, cands = best
        k = d[a]
        for fc, fd in cands:
            fk = fd[a]
            # scale goal by |fk|, fact by |k|
            m, n = abs(fk), abs(k)
            if k % fk == 0:
                m, n = 1, abs(k // fk)
            nc = c * m - fc * n
            nd = {}
            for x, v in d.items():
                nd[x] = v * m
            for x, v in fd.items():
                nd[x] = nd.get(x, 0) - v * n
            nd = {x: v for x, v in nd.items() if v}
            if self._prove((nc, nd), depth - 1, facts, seen):
                return True
        return False

    def prove_eq(self, a, b):
        """Equality of two terms under the facts of this state (proved, not guessed)."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if a.ty in ("int", "bool") and b.ty in ("int", "bool"):
            d = T.sub(a, b)
            if d.op == "const":
                return T.cval(d) == 0
            return self.prove_le0(d) and self.prove_le0(T.neg(d))
        return False

    # -------------------------------------------------------------- deciding conditions
    def decide(self, c):
        """True / False / None"""
        if c.op == "const":
            return bool(T.cval(c))
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "guard":
            g = c.args[0]
            if bdd.and_(self.gpc, g) == bdd.FALSE:
                return False
            if bdd.implies(self.gpc, g):
                return True
            return None
        if c in self.facts:
            return self.facts[c]
        if c.op == "le0":
            l = self.norm(c.args[0])
            if l.op == "const":
                return T.cval(l) <= 0
            if self.prove_le0(l):
                return True
            if self.prove_le0(T.sub(const(1), l)):
                return False
            return None
        if c.op == "eq0":
            l = self.norm(c.args[0])
            c2 = c_eq0(l)
            if c2.op == "const":
                return T.cval(c2)
            if c2 in self.facts:
                return self.facts[c2]
            if self.subst:
                r = self._nfacts().get(c2)
                if r is not None:
                    return r
            up, lo = self.prove_le0(l), self.prove_le0(T.neg(l))
            if up and lo:
                return True
            if self.prove_le0(T.add(l, const(1))) or self.prove_le0(T.sub(const(1), l)):
                return False
            # divisibility
            k, d = lin(l)
            g = 0
            for v in d.values():
                g = math.gcd(g, v)
            if g > 1 and k % g:
                return False
            dm = self.domain_of(l)
            if dm is not None:
                return dm
            return None
        n = self.norm(c)
        if n is not c:
            return self.decide(n)
        if self.subst:
            r = self._nfacts().get(c)
            if r is not None:
                return r
        if c.op == "odd":
            return None
        if c.op == "eq":
            return self.decide_eq(*c.args)
        if c.op == "isinst":
            return None
        if c.op == "pred":
            return None
        return None

    def fact(self, c):
        v = self.facts.get(c)
        return self._nfacts().get(c) if v is None and self.subst else v

    def _nfacts(self):
        """Facts recorded before an equation was learnt, in the normal form of now."""
        m = self._memo.get("#facts")
        if m is None:
            m = self._memo["#facts"] = {}
            for k, v in self.facts.items():
                n = self.norm(k)
                if n is not k:
                    if n.op == "not":
                        n, v = n.args[0], not v
                    m[n] = v
        return m

    def domain_of(self, l):
        """x - k == 0 for a loop element x with a finite guarded domain"""
        k, d = lin(l)
        if len(d) != 1:
            return None
        (a, co), = d.items()
        dom = self.ghost.get(("domain", a))
        if dom is None:
            return None
        if (-k) % co:
            return False
        v = -k // co
        for g, n in dom:
            if n == v and bdd.and_(self.gpc, g) != bdd.FALSE:
                return None
        return False

    def decide_eq(self, a, b):
        if a is b:
            return True
        if a.op == "const" and b.op == "const":
            return T.cval(a) == T.cval(b)
        # a string against a constant: compare lengths
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and isinstance(T.cval(y), (str, bytes)) and x.ty in (
                    "str", "bytes", "bytearray"):
                n = const(len(T.cval(y)))
                lx = T.length(x)
                if self.decide(c_eq0(T.sub(lx, n))) is False:
                    return False
                if x.op == "str_of_int":
                    v = T.cval(y)
                    if not (v.isascii() and v.isdigit() and str(int(v)) == v):
                        return False
                    return self.decide(c_eq0(T.sub(x.args[0], const(int(v)))))
        if a.op == "str_of_int" and b.op == "str_of_int":
            return self.decide(c_eq0(T.sub(a.args[0], b.args[0])))
        return None

    def assume(self, c, truth=True):
        """Refine in place.  Returns False when the state becomes infeasible."""
        if not truth:
            c = c_not(c)
        r = self.decide(c)
        if r is not None:
            if r and c.op == "guard":
                pass
            return r
        self._memo = {}
        if c.op == "guard":
            self.gpc = bdd.and_(self.gpc, c.args[0])
            return self.gpc != bdd.FALSE
        pos, a = True, c
        if a.op == "not":
            pos, a = False, a.args[0]
        a = self.norm(a) if a.op not in ("guard",) else a
        if a.op == "not":
            pos, a = not pos, a.args[0]
        if a.op == "const":
            return T.cval(a) == pos
        self._memo = {}
        if a.op == "le0":
            l = a.args[0] if pos else T.sub(const(1), a.args[0])
            if self.prove_le0(T.neg(l)):
                return self.assume(c_eq0(l))
            self.add_le(l)
            return True
        if a.op == "eq0":
            if pos:
                self.add_le(a.args[0], T.neg(a.args[0]))
                self._orient(a.args[0])
            else:
                l = a.args[0]
                # x != 0 with a known sign
                if self.prove_le0(T.neg(l)):
                    self.add_le(T.sub(const(1), l))
                elif self.prove_le0(l):
                    self.add_le(T.add(l, const(1)))
                self.facts[a] = False
            return True
        if a.op == "odd":
            x = a.args[0]
            self.facts[a] = pos
            if x.op != "lin":
                self.subst[x] = T.add(T.scale(T.half(x), 2), const(1 if pos else 0))
                self._rekey(x)
            return True
        if a.op == "eq" and pos:
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                if q.op == "const" and p.op != "const" and not _mentions(q, p):
                    self.subst[p] = q
                    self._rekey(p)
                    return True
            self.facts[a] = True
            return True
        if a.op == "eq" and not pos:
            for x, y in (a.args, a.args[::-1]):
                if T.is_const(y) and T.cval(y) in ("", b"") and x.ty in ("str", "bytes", "bytearray"):
                    return self.assume(c_le0(T.length(x)), False)
        self.facts[a] = pos
        return True

    def add_le(self, *ls):
        self.les = self.les + ls
        self._memo = {}

    def _orient(self, l):
        """Use an equality l == 0 as a rewrite rule atom -> rest when that is well-founded."""
        c, d = lin(self.norm(l))
        cands = sorted((a for a, k in d.items() if abs(k) == 1), key=lambda a: (not _whole(a), -_size(a), -a.id))
        for a in cands:
            if a.op == "half" or a in self.subst:
                continue
            rest = from_lin(c, {x: k for x, k in d.items() if x is not a})
            rest = rest if d[a] == -1 else T.neg(rest)
            if _mentions(rest, a):
                continue
            # what holds of the atom by construction holds of what replaces it
            keep = [from_lin(fc, fd) for fc, fd in intrinsic(self, a)]
            self._memo = {}
            self.subst[a] = rest
            self._rekey(a)
            self.add_le(*[f for f in keep if not self.prove_le0(f)])
            return

    def _rekey(self, a):
        """The left sides of the earlier equations under the new one."""
        for k in list(self.subst):
            if k is a or k.op in ("sym", "lin") or not _flat_has(k):
                continue
            n = self._shape(k, tuple(self._norm_arg(x) for x in k.args))
            if n is not k and n.op != "const" and n not in self.subst:
                self.subst[n] = self.subst[k]
                self._memo = {}

    # -------------------------------------------------------------- events
    def event_list(self, since=None):
        out = []
        e = self.events
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def _whole(a):
    """The length of an input itself: rewriting it leaves the terms cut out of the input alone."""
    return a.op == "len" and a.args[0].op == "sym"


def tight(c, d):
    """c + sum(k*x) <= 0 over the integers, divided by the common factor of the coefficients"""
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        return -(-c // g), {x: k // g for x, k in d.items()}
    return c, d


_size_memo = {}


def _size(t):
    r = _size_memo.get(t)
    if r is None:
        r = 1
        for a in t.args:
            r += _asize(a)
        _size_memo[t] = r
    return r


def _asize(a):
    if isinstance(a, Term):
        return _size(a)
    if isinstance(a, tuple):
        return sum(_asize(x) for x in a)
    return 0


_ops_memo = {}


def _ops(t):
    r = _ops_memo.get(t)
    if r is None:
        r = {t.op}
        for a in _flat(t.args):
            r |= _ops(a)
        r = frozenset(r)
        _ops_memo[t] = r
    return r


def _flat(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def _flat_has(t):
    return any(True for _ in _flat(t.args))


_subt_memo = {}


def subterms(t):
    """All subterms, including t (frozenset)."""
    r = _subt_memo.get(t)
    if r is None:
        s = {t}
        for a in _flat(t.args):
            s |= subterms(a)
        r = frozenset(s)
        _subt_memo[t] = r
    return r


def _mentions(t, a):
    return a in subterms(t)


def _core(t):
    return T.strip_copy(t)


def rebuild(op, args, ty):
    if op == "floordiv":
        return T.floordiv(*args)
    if op == "mod":
        return T.mod(*args)
    if op == "mul":
        return T.mul(*args)
    if op == "len":
        return T.length(args[0])
    if op == "tobytes":
        return T.tobytes(args[0])
    if op == "slice":
        return T.mk_slice(*args)
    if op == "concat":
        return T.concat(list(args), ty)
    if op == "hex":
        return T.hexstr(args[0])
    if op == "upper":
        return T.upper(args[0])
    if op == "lower":
        return T.lower(args[0])
    if op == "le0":
        return c_le0(args[0])
    if op == "eq0":
        return c_eq0(args[0])
    if op == "odd":
        return c_odd(args[0])
    if op in ("pow", "shl") and args[0].op == args[1].op == "const" and 0 <= T.cval(args[1]) < 4096:
        return const(T.cval(args[0]) ** T.cval(args[1]) if op == "pow" else T.cval(args[0]) << T.cval(args[1]))
    if op == "bit_length" and args[0].op == "const":
        return const(T.cval(args[0]).bit_length())
    if op == "parity":
        return c_parity(args[0])
    if op == "eq":
        a, b = args
        if a.op == "const" and b.op == "const":
            return const(T.cval(a) == T.cval(b))
        return c_eq(a, b)
    if op == "not":
        return c_not(args[0])
    if op == "fmt0" and args[0].op == "const" and args[1].op == "const":
        return const(str(T.cval(args[0])).zfill(T.cval(args[1])))
    if op == "str_of_int" and args[0].op == "const":
        return const(str(T.cval(args[0])))
    return mk(op, *args, ty=ty)


# ------------------------------------------------------------------ facts that hold by construction
def intrinsic(st, a):
    """Linear facts about an atom, as (c, {atom: coef}) meaning <= 0."""
    out = []

    def le(t):
        c, d = lin(st.norm(t))
        if d:
            out.append((c, d))
    if a.op == "len":
        x = a.args[0]
        out.append((0, {a: -1}))
        if x.op == "slice":
            y, i, j = x.args
            # len(y[i:j]) <= len(y) - i  only when i <= len(y); 0 otherwise
            le(T.sub(a, T.length(y)))
            if j is not None:
                le(T.sub(a, T.sub(j, i)))           # 0 <= i <= j by construction
                if st.prove_small(T.sub(i, T.length(y))):
                    le(T.sub(T.add(a, i), T.length(y)))
                    if st.prove_small(T.sub(j, T.length(y))):
                        le(T.sub(T.sub(j, i), a))
            elif st.prove_small(T.sub(i, T.length(y))):
                le(T.sub(T.add(a, i), T.length(y)))
                le(T.sub(T.sub(T.length(y), i), a))
            # a slice of at least one element of a non-empty sequence
            if T.is_const(i, 0) and (j is None or st.prove_small(T.sub(const(1), j))) \
                    and st.prove_small(T.sub(const(1), T.length(y))):
                le(T.sub(const(1), a))
        elif x.op in ("upper", "lower"):
            if st.prove_small(T.sub(const(1), T.length(x.args[0]))):
                le(T.sub(const(1), a))
        elif x.op == "fmt0":
            le(T.sub(x.args[1], a))                 # at least the width
            le(T.sub(const(1), a))
        elif x.op == "str_of_int":
            le(T.sub(const(1), a))
        elif x.op == "unhex":
            le(T.sub(T.scale(a, 2), T.length(x.args[0])))
            le(T.sub(T.length(x.args[0]), T.scale(a, 2)))
        elif x.op == "repr":
            le(T.sub(const(2), a))
        elif x.op == "encode" and x.args[0].op in ("fmt0", "str_of_int"):
            le(T.sub(T.length(x.args[0]), a))       # codecs emit at least one byte per digit
        elif x.op == "cfgpad":
            le(T.sub(const(1), a))
        elif x.op == "concat":
            pass
    elif a.op in ("from_bytes",):
        if T.is_const(a.args[2], False):
            out.append((0, {a: -1}))
    elif a.op == "int_of_str":
        x = a.args[0]
        if x.op in ("hex", "fmt0") or st.facts.get(mk("pred", "isdigit", x, ty="bool")) \
                or st.facts.get(mk("pred", "isdecimal", x, ty="bool")) \
                or st.facts.get(mk("pred", "isnumeric", x, ty="bool")) \
                or st.facts.get(mk("pred", "digits", x, ty="bool")) \
                or (x.op == "key" and x.args[0] in ("big", "zero", "arab", "supers", "frac")):
            out.append((193 if x.op == "key" and x.args[0] == "big" else 0, {a: -1}))
    elif a.op == "floordiv" and a.args[1].op == "const":
        k = T.cval(a.args[1])
        le(T.sub(T.scale(a, k), a.args[0]))
        le(T.sub(T.sub(a.args[0], T.scale(a, k)), const(k - 1)))
    elif a.op == "half":
        x = a.args[0]
        # the sign of h follows the sign of x; x itself is rewritten in terms of h
        if nonneg(st, x):
            out.append((0, {a: -1}))
    elif a.op == "bitsint":
        out.append((0, {a: -1}))
    elif a.op == "min":
        for x in a.args:
            le(T.sub(a, x))
    elif a.op == "max":
        for x in a.args:
            le(T.sub(x, a))
    elif a.op == "ord":
        out.append((0, {a: -1}))
    elif a.op == "maxlen":
        if not T.is_const(a.args[0], "h"):
            out.append((0, {a: -1}))
    elif a.op == "lentype":
        out.append((1, {a: -1}))
    elif a.op == "parity":
        out.append((0, {a: -1}))
        out.append((-1, {a: 1}))
    return out


def nonneg(st, x):
    if x.op == "sym":
        return any(lin(f) == (0, {x: -1}) or (lambda c, d: d == {x: -1} and c >= 0)(*lin(f)) for f in st.les)
    for c, d in intrinsic(st, x):
        if d == {x: -1} and c >= 0:
            return True
    return False


def _prove_small(self, l):
    l = self.norm(l)
    if l.op == "const":
        return T.cval(l) <= 0
    key = ("#small", l)
    r = self._memo.get(key)
    if r is None:
        self._memo[key] = False          # cut recursion
        r = self._prove(lin(l), 3, self._lefacts(), set())
        self._memo[key] = r
    return r


State.prove_small = _prove_small
