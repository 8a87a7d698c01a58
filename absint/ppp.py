"""Proof for the paths of pp(): a grammar of the output, run symbolically over the events of the path.

Every line is: key, blanks, the key's own description cut to desc_width (exactly when desc_width > 0), blanks, colon,
literals separated by blanks, end of line.  The literals are repr() of pieces; the pieces must make up the value: for
a loop that writes pieces, each iteration's pieces followed by the carried remainder must equal the carried remainder
followed by the part of the value the counter moves over (telescoping).
"""
import re

from . import bdd, terms as T
from .pp import DOCA, DW, JUNK, STDOUT, STREAM, literals
from .scen import DOC
from .state import c_guard, c_le0, subterms
from .terms import const, mk


class No(Exception):
    pass


class Leaf:
    __slots__ = ("mode", "key", "desc", "lits", "nl", "printed", "st", "blank", "pres")

    def __init__(self, st, mode="start"):
        self.st, self.mode = st, mode
        self.key, self.desc, self.lits, self.nl, self.printed, self.blank = None, False, (), True, (), frozenset()
        self.pres = ()

    def copy(self, st=None):
        x = Leaf(st if st is not None else self.st, self.mode)
        x.key, x.desc, x.lits, x.nl, x.printed, x.blank = self.key, self.desc, self.lits, self.nl, self.printed, self.blank
        x.pres = self.pres
        return x

    def sig(self):
        return (self.mode, self.key, self.desc, self.lits, self.nl, self.printed, self.pres)


class LoopPart:
    def __init__(self, rec, V, carry, pos):
        self.rec, self.V, self.carry, self.pos = rec, V, carry, pos


class Prover:
    def __init__(self, run):
        self.run = run
        self.parts = run.sc.docval == "parts"
        self.target = STREAM if run.task.kw["stream"] == "given" else T.sym(STDOUT, "stream")
        self.ok_recs = {}
        self.infield = False

    def prove(self, o):
        if o.st.weak:
            return list(o.st.weak[:2])
        if o.kind == "raise":
            return ["%s may raise" % o.where()]
        if o.kind == "iter":
            top = self.field_rec()
            return [] if o.rec is top and self.ok_recs.get(top) or o.rec is not top else ["iteration not covered"]
        try:
            self.path(o)
        except No as e:
            return [str(e)]
        return []

    def field_rec(self):
        for r, ok in self.ok_recs.items():
            return r
        return None

    # ------------------------------------------------------------ whole path
    def path(self, o):
        base = o.st
        leaves = [Leaf(base.copy())]
        loops = 0
        for e in o.st.event_list():
            if e[0] == "loop" and e[1].kind == "items" and e[1].dom is not None:
                leaves = [self.done(x) for x in leaves]
                self.field_loop(e[1])
                for x in leaves:
                    if "#fields" in x.printed:
                        raise No("two loops over fields")
                    x.printed += ("#fields",)
            else:
                leaves = [y for x in leaves for y in self.event(x, e)]
            leaves = self.merge(base, leaves)
        for x in leaves:
            x = self.done(x)
            pr = [k for k in x.printed]
            if self.run.sc.pair:
                # both fields are there
                if pr != [k for k in ("h", "t", "p") if k in pr] + [str(n) for n in sorted(self.run.sc.pair)]:
                    raise No("order %s" % pr)
                pr = [k for k in pr if not k.isdigit()] + ["#fields"]
            if pr[-1:] != ["#fields"] and not ("#fields" in pr):
                raise No("the fields are not printed")
            if pr != [k for k in ("h", "t", "p") if k in pr] + ["#fields"]:
                raise No("order %s" % pr)
            for k in ("h", "t", "p"):
                want = self.printable(x, k)
                if want is not (k in pr):
                    raise No("%s is printed: %s, required: %s" % (k, k in pr, want))

    def printable(self, x, k):
        """Does the path imply that element k has to be printed, or that it must not be?"""
        if dict(x.pres).get(k) is not None:
            return dict(x.pres)[k]
        has = c_guard(bdd.var(("has", k)))
        off = c_le0(self.maxh()) if k == "h" else const(False)
        h, o = x.st.decide(has), x.st.decide(off)
        if h is False or o is True:
            return False
        if h and o is False:
            return True
        z = x.st.copy()
        if not z.assume(has, True) or not z.assume(off, False):
            return False
        if any(self.impossible(z, c) for c, v in list(x.st.facts.items()) if v and c.op == "or"):
            return False
        return None

    def impossible(self, st, c, depth=0):
        """Does the state contradict every case of the disjunction?"""
        for d in c.args:
            z = st.copy()
            if any(x.op != "or" and (z.decide(x) is False or not z.assume(x, True)) for x in d):
                continue
            if depth < 3 and any(x.op == "or" and self.impossible(z, x, depth + 1) for x in d):
                continue
            return False
        return True

    def maxh(self):
        return mk("maxlen", const("h"), ty="int")

    def merge(self, base, leaves):
        out = {}
        for x in leaves:
            if x.mode == "val" and x.nl:
                x = self.done(x)
            if x.mode == "start":
                x.pres = tuple((k, self.printable(x, k)) for k in ("h", "t", "p"))
                s = tuple(x.st.decide(c) for c in self.presence())
                k = x.sig() + s
                if k not in out:
                    st = base.copy()
                    for c, v in zip(self.presence(), s):
                        if v is not None and not st.assume(c, v):
                            raise No("state")
                    out[k] = x.copy(st)
            else:
                out[id(x)] = x
        if len(out) > 400:
            raise No("too many alternatives")
        return list(out.values())

    def presence(self):
        return [c_guard(bdd.var(("has", k))) for k in ("h", "t", "p")] + [c_le0(self.maxh())]

    def field_loop(self, rec):
        if rec in self.ok_recs:
            return
        ns = [n for g, n in rec.dom]
        want = sorted(self.run.sc.doc_nums)
        if rec.unordered or ns != want:
            raise No("the loop over fields is not in ascending order of all fields")
        for g, n in rec.dom:
            if g != bdd.var(("has", str(n))):
                raise No("condition for printing field %s" % n)
        key = mk("str_of_int", rec.N, ty="str")
        if not rec.backs:
            raise No("no iteration")
        if any(s.ty != "int" and s not in () for s in rec.phis):
            pass
        for b, posts in rec.backs:
            if b.weak:
                raise No("imprecise iteration")
            leaves = [Leaf(b.copy())]
            self.infield = True
            try:
                for e in b.event_list(rec.marker):
                    leaves = [y for x in leaves for y in self.event(x, e)]
                    if len(leaves) > 600:
                        raise No("too many alternatives")
            finally:
                self.infield = False
            for x in leaves:
                x = self.done(x)
                if x.printed != (key,):
                    raise No("an iteration prints %s" % [T.show(k) if isinstance(k, T.Term) else k for k in x.printed])
        self.ok_recs[rec] = True

    # ------------------------------------------------------------ events
    def event(self, x, e):
        t = e[0]
        if t == "write":
            if e[1] is not self.target:
                raise No("write to %s" % T.show(e[1]))
            y = x.copy()
            self.text(y, e[2])
            return [y]
        if t == "alt":
            out = []
            for conds, sub in e[1]:
                st = x.st.copy()
                ok = True
                for c in conds:
                    if not st.assume(c, True):
                        ok = False
                        break
                if not ok:
                    continue
                ls = [x.copy(st)]
                for s in sub:
                    ls = [z for y in ls for z in self.event(y, s)]
                out += ls
            return out
        if t == "loop":
            rec = e[1]
            if rec.kind == "items" and rec.dom is not None and not self.infield and (x.mode == "start" or x.nl):
                x = self.done(x)
                self.field_loop(rec)
                if "#fields" in x.printed:
                    raise No("two loops over fields")
                x.printed += ("#fields",)
                return [x]
            return [self.loop(x, rec)]
        if t in ("range", "alloc", "ambient-read", "loophead"):
            return [x]
        if t in ("arg-write", "static-write"):
            return [x]
        raise No("event %s" % t)

    # ------------------------------------------------------------ text
    def text(self, x, t):
        t = x.st.norm(t)
        if t.op == "concat":
            for a in t.args:
                self.text(x, a)
            return
        if t.op == "const":
            return self.chars(x, T.cval(t))
        if t.op == "pad":
            v, w, side, fill = t.args
            fill = T.cval(fill) if isinstance(fill, T.Term) else fill
            side = T.cval(side) if isinstance(side, T.Term) else side
            if fill != " ":
                raise No("padding with %r" % fill)
            if side != "<":
                self.blanks(x)
            self.text(x, v)
            if side != ">":
                self.blanks(x, after=True)
            return
        if t.op == "repeat":
            if T.is_const(t.args[0]) and set(T.cval(t.args[0])) <= {" "}:
                return self.blanks(x)
            raise No("repeated text")
        if t.op == "sym":
            if t in x.blank:
                if x.mode == "val":
                    x.nl = False
                    return
            raise No("text %s" % T.show(t))
        if t.op == "repr":
            if x.mode != "val":
                raise No("literal before the colon")
            x.lits += (t.args[0],)
            x.nl = False
            return
        if t.op == "str_of_int":
            return self.start(x, t)
        if t.op == "desc" or t.op == "slice" and t.args[0].op == "desc":
            if x.mode != "key" or x.desc:
                raise No("description at another place")
            d = t if t.op == "desc" else t.args[0]
            if d.args[0] is not (x.key if isinstance(x.key, T.Term) else const(x.key)):
                raise No("description of %s" % T.show(d.args[0]))
            if t.op == "desc":
                if not x.st.prove_le0(T.sub(T.length(d), DW)):
                    raise No("description is not cut")
            elif not (T.is_const(t.args[1], 0) and t.args[2] is DW):
                raise No("description is cut at %s" % T.show(t))
            x.desc = True
            return
        raise No("text %s" % T.show(t)[:80])

    def blanks(self, x, after=False):
        if x.mode == "start" and not after:
            raise No("line starts with blanks")
        if x.mode == "val":
            x.nl = False

    def start(self, x, key):
        if x.mode == "val":
            self.fin(x)
        if x.mode != "start":
            raise No("key %s inside a line" % (key,))
        x.mode, x.key, x.desc, x.lits, x.nl = "key", key, False, (), False

    def chars(self, x, s):
        k = 0
        while k < len(s):
            if x.mode == "start" or x.mode == "val" and x.nl and re.match(r"[a-z0-9]", s[k]):
                m = re.compile(r"[a-z0-9]+").match(s, k)
                if not m:
                    raise No("line starts with %r" % s[k:k + 9])
                self.start(x, m.group())
                k = m.end()
                continue
            c = s[k]
            if x.mode == "key":
                if c == " ":
                    k += 1
                    continue
                if c == ":":
                    d = x.st.decide(c_le0(DW))
                    if d is None or d is x.desc:
                        raise No("description printed: %s, desc_width <= 0: %s" % (x.desc, d))
                    x.mode = "val"
                    x.nl = False
                    k += 1
                    continue
                raise No("text %r after the key" % s[k:k + 9])
            if c in " \n":
                x.nl = c == "\n"
                k += 1
                continue
            vals, end = literals(s, k)
            if not vals:
                raise No("text %r in a value" % s[k:k + 9])
            x.lits += tuple(const(v) for v in vals)
            x.nl = False
            k = end

    # ------------------------------------------------------------ end of an element
    def done(self, x):
        if x.mode == "start":
            return x
        y = x.copy()
        self.fin(y)
        return y

    def fin(self, x):
        if x.mode != "val" or not x.nl:
            raise No("element %s does not end its line" % (x.key,))
        key = x.key if isinstance(x.key, T.Term) else const(x.key)
        lits = list(x.lits)
        if self.parts:
            L, V = mk("part", const("len"), key, ty="bytes"), mk("part", const("data"), key, ty="bytes")
            empty = x.st.decide(c_le0(T.length(L)))
            if empty is None:
                raise No("length bytes of %s" % T.show(key))
            if not empty:
                if not lits or lits[0] is not L:
                    raise No("length bytes of %s are not printed first" % T.show(key))
                lits = lits[1:]
        else:
            V = mk("val", key, ty=self.run.sc.docval)
        if not lits:
            raise No("no literal")
        self.whole(x.st, lits, V)
        x.printed += (x.key,)
        x.mode, x.key, x.lits, x.desc, x.nl = "start", None, (), False, True

    def whole(self, st, lits, V):
        """Do the pieces make up V?"""
        if any(isinstance(l, LoopPart) for l in lits):
            l, rest = lits[0], lits[1:]
            if not isinstance(l, LoopPart) or any(isinstance(r, LoopPart) for r in rest):
                raise No("pieces around a loop")
            if l.V is not st.norm(V) and l.V is not V:
                raise No("the loop folds %s" % T.show(l.V))
            if not st.prove_le0(T.sub(T.length(V), l.pos)):
                raise No("the loop may end before the end of the value")
            c = l.carry if l.carry is not None else const(b"" if V.ty != "str" else "")
            got = T.concat(rest, V.ty) if rest else const(b"" if V.ty != "str" else "")
            if not self.equal(st, got, c):
                raise No("the rest %s of the value is printed as %s" % (T.show(c), T.show(got)))
            return
        got = T.concat(lits, V.ty) if len(lits) > 1 else lits[0]
        if not self.equal(st, got, V):
            raise No("%s is printed for %s" % (T.show(got)[:60], T.show(V)))

    def equal(self, st, a, b):
        a, b = self.nrm(st, a), self.nrm(st, b)
        if a is b:
            return True
        return st.prove_le0(T.length(a)) and st.prove_le0(T.length(b))

    def nrm(self, st, t):
        t = st.norm(t)
        if t.op == "concat":
            parts = [p for p in t.args if not st.prove_le0(T.length(p))]
            if len(parts) < len(t.args):
                t = st.norm(T.concat(parts, t.ty)) if len(parts) > 1 else parts[0] if parts else const(b"" if t.ty != "str" else "")
        elif t.op != "const" and t.ty in ("str", "bytes") and st.prove_le0(T.length(t)):
            return const("" if t.ty == "str" else b"")
        return t

    # ------------------------------------------------------------ loops inside a value
    def loop(self, x, rec):
        if x.mode != "val":
            raise No("loop at %s outside of a value" % rec.where)
        if rec.lists or rec.kind == "items" or rec.kind == "unknown":
            raise No("loop at %s" % rec.where)
        blank = set()
        for s, v in rec.phis.items():
            if s.ty == "str" and self.is_blank(rec.pre.norm(v), x.blank):
                blank.add(s)
        while True:
            bad = {s for s in blank for b, p in rec.backs if s in p and not self.is_blank(b.norm(p[s]), blank | x.blank)}
            if not bad:
                break
            blank -= bad
        # the value that is folded, the counter and the remainder carried along
        V = None
        for b, p in rec.backs:
            for t in list(p.values()) + list(self.writes(b.event_list(rec.marker))):
                for y in subterms(b.norm(t)) if isinstance(t, T.Term) else ():
                    if y.op == "slice" and y.args[0].op in ("val", "part"):
                        if V is not None and V is not y.args[0]:
                            raise No("loop folds several values")
                        V = y.args[0]
        if V is None:
            raise No("loop at %s folds nothing" % rec.where)
        empty = const("" if V.ty == "str" else b"")
        carry = [s for s, v in rec.phis.items() if s not in blank and s.ty == V.ty and rec.pre.norm(v) is empty]
        pos = [s for s, v in rec.phis.items() if s.ty == "int" and T.is_const(rec.pre.norm(v), 0)]
        if rec.counter is None and rec.N is not None and rec.range is not None and T.is_const(rec.pre.norm(rec.range[0]), 0):
            pos = [rec.N] + pos
        last = None
        for c in carry + [None]:
            for i in pos:
                try:
                    self.telescope(x, rec, V, c, i, blank)
                    y = x.copy()
                    y.blank = x.blank | frozenset(blank)
                    y.lits += (LoopPart(rec, V, c, i),)
                    y.nl = False
                    return y
                except No as e:
                    last = e
        raise No(str(last) if last else "loop at %s" % rec.where)

    def telescope(self, x, rec, V, carry, i, blank):
        for b, p in rec.backs:
            if b.weak:
                raise No("imprecise iteration")
            leaf = Leaf(b.copy(), "val")
            leaf.key, leaf.nl, leaf.blank = x.key, False, x.blank | frozenset(blank)
            leaves = [leaf]
            for e in b.event_list(rec.marker):
                leaves = [z for y in leaves for z in self.event(y, e)]
            for y in leaves:
                if y.printed or y.mode != "val" or any(isinstance(l, LoopPart) for l in y.lits):
                    raise No("loop at %s prints more than pieces" % rec.where)
                st = y.st
                i2 = st.norm(p.get(i, i))
                if not st.prove_le0(T.add(T.sub(i, i2), const(1))):
                    raise No("loop at %s: no progress" % rec.where)
                left = list(y.lits)
                right = []
                if carry is not None:
                    left.append(p.get(carry, carry))
                    right.append(carry)
                right.append(T.mk_slice(V, i, i2))
                l = T.concat(left, V.ty) if len(left) > 1 else left[0] if left else const("" if V.ty == "str" else b"")
                r = T.concat(right, V.ty) if len(right) > 1 else right[0]
                if not self.equal(st, l, r):
                    raise No("loop at %s prints %s for %s" % (rec.where, T.show(st.norm(l))[:90], T.show(st.norm(r))[:90]))

    def writes(self, evs):
        for e in evs:
            if e[0] == "write":
                yield e[2]
            elif e[0] == "alt":
                for c, sub in e[1]:
                    yield from self.writes(sub)

    def is_blank(self, t, blanks):
        if t.op == "const":
            return isinstance(T.cval(t), str) and set(T.cval(t)) <= {" ", "\n"}
        if t.op == "concat":
            return all(self.is_blank(a, blanks) for a in t.args)
        if t.op == "repeat":
            return self.is_blank(t.args[0], blanks)
        if t.op == "ite":
            return self.is_blank(t.args[1], blanks) and self.is_blank(t.args[2], blanks)
        return t in blanks
