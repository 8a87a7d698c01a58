"""Outcomes of an entry point (returns, raises, single iterations of its loops) and their
interpretation in a world."""
from . import bdd
from . import terms as T
from .evalt import Model, NoModel, Undefined, facts_of
from .state import subterms
from .interp import ClassInfo, LoopRec


class CDict(dict):
    loops = ()
    addr = None
    keys_ = None


class Marker:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % (self.what,)

    def __eq__(self, o):
        return isinstance(o, Marker) and o.what == self.what

    def __hash__(self):
        return hash(self.what)


class Inst:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


def conc(st, m, t, depth=0):
    """Value of an abstract value in a model"""
    if depth > 6:
        raise NoModel("depth")
    if t.op == "ref":
        o = st.heap.get(t.args[0])
        if o is None:
            raise NoModel("object")
        if o.kind == "dict":
            if o.base is not None:
                return Marker(o.base)
            d = CDict()
            d.addr = t.args[0]
            for k, (g, v, site) in o.items.items():
                if not m.guard(g):
                    continue
                kk = conc(st, m, k, depth + 1) if k.op == "ref" else m.ev(k)
                d[kk] = conc(st, m, v, depth + 1)
            d.loops = tuple(o.loops)
            return d
        if o.kind == "bytearray":
            return bytearray(m.ev(o.content))
        if o.kind == "list":
            if o.pre is not None:
                raise NoModel("list with unknown prefix")
            if o.unordered and len(o.items) > 1:
                raise NoModel("order of a list")
            r = [conc(st, m, v, depth + 1) for g, v in o.items if m.guard(g)]
            return r if o.ty != "tuple" else tuple(r)
        if o.kind == "set":
            if o.unknown or o.syms:
                raise NoModel("set")
            return {m.ev(k) for k, g in o.items.items() if m.guard(g)}
        if o.kind == "inst":
            return Inst(cls_names(o), {k: v for k, v in o.attrs.items()})
        raise NoModel("object of kind " + o.kind)
    if t.op == "tuple":
        return tuple(conc(st, m, x, depth + 1) for x in t.args)
    if t.op == "ite":
        return conc(st, m, t.args[1] if m.guard(t.args[0]) else t.args[2], depth + 1)
    v = m.ev(t)
    if t.ty == "memoryview":
        return memoryview(bytes(v))
    if t.ty == "bytearray" and isinstance(v, bytes):
        return bytearray(v)
    if t.ty == "bytes" and isinstance(v, bytearray):
        return bytes(v)
    return v


def cls_names(o):
    if isinstance(o.cls, ClassInfo):
        return tuple("%s.%s" % (c.module if isinstance(c.module, str) else getattr(c.module, "name", "?"), c.name)
                     if isinstance(c, ClassInfo) else c for c in o.cls.mro())
    return (str(o.cls),)


class Outcome:
    site = "return"
    """kind: 'ret' | 'raise' | 'iter'"""
    def __init__(self, kind, st, v, rec=None, posts=None):
        self.kind, self.st, self.v, self.rec, self.posts = kind, st, v, rec, posts
        self.open, self.closed = None, []
        for ev in st.event_list():
            if ev[0] == "loophead":
                self.open = ev[1]
            elif ev[0] == "loop":
                if self.open is ev[1]:
                    self.open = None
                self.closed.append(ev[1])
        if kind == "iter":
            self.open = rec
        self._facts = None

    @property
    def facts(self):
        if self._facts is None:
            fs = facts_of(self.st)
            fs.sort(key=lambda f: len(subterms(f[0])))
            self._facts = fs
        return self._facts

    def classes(self):
        """names of the classes of the raised value (mro), or None when unknown"""
        v = self.v
        if v.op == "exc":
            return tuple(c if isinstance(c, str) else str(c) for c in v.args[0])
        if v.op == "ref":
            o = self.st.heap.get(v.args[0])
            if o is not None and o.kind == "inst":
                return cls_names(o)
        return None

    def attrs(self):
        v = self.v
        if v is not None and v.op == "ref":
            o = self.st.heap.get(v.args[0])
            if o is not None and o.kind == "inst":
                return o.attrs
        return {}

    def where(self):
        a = self.attrs().get("#raised")
        if a is not None:
            return a if isinstance(a, str) else str(T.cval(a)) if a.op == "const" else T.show(a)
        if self.v is not None and self.v.op == "exc":
            return self.v.args[3]
        if self.rec is not None:
            return self.rec.where
        return self.site

    def terms(self):
        """All terms of conditions and values of this outcome"""
        out = [f for f, _ in self.facts]
        seen = set()

        def go(t, d):
            if t in seen or d > 5:
                return
            seen.add(t)
            out.append(t)
            for x in subterms(t):
                if x.op == "ref":
                    o = self.st.heap.get(x.args[0])
                    if o is None or x in seen and x is not t:
                        continue
                    seen.add(x)
                    if o.kind == "dict" and o.base is None:
                        for k, (g, v, s) in o.items.items():
                            go(k, d + 1)
                            go(v, d + 1)
                    elif o.kind == "inst":
                        for v in o.attrs.values():
                            if isinstance(v, T.Term):
                                go(v, d + 1)
                    elif o.kind == "bytearray":
                        go(o.content, d + 1)
        if self.v is not None:
            go(self.v, 0)
        for p in (self.posts or {}).values():
            if isinstance(p, T.Term):
                go(p, 0)
        for vn in bdd.support(self.st.gpc):
            if isinstance(vn, tuple):
                out.extend(x for x in vn if isinstance(x, T.Term))
                if vn[0] == "eqn":
                    out.append(T.const(vn[2]))
        return out


def collect(i, rets, raises):
    """All outcomes, iterations of recorded loops included"""
    out = []
    recs = []
    for st, v in rets:
        out.append(Outcome("ret", st, v))
    for st, v in raises:
        out.append(Outcome("raise", st, v))
    for o in out:
        for r in o.closed + ([o.open] if o.open else []):
            if r not in recs:
                recs.append(r)
    k = 0
    while k < len(recs):
        for b, p in recs[k].backs:
            x = Outcome("iter", b, None, recs[k], p)
            out.append(x)
            for r in x.closed:
                if r not in recs:
                    recs.append(r)
        k += 1
    return out, recs


def match(o, m):
    """Do the conditions of the outcome hold in the model?"""
    if not m.guard(o.st.gpc):
        return False
    for c, v in o.facts:
        try:
            if bool(m.ev(c)) != v:
                return False
        except Undefined:
            return False
    return True


def others(run, o, b, j):
    """Outcomes besides o whose conditions hold in the same place of the same world"""
    out = []
    for p in run.outs:
        if p is o or p.open is not o.open or p.st.weak:
            continue
        try:
            for k, m in b.model(p):
                if k == j and match(p, m):
                    out.append((p, m))
        except (NoModel, Undefined):
            continue
        except Exception as e:
            if not hasattr(e, "props"):
                raise
    return out


def field_loops(outs, addrs):
    """Loops that store entries of the result dictionaries"""
    recs = set()
    for o in outs:
        for a in addrs:
            ob = o.st.heap.get(a) if a is not None else None
            if ob is not None and ob.kind == "dict":
                recs.update(ob.loops)
    return recs


def elsewhere(outs):
    """Some element with a number is stored outside the loops"""
    for o in outs:
        if o.open is None:
            for ob in o.st.heap.values():
                if ob.kind == "dict" and ob.loops and any(
                        k.op != "const" or T.cval(k) not in ("h", "t", "p", "1", "65") for k in ob.items):
                    return True
    return False


def decisive(rec, els, order, loops, outs):
    """A loop over elements els cannot be right where those of order are required"""
    if rec not in loops or rec.unordered:
        return False
    if not hasattr(rec, "may_skip"):
        # an iteration that stores nothing
        rec.may_skip = not rec.backs or any(all(o is rec.head.heap.get(a) for a, o in b.heap.items() if o.kind == "dict")
                                            for b, _ in rec.backs)
        rec.stored_elsewhere = elsewhere(outs)
        # several loops that share the work
        rec.shared = len({id(r.node) for r in loops}) > 1 or any(
            sum(1 for r in set(o.closed) | {o.open} if r in loops) > 1 for o in outs)
    if rec.shared:
        return False
    if rec.may_skip:
        # too many elements may be harmless
        it = iter(els)
        return not all(x in it for x in order) and not (rec.stored_elsewhere and set(order) - set(els))
    return not rec.stored_elsewhere


def refute(run, outs, worlds, stats=None):
    """Interpret the path summaries in worlds: -> [(outcome, mismatch, binding, j, model)]"""
    from . import effects
    found, hit = [], {}
    for b in worlds:
        for o in outs:
            if o.st.weak:
                continue
            try:
                ms = b.model(o)
            except NoModel as e:
                run.nomodel.setdefault(o, str(e))
                continue
            except Undefined:
                continue
            except Exception as e:
                if not hasattr(e, "props"):
                    raise
                found.append((o, e, b, None, None))
                continue
            for j, m in ms:
                try:
                    if not match(o, m):
                        continue
                    hit[o] = hit.get(o, 0) + 1
                    xs = list(run.check(o, b, j, m))
                except NoModel as e:
                    run.nomodel.setdefault(o, str(e))
                    xs = []
                except Undefined:
                    xs = []
                for i in getattr(o, "issues", ()):
                    if effects.confirm(i, m, b.w):
                        xs.append(i)
                if xs:
                    # several paths in one place: the analysis lost the condition that tells them apart
                    amb = others(run, o, b, j)
                    if amb:
                        run.ambiguous = getattr(run, "ambiguous", 0) + 1
                        continue
                    for x in xs:
                        found.append((o, x, b, j, m))
    run.hits = hit
    return found
