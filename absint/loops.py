"""Loops: unrolling over known finite tables, widening fixpoint with inductive linear invariants for
everything else."""
import ast
import zlib

from . import bdd
from . import terms as T
from .terms import mk, const, tup
from .state import State, c_guard, c_le, c_lt, c_le0, c_eq0, subterms, rebuild, _mentions
from .heap import DictO, ListO, SetO, BArrO, InstO, EnvO, GenO, CellO
from .interp import LoopRec

UNROLL_STEPS = 60_000
WHILE_UNROLL = 300
SCALAR = ("int", "str", "bytes", "bytearray", "bool", "memoryview")


def subst_term(t, m, memo=None):
    """Replace leaf terms; rebuilds through the normalising constructors."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("const", "sym", "ref", "top", "guard", "bits", "func", "class", "builtin", "module"):
        r = t
    elif t.op == "lin":
        r = const(t.args[0])
        for a, k in t.args[1]:
            r = T.add(r, T.scale(subst_term(a, m, memo), k))
    else:
        def go(a):
            if isinstance(a, T.Term):
                return subst_term(a, m, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        args = tuple(go(a) for a in t.args)
        same = all(x is y for x, y in zip(args, t.args))
        r = t if same else rebuild(t.op, args, t.ty)
    memo[t] = r
    return r


class Loops:
    def __init__(self, interp, lib):
        self.i = interp
        self.lib = lib

    # ------------------------------------------------------------ speculative runs
    def mark(self):
        return ([len(s) for s in self.i.sinks], len(self.i.sinks), len(self.i.undecided))

    def rollback(self, m):
        lens, n, u = m
        assert len(self.i.sinks) == n
        for s, k in zip(self.i.sinks, lens):
            del s[k:]
        del self.i.undecided[u:]

    # ------------------------------------------------------------ statements
    def for_(self, s, st, fr):
        out = []
        for x, it in self.i.ev(s.iter, st, fr):
            out += self.for1(s, it, x, fr)
        return out

    def for1(self, s, it, st, fr):
        i = self.i
        saved = fr.brks
        brks = []
        fr.brks = brks
        i.sink_push(brks)

        def body(y, v):
            sc = fr.conts
            conts = []
            fr.conts = conts
            i.sink_push(conts)
            try:
                sts = i.block(s.body, i.assign(s.target, v, y, fr), fr)
            finally:
                fr.conts = sc
                i.sink_pop(1)
            sts = sts + conts
            return i.merge_states(sts, fr) if len(sts) > 1 else sts
        try:
            sts = self.each(s, it, st, fr, body)
        finally:
            fr.brks = saved
            i.sink_pop(1)
        if s.orelse:
            sts = i.block(s.orelse, sts, fr)
        sts = sts + brks
        return i.merge_states(sts, fr) if len(sts) > 1 else sts

    def while_(self, s, st, fr):
        i = self.i
        saved = fr.brks
        brks = []
        fr.brks = brks
        i.sink_push(brks)

        def body(y):
            sc = fr.conts
            conts = []
            fr.conts = conts
            i.sink_push(conts)
            try:
                sts = i.block(s.body, [y], fr)
            finally:
                fr.conts = sc
                i.sink_pop(1)
            sts = sts + conts
            return i.merge_states(sts, fr) if len(sts) > 1 else sts
        try:
            m = self.mark()
            start = st.copy()
            sts = self.unroll_while(s, st, fr, body)
            if sts is None:
                self.rollback(m)

                def enter(h):
                    ent, ex = [], []
                    for y, b in i.ev_cond(s.test, h, fr):
                        if b:
                            ent.append((y, None))
                        else:
                            ex.append(y)
                    return ent, ex
                rec = LoopRec(s, "while", fr)
                sts = self.fix(rec, s, start, fr, enter, lambda y, v: body(y))
        finally:
            fr.brks = saved
            i.sink_pop(1)
        if s.orelse:
            sts = i.block(s.orelse, sts, fr)
        sts = sts + brks
        return i.merge_states(sts, fr) if len(sts) > 1 else sts

    def unroll_while(self, s, st, fr, body):
        """Follow the loop while its condition is decided; None when it is not."""
        i = self.i
        cur = [st]
        done = []
        steps = i.steps
        for n in range(WHILE_UNROLL):
            nxt = []
            for x in cur:
                r = i.ev_cond(s.test, x, fr)
                outs = {b for _, b in r}
                if len(outs) > 1:
                    return None
                for y, b in r:
                    if b:
                        nxt += body(y)
                    else:
                        done.append(y)
            if not nxt:
                return done
            cur = i.merge_states(nxt, fr) if len(nxt) > 1 else nxt
            if len(cur) > 8 or i.steps - steps > UNROLL_STEPS:
                return None
        return None

    # ------------------------------------------------------------ iteration over a value
    def each(self, node, it, st, fr, body):
        i, lib = self.i, self.lib
        src = it.args[1] if it.op == "lazy" and it.args[0] == "enumerate" else it
        if src.op == "unhex" and src.ty in ("bytes", "bytearray"):
            # a few bytes (of which each may be the last), or more of them
            n = T.length(src)
            if st.norm(n).op != "const":
                few = c_le0(T.sub(n, const(16)))
                if st.decide(few) is None:
                    return [z for x, b in i.fork(st, few) for z in self.each(node, it, x, fr, body)]
        if it.op == "ref":
            o = i.obj(st, it)
            if o.kind == "gen":
                return self.generator(node, it, o, st, fr, body)
            if o.kind == "list" and o.ty == "iter":
                st.heap[it.args[0]] = ListO((), None, False, "iter")
                if o.pre is None:
                    return self.items(node, list(o.items), o.unordered, st, fr, body)
                rec = LoopRec(node, "unknown", fr)
                elem = rec.elem = i.undecide("iteration over a list of unknown length", fr, node, st)
                return self.fix(rec, node, st, fr, lambda h: ([(h.copy(), elem)], [h]), body)
            if o.kind == "inst" and not isinstance(o.cls, str) and not o.cls.namedtuple:
                c, m = o.cls.lookup("__iter__")
                if m is not None:
                    out = []
                    for x, v in i.call(mk("bound", it, "__iter__", m, ty="func"), [], {}, st, fr, node):
                        if v is it:
                            i.undecide("iterator class", fr, node, x)
                            out.append(x)
                        else:
                            out += self.each(node, v, x, fr, body)
                    return out
            if o.kind == "bytearray":
                it = o.content
        if it.op == "lazy":
            return self.lazy(node, it, st, fr, body)
        if it.ty in ("int", "none", "bool", "float") or it.op in ("func", "class"):
            i.raise_(st, fr, ["TypeError"], "not iterable", node)
            return []
        e = lib.elements(it, st, fr, node)
        if e is not None:
            return self.items(node, e[0], e[1], st, fr, body)
        if it.op == "range":
            return self.srange(node, it.args, st, fr, body)
        if it.ty in ("bytes", "bytearray", "memoryview", "str"):
            x = T.strip_copy(it)

            def wrap(y, k):
                if it.ty == "str":
                    v = lib.slice_term(it, k, T.add(k, const(1)), y)
                else:
                    v = mk("byteat", x, k, ty="int")
                return body(y, v)
            return self.srange(node, (const(0), T.length(it), const(1)), st, fr, wrap, kind="elems")
        rec = LoopRec(node, "unknown", fr)
        n = self.serial(st, fr, node)
        ty = "any"
        if it.ty == "any" and it.op != "top" and it.op != "ref":
            z = st.copy()
            i.raise_(z, fr, ["TypeError"], "not iterable", node)
        if it.op == "ref" and i.obj(st, it).kind == "list" and i.obj(st, it).pre is not None:
            elem = self.list_elem(i.obj(st, it), st, n)
        else:
            elem = None
        if elem is None:
            elem = i.undecide("iteration over %s" % T.show(it), fr, node, st)
        rec.elem = elem

        def enter(h):
            return [(h.copy(), elem)], [h]
        return self.fix(rec, node, st, fr, enter, body)

    def list_elem(self, o, st, n):
        return None

    def serial(self, st, fr, node):
        k = ("loop", fr.ctx, self.i.nodekey(node, fr))
        n = st.counts.get(k, 0)
        st.counts[k] = n + 1
        return "%s.%s.%s.%s" % (k[1], k[2][1], k[2][2], n)

    def lazy(self, node, it, st, fr, body):
        i = self.i
        what = it.args[0]
        if what == "enumerate":
            src, start = it.args[1], it.args[2]
            if src.ty in ("bytes", "bytearray", "memoryview") and src.op != "ref":
                e = self.lib.elements(src, st, fr, node)
                if e is not None:
                    e = e[0]
                    return self.items(node, [(g, tup([T.add(start, const(k)), v])) for k, (g, v) in enumerate(e)], False, st, fr, body)
            env = i.new_addr(st, fr, node, "counter")
            st.heap[env] = EnvO({"i": start}, None, None)
            fr.live.append(env)

            def wrap(y, v):
                n = y.heap[env].vars["i"]
                y.heap[env] = EnvO({"i": T.add(n, const(1))}, None, None)
                return body(y, tup([n, v]))
            try:
                return self.each(node, src, st, fr, wrap)
            finally:
                fr.live.remove(env)
        if what == "map":
            f, src = it.args[1], it.args[2]

            def wrap(y, v):
                out = []
                for z, r in i.call(f, [v], {}, y, fr, node):
                    out += body(z, r)
                return out
            return self.each(node, src, st, fr, wrap)
        if what == "filter":
            f, src = it.args[1], it.args[2]

            def wrap(y, v):
                out = []
                rs = [(y, v)] if T.is_const(f, None) else i.call(f, [v], {}, y, fr, node)
                for z, r in rs:
                    for w, b in i.truth(r, z, fr, node):
                        out += body(w, v) if b else [w]
                return out
            return self.each(node, src, st, fr, wrap)
        if what == "chain":
            sts = [st]
            for src in it.args[1:]:
                sts = [z for y in sts for z in self.each(node, src, y, fr, body)]
            return sts
        i.undecide("lazy %s" % what, fr, node, st)
        return [st]

    def generator(self, node, ref, o, st, fr, body):
        i = self.i
        vars = i.bind(o.func, list(o.args), o.kwargs, st, fr, o.node)
        if vars is None:
            return []
        st.heap[ref.args[0]] = ListO((), None, False, "iter")

        def on_yield(x, v, gfr):
            return body(x, v)
        return [x for x, _ in i.run_func(o.func, vars, st, fr, o.node, on_yield=on_yield)]

    # ------------------------------------------------------------ finite tables
    def items(self, node, items, unordered, st, fr, body):
        i = self.i
        items = [(g, v) for g, v in items if bdd.and_(g, st.gpc) != bdd.FALSE]
        if not items:
            return [st]
        n = len(items)
        m = self.mark()
        start = st.copy() if n > 3 else None
        steps = i.steps
        before = st.heap if unordered and n > 1 else None
        cur = [st]
        for k, (g, v) in enumerate(items):
            nxt = []
            for x in cur:
                for y, b in i.fork(x, c_guard(g)):
                    if not b:
                        nxt.append(y)
                        continue
                    nxt += body(y, v)
            cur = i.merge_states(nxt, fr) if len(nxt) > 1 else nxt
            if not cur:
                return cur
            if start is not None and k < n - 1:
                used = i.steps - steps
                if len(cur) > 8 or (n > 24 and sum(len(q) - z for q, z in zip(i.sinks, m[0])) > 24) or (used > 250 and used * n // (k + 1) > UNROLL_STEPS):
                    self.rollback(m)
                    return self.generic_items(node, items, unordered, start, fr, body)
        if before is not None:
            for x in cur:
                for a, o in list(x.heap.items()):
                    p = before.get(a)
                    if o is not p and p is not None and o.kind == "list" and p.kind == "list" \
                            and len(o.items) > len(p.items) + 1 and not o.unordered:
                        o = o.copy()
                        o.unordered = True
                        x.heap[a] = o
                    elif o is not p and p is not None and o.kind == "bytearray" and \
                            o.content.op in ("concat", "ite"):
                        x.ghost[("unordered", a)] = fr.where(node)
        return cur

    # ------------------------------------------------------------ iterations that are skipped
    def skip_test(self, s, fr):
        """Leading statements of a for loop that skip an iteration: (assignments, test, value of the
        test that skips), or None"""
        pre, names = [], {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if not all(isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.Store)) for n in ast.walk(s.target)):
            return None
        for k, x in enumerate(s.body):
            if isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and k < 3:
                names.add(x.targets[0].id)
                pre.append(x)
                continue
            if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Continue):
                break
            if isinstance(x, ast.If) and not x.orelse and k == len(s.body) - 1:
                break
            return None
        else:
            return None
        skip = len(x.body) == 1 and isinstance(x.body[0], ast.Continue)
        # what a skipped iteration assigns must not be used elsewhere
        fn = fr.fi.node if fr.fi is not None else None
        if fn is None or s.orelse:
            return None
        inside = {id(n) for n in ast.walk(s)}
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and names & set(n.names):
                return None
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "dir", "eval"):
                return None
        return pre, x.test, skip

    def filtered(self, s, sk, items, st, fr):
        """The items whose iterations are not skipped -> [(guard, value)], or None"""
        i = self.i
        pre, test, skip = sk
        out = []
        m = self.mark()
        try:
            for g, v in items:
                y = st.copy()
                y.gpc = bdd.and_(y.gpc, g)
                if y.gpc == bdd.FALSE:
                    continue
                sts = i.block(pre, i.assign(s.target, v, y, fr), fr)
                g1 = bdd.FALSE
                for z in sts:
                    for w, b in i.ev_cond(test, z, fr):
                        if w.facts != st.facts or w.weak != st.weak or w.events is not st.events or w.subst != st.subst or w.les != st.les:
                            return None
                        if any(w.heap.get(a) is not o and a != fr.env for a, o in st.heap.items()):
                            return None
                        if b != skip:
                            g1 = bdd.or_(g1, w.gpc)
                if any(len(q) != n for q, n in zip(i.sinks, m[0])) or len(i.undecided) != m[2]:
                    return None
                if g1 != bdd.FALSE:
                    out.append((g1, v))
        finally:
            self.rollback(m)
        return out

    def generic_items(self, node, items, unordered, st, fr, body):
        # a few elements that are not numbered come before or after the others
        ns = [self.index_of(v) for _, v in items]
        a = next((k for k, n in enumerate(ns) if n is not None), len(ns))
        z = len(ns) - next((k for k, n in enumerate(reversed(ns)) if n is not None), len(ns))
        if not unordered and 0 < a + len(ns) - z <= 6 and z - a >= 4 and None not in ns[a:z]:
            cur = [st]
            for part in (items[:a], items[a:z], items[z:]):
                nxt = []
                for x in cur:
                    nxt += self.items(node, part, unordered, x, fr, body)
                cur = self.i.merge_states(nxt, fr) if len(nxt) > 1 else nxt
            return cur
        sk = self.skip_test(node, fr) if isinstance(node, ast.For) else None
        if sk is None:
            return self.generic_items1(node, items, unordered, st, fr, body)[0]
        keep = self.filtered(node, sk, items, st, fr)
        if keep and len(keep) == len(items) and all(bdd.equiv_under(st.gpc, a[0], b[0]) for a, b in zip(keep, items)):
            keep = None
        if keep:
            m = self.mark()
            start = st.copy()
            sts, rec = self.generic_items1(node, keep, unordered, st, fr, body)
            # the test gives the same answers in every iteration
            again = self.filtered(node, sk, items, rec.head, fr)
            if again is not None and len(again) == len(keep) and all(
                    a[1] is b[1] and bdd.equiv_under(rec.head.gpc, a[0], b[0]) for a, b in zip(again, keep)):
                return sts
            self.rollback(m)
            st = start
        return self.generic_items1(node, items, unordered, st, fr, body)[0]

    def generic_items1(self, node, items, unordered, st, fr, body):
        i = self.i
        rec = LoopRec(node, "items", fr)
        rec.items = items
        rec.unordered = unordered
        name = self.serial(st, fr, node)
        N, elem, dom = self.generic_elem(items, name)
        if elem is None:
            elem = i.undecide("generic element of a table", fr, node, st)
            rec.kind = "unknown"
        rec.elem, rec.N, rec.dom = elem, N, dom
        if N is not None:
            lo, hi = min(n for _, n in dom), max(n for _, n in dom)

        def enter(h):
            b = h.copy()
            if N is not None:
                b.ghost[("domain", N)] = dom
                b.les = b.les + (T.sub(const(lo), N), T.sub(N, const(hi)))
                b._memo = {}
                if any(g != bdd.TRUE for g, _ in dom):
                    some = bdd.any_([g for g, _ in dom])
                    b.gpc = bdd.and_(b.gpc, some)
                    if b.gpc == bdd.FALSE:
                        return [], [h]
            return [(b, elem)], [h]
        if N is not None:
            st.ghost[("domain", N)] = dom
        exits = self.fix(rec, node, st, fr, enter, body)
        if not rec.backs and rec.stable:
            # no iteration completes: the loop is left at its head only when there is nothing to do
            none = bdd.not_(bdd.any_([g for g, _ in items]))
            live = []
            for x in exits:
                x.gpc = bdd.and_(x.gpc, none)
                x._memo = {}
                if x.gpc != bdd.FALSE:
                    live.append(x)
            exits = live
        return exits, rec

    def generic_elem(self, items, name):
        """Element that stands for any item of the table: (N, element term, domain of N)"""
        N = T.sym("N%s" % name, "int")
        vals = [v for _, v in items]
        ns = []
        for v in vals:
            n = self.index_of(v)
            if n is None:
                return None, None, None
            ns.append(n)
        if len(set(ns)) != len(ns):
            return None, None, None
        t = self.template(vals, ns, N)
        if t is None:
            return None, None, None
        return N, t, [(g, n) for (g, _), n in zip(items, ns)]

    def index_of(self, v):
        if v.op == "const":
            c = T.cval(v)
            if isinstance(c, int) and not isinstance(c, bool):
                return c
            if isinstance(c, str) and c.isascii() and c.isdigit() and str(int(c)) == c:
                return int(c)
            return None
        if v.op == "tuple":
            for a in v.args:
                n = self.index_of(a)
                if n is not None:
                    return n
        return None

    def template(self, vals, ns, N):
        v0 = vals[0]
        if all(v is v0 for v in vals) and len(vals) > 1:
            return v0
        if all(v.op == "const" for v in vals):
            cs = [T.cval(v) for v in vals]
            if all(isinstance(c, int) for c in cs):
                d = {c - n for c, n in zip(cs, ns)}
                if len(d) == 1:
                    return T.add(N, const(d.pop()))
                return None
            if all(isinstance(c, str) for c in cs) and all(c == str(n) for c, n in zip(cs, ns)):
                return mk("str_of_int", N, ty="str")
            return mk("lookup", N, tuple((const(n), v) for n, v in zip(ns, vals)), ty=v0.ty) \
                if len({v.ty for v in vals}) == 1 else None
        if all(v.op == "tuple" and len(v.args) == len(v0.args) for v in vals):
            parts = []
            for k in range(len(v0.args)):
                p = self.template([v.args[k] for v in vals], ns, N)
                if p is None:
                    p = T.top("component of a table element")
                parts.append(p)
            return tup(parts)
        if all(v.op == "ref" and v.args[0][0] == "arg" and isinstance(v.args[0][-1], T.Term) for v in vals):
            ks = self.template([v.args[0][-1] for v in vals], ns, N)
            if ks is not None and self.i.scenario is not None:
                return mk("ref", v0.args[0][:-1] + (ks,), ty="ref")
        # values that mention the key only
        if all(v.op == v0.op and len(v.args) == len(v0.args) for v in vals) and v0.op in (
                "val", "enc", "lenenc", "maxlen", "lentype", "desc"):
            p = [self.template([v.args[k] for v in vals], ns, N) for k in range(len(v0.args))]
            if all(x is not None for x in p):
                return mk(v0.op, *p, ty=v0.ty)
        return None

    # ------------------------------------------------------------ symbolic ranges
    def srange(self, node, rng, st, fr, body, kind="range"):
        i = self.i
        a, b, step = (st.norm(x) for x in rng)
        rec = LoopRec(node, kind, fr)
        rec.range = (a, b, step)
        name = self.serial(st, fr, node)
        N = T.sym("i%s" % name, "int")
        rec.N = rec.elem = N
        rec.dom = None
        if step.op == "const":
            s = T.cval(step)
            up = s > 0
            if s == 0:
                i.raise_(st, fr, ["ValueError"], "range() step", node)
                return []
        else:
            d = st.decide(c_le(const(1), step))
            if d is None:
                d2 = st.decide(c_lt(step, const(0)))
                if d2:
                    up = False
                else:
                    z = st.copy()
                    if z.assume(c_eq0(step), True):
                        i.raise_(z, fr, ["ValueError"], "range() arg 3 must not be zero", node)
                    out = []
                    w = st.copy()
                    if w.assume(c_lt(step, const(0)), True):
                        out += self._srange(rec, node, N, a, b, step, False, w, fr, body)
                    if st.assume(c_le(const(1), step), True):
                        rec2 = LoopRec(node, kind, fr)
                        rec2.range, rec2.N, rec2.elem, rec2.dom = rec.range, N, N, None
                        out += self._srange(rec2, node, N, a, b, step, True, st, fr, body)
                    return out
            else:
                up = d
        return self._srange(rec, node, N, a, b, step, up, st, fr, body)

    def _srange(self, rec, node, N, a, b, step, up, st, fr, body):
        # the range variable is carried by the loop: a on entry, N + step after an iteration
        i = self.i
        rec.counter = (N, a, step)

        def enter(h):
            e = h.copy()
            c = c_lt(N, b) if up else c_lt(b, N)
            ok = e.assume(c, True)
            ex = h.assume(c, False)
            return ([(e, N)] if ok else []), ([h] if ex else [])
        rec.up = up
        st.event("range", T.sub(b, a) if up else T.sub(a, b), step, fr.where(node),
                 self.lib.alloc_ok(T.sub(b, a) if up else T.sub(a, b), st))
        return self.fix(rec, node, st, fr, enter, body)

    # ------------------------------------------------------------ fixpoint
    def fix(self, rec, node, st, fr, enter, body):
        i = self.i
        name = self.serial(st, fr, node)
        for attr in ("N", "dom", "counter"):
            if not hasattr(rec, attr):
                setattr(rec, attr, None)
        stable = True
        gen = {}            # location -> value at the loop head
        phis = {}           # symbol -> entry value
        lists = {}          # symbol -> (pre, items) on entry
        dropped = set()
        if rec.counter is not None:
            phis[rec.counter[0]] = rec.counter[1]
        for rnd in range(14):
            m = self.mark()
            head = self.build_head(st, gen, rec, phis, lists)
            cands = self.candidates(st, phis, rec, dropped) if rnd else []
            cands = [c for c in cands if c not in dropped]
            for c in cands:
                head.les = head.les + (c,)
            head._memo = {}
            marker = head.events
            live = i.gc(head, fr)
            hf = (head.les, dict(head.facts), dict(head.subst))
            ents, exits = enter(head.copy())
            backs = []
            for x, v in ents:
                backs += body(x, v)
            changed = False
            for b in backs:
                if self.compare(st, head, b, live, gen, phis, lists, rec, name, fr, node):
                    changed = True
            if not changed:
                posts = [(b, self.posts(b, gen, phis, lists)) for b in backs]
                if rec.counter is not None:
                    for b, p in posts:
                        p[rec.counter[0]] = T.add(rec.counter[0], rec.counter[2])
                bad = []
                for c in cands:
                    for b, p in posts:
                        c2 = subst_term(c, {s: b.norm(v) for s, v in p.items() if s in phis})
                        if not b.prove_le0(c2):
                            bad.append(c)
                            break
                if bad:
                    dropped.update(bad)
                    changed = True
                elif rnd == 0:
                    # nothing is carried by the loop
                    changed = bool(phis)
            if not changed:
                break
            self.rollback(m)
        else:
            i.undecide("loop did not stabilise", fr, node, st)
            stable = False
            for x in exits:
                x.weaken("loop at %s did not stabilise" % rec.where)
            posts = []
        rec.phis, rec.lists = phis, lists
        rec.backs = posts
        rec.pre, rec.head = st, head
        rec.marker = marker
        rec.headfacts = hf
        rec.stable = stable
        rec.entered = [x for x, _ in ents]
        rec.invs = cands
        for x in exits:
            if x.events is marker:
                x.events = (st.events, ("loop", rec))
            else:
                ev = x.event_list(marker)
                x.events = (st.events, ("loop", rec))
                for e in ev:
                    x.events = (x.events, e)
        return exits

    def build_head(self, st, gen, rec, phis, lists):
        h = st.copy()
        h._memo = {}
        h.events = (st.events, ("loophead", rec))
        for loc, v in gen.items():
            k, a = loc[0], loc[1]
            o = h.heap[a].copy()
            if k == "env":
                o.vars[loc[2]] = v
            elif k == "attr":
                o.attrs[loc[2]] = v
            elif k == "barr":
                o.content = v
            elif k == "list":
                o.pre, o.items = v, ()
            elif k == "key":
                g, old, site = o.items[loc[2]]
                o.items[loc[2]] = (g, v, site)
            elif k == "fold":
                o.loops = o.loops + (rec,)
            elif k == "set":
                o.unknown = v
            h.heap[a] = o
        return h

    def phi(self, name, loc, ty, phis, entry):
        s = T.sym("phi%s:%s" % (name, ".".join(str(x) for x in loc[2:]) or "%s%s" % (loc[0], zlib.crc32(str(loc[1]).encode()))), ty)
        if s in phis and phis[s] is not entry:
            s = T.sym("phi%s:%s:%s" % (name, len(phis), ".".join(str(x) for x in loc[1:])), ty)
        phis[s] = entry
        return s

    def gen_value(self, pre, hv, post, loc, name, phis):
        """Value at the head that covers entry value pre, head value hv and back value post."""
        if hv is post:
            return hv
        if hv is not None and hv.op == "top":
            return hv
        if pre is None:
            return T.top("variable set inside a loop")
        if post is None:
            return T.top("variable deleted inside a loop")
        if pre.op == "tuple" and post.op == "tuple" and hv.op == "tuple" and \
                len(pre.args) == len(post.args) == len(hv.args):
            return tup([self.gen_value(p, h, q, loc + (k,), name, phis)
                        for k, (p, h, q) in enumerate(zip(pre.args, hv.args, post.args))])
        if hv in phis:
            if post.ty == hv.ty and post.op != "top":
                return hv
            return T.top("loop-carried value of changing type")
        if pre.ty == post.ty and pre.ty in SCALAR and post.op != "top":
            return self.phi(name, loc, pre.ty, phis, pre)
        return T.top("loop-carried value")

    def compare(self, st, head, b, live, gen, phis, lists, rec, name, fr, node):
        changed = False

        def put(loc, v):
            nonlocal changed
            if gen.get(loc) is not v:
                gen[loc] = v
                changed = True
        for a in live:
            x, y = head.heap.get(a), b.heap.get(a)
            if x is y or x is None:
                continue
            pre = st.heap.get(a)
            if y is None:
                continue
            if y.kind != x.kind or pre is None or pre.kind != x.kind:
                self.i.undecide("object changed kind in loop", fr, node, b)
                continue
            k = x.kind
            if k == "env":
                for n in list(x.vars) + [n for n in y.vars if n not in x.vars]:
                    hv, pv = x.vars.get(n), y.vars.get(n)
                    if hv is pv:
                        continue
                    loc = ("env", a, n)
                    v = self.gen_value(pre.vars.get(n), hv, self.bnorm(b, pv), loc, name, phis)
                    if v is not hv:
                        put(loc, v)
            elif k in ("inst", "attrs"):
                for n in list(x.attrs) + [n for n in y.attrs if n not in x.attrs]:
                    hv, pv = x.attrs.get(n), y.attrs.get(n)
                    if hv is pv:
                        continue
                    loc = ("attr", a, n)
                    v = self.gen_value(pre.attrs.get(n), hv, self.bnorm(b, pv), loc, name, phis)
                    if v is not hv:
                        put(loc, v)
            elif k == "bytearray":
                if x.content is y.content:
                    continue
                c = self.bnorm(b, y.content)
                pc = pre.content
                if x.content in phis or x.content.op == "top":
                    continue
                if c.op == "top":
                    put(("barr", a), T.top("bytearray changed in loop", "bytes"))
                else:
                    put(("barr", a), self.phi(name, ("barr", a), "bytes", phis, pc))
            elif k == "list":
                if ("list", a) in gen:
                    s = gen[("list", a)]
                    if x.pre is s and y.pre is not s and s.op != "top":
                        put(("list", a), T.top("list changed in loop", "any"))
                elif x.items != y.items or x.pre is not y.pre:
                    s = T.sym("list%s:%s" % (name, len(lists)), "any")
                    lists[s] = (pre.pre, pre.items)
                    self.joined(st, b, s, pre, y, phis)
                    put(("list", a), s)
            elif k == "set":
                if x.unknown is None and (x.items != y.items or x.syms != y.syms or y.unknown):
                    put(("set", a), "set changed in loop")
            elif k == "dict":
                for key in list(x.items) + [q for q in y.items if q not in x.items]:
                    p, q = x.items.get(key), y.items.get(key)
                    if p is not None and q is not None:
                        if p[0] != q[0]:
                            if key.op == "const" or rec.N is None or not _mentions(key, rec.N):
                                self.i.undecide("dictionary entry changed in loop", fr, node, b)
                        if p[1] is not q[1]:
                            loc = ("key", a, key)
                            pp = pre.items.get(key)
                            v = self.gen_value(pp[1] if pp else None, p[1], self.bnorm(b, q[1]), loc, name, phis)
                            if v is not p[1]:
                                put(loc, v)
                    elif q is not None:
                        if q[0] == bdd.FALSE:
                            continue
                        if rec.N is not None and _mentions(key, rec.N):
                            if ("fold", a) not in gen:
                                put(("fold", a), True)
                        elif head.heap[a].base is not None and st.heap[a].base is not None:
                            if ("fold", a) not in gen:
                                put(("fold", a), True)
                        else:
                            if ("fold", a) not in gen:
                                self.i.undecide("entry added in loop", fr, node, b)
                                put(("fold", a), True)
            elif k == "gen":
                pass
        return changed

    def bnorm(self, b, v):
        return v if v is None or v.op in ("ref", "func", "class") else b.norm(v)

    def posts(self, b, gen, phis, lists):
        out = {}
        for loc, v in gen.items():
            k, a = loc[0], loc[1]
            o = b.heap.get(a)
            if o is None:
                continue
            if k == "env":
                self.post_value(v, o.vars.get(loc[2]), out, phis)
            elif k == "attr":
                self.post_value(v, o.attrs.get(loc[2]), out, phis)
            elif k == "barr":
                self.post_value(v, o.content, out, phis)
            elif k == "key":
                self.post_value(v, o.items[loc[2]][1], out, phis)
            elif k == "list" and v in lists:
                out[v] = tuple(o.items)
                J = self.i.joins.get(v)
                if J is not None:
                    out[J] = self.joined_parts(b, o, J.ty) or T.top("list of mixed values")
        return out

    def joined(self, st, b, s, pre, post, phis):
        """A carried list of bytes (or of strings) stands for the concatenation of its items as well."""
        kinds = {self.lib.kind(v, x) for x, o in ((st, pre), (b, post)) for _, v in o.items}
        kinds = {"bytes" if k in ("bytes", "bytearray", "memoryview") else k for k in kinds}
        if len(kinds) != 1 or not kinds <= {"bytes", "str"}:
            return
        ty = kinds.pop()
        e = self.joined_parts(st, pre, ty)
        if e is None:
            return
        J = T.sym("join:%s" % s.args[0], ty)
        phis[J] = e
        self.i.joins[s] = J

    def joined_parts(self, st, o, ty):
        if o.unordered:
            return None
        parts = []
        if o.pre is not None:
            J = self.i.joins.get(o.pre)
            if J is None or J.ty != ty:
                return None
            parts.append(J)
        empty = const(b"" if ty == "bytes" else "")
        for g, v in o.items:
            k = self.lib.kind(v, st)
            if v.op == "ref" or v.op == "top" or (k != "str" if ty == "str" else k not in ("bytes", "bytearray", "memoryview")):
                return None
            if ty == "bytes":
                v = T.tobytes(v)
            g = bdd.and_(g, st.gpc)
            if g == bdd.FALSE:
                continue
            parts.append(v if bdd.implies(st.gpc, g) else mk("ite", g, v, empty, ty=ty))
        return st.norm(T.concat(parts, ty)) if parts else empty

    def post_value(self, v, p, out, phis):
        if p is None:
            return
        if v in phis:
            out[v] = p
        elif v.op == "tuple" and p.op == "tuple":
            for x, y in zip(v.args, p.args):
                self.post_value(x, y, out, phis)

    def candidates(self, st, phis, rec, dropped):
        """Linear candidate invariants (terms <= 0) that hold on entry."""
        out = []

        def cand(l):
            if l in dropped or l in out or l.op == "const":
                return
            e = subst_term(l, {s: st.norm(v) for s, v in phis.items()})
            if st.prove_le0(e):
                out.append(l)
            else:
                dropped.add(l)
        ints = [(s, v) for s, v in phis.items() if s.ty == "int"]
        seqs = [(s, v) for s, v in phis.items() if s.ty in ("bytes", "str", "bytearray")]
        inputs = list(self.i.scenario.inputs) if self.i.scenario is not None else []
        for s, a in ints:
            cand(T.neg(s))
            cand(T.sub(a, s))
            cand(T.sub(s, a))
            for x in inputs:
                cand(T.sub(s, T.length(x)))
            if rec.range is not None:
                lo, hi, step = rec.range
                for e in (lo, hi):
                    cand(T.sub(s, e))
                    cand(T.sub(e, s))
        meas = [(s, a) for s, a in ints] + [(T.length(s), T.length(a)) for s, a in seqs]
        for k, (s, a) in enumerate(meas):
            for s2, a2 in meas[k + 1:]:
                d = T.sub(T.sub(s, s2), T.sub(a, a2))
                cand(d)
                cand(T.neg(d))
                cand(T.sub(s, s2))
                cand(T.sub(s2, s))
        # conditions guarding the entry into the body
        for c in getattr(rec, "hints", ()):
            cand(c)
        return out
