"""Effects of a path: writes to arguments and to process state, ambient input, aliasing of results,
sizes, and the text of errors.  Everything here is read off the abstract state of the path."""
from . import bdd
from . import terms as T
from .evalt import NoModel, Undefined
from .state import subterms

DOCA = ("arg", "doc")


class Issue:
    """cond(model, world): is the issue real in this world?  (None: it is, when the path is taken)"""
    def __init__(self, props, rule, text, where, cond=None, key=None, kind=None):
        self.props, self.rule, self.text, self.where, self.cond = props, rule, text, where, cond
        self.key, self.kind = key, kind or rule

    def __repr__(self):
        return "<%s %s %s>" % (",".join(sorted(self.props)), self.rule, self.text)


def addr_name(a):
    if a[0] == "arg":
        if a[1] == "s":
            return "the message buffer"
        if a[1] == "spec":
            return "the specification" + (" (entry %s)" % T.show(a[2]) if len(a) > 2 else "")
        if a[1] == "doc":
            return "the document" + (" (entry %s)" % T.show(a[2]) if len(a) > 2 else "")
        return "argument " + str(a[1])
    return "process-wide object %s" % (str(a[1:3])[:60],)


def big_limit(w):
    """What the message (or document) and the specification justify"""
    n = 4096
    if w.buf is not None:
        n += 2 * len(w.buf)
    if w.doc is not None:
        n += sum(4 * len(v) for v in w.doc.values() if isinstance(v, (str, bytes, list)))
    keys = set()
    for p in w.parts:
        keys.add(p.key.rstrip("+"))
    if w.err is not None:
        keys.add(w.err.key)
    for e in w.spec.values():
        n = max(n, n + 0)
    n += 2 * max([abs(e.get("max_len", 0)) for e in w.spec.values()] + [0]) + 8 * max([e.get("len_type", 0) for e in w.spec.values()] + [0])
    return n


def walk_events(evs, conds=(), depth=0):
    """(conditions, event) for every event, those of merged branches and of loops inside them included"""
    for ev in evs:
        if ev[0] == "alt":
            for cs, sub in ev[1]:
                yield from walk_events(sub, conds + tuple(cs), depth + 1)
        elif ev[0] == "loop" and depth:
            yield conds, ev
            for b, p in ev[1].backs:
                yield from walk_events(b.event_list(ev[1].marker), conds + (None,), depth + 1)
        else:
            yield conds, ev


def under(conds, cond):
    """cond together with the conditions of the branch the event is in"""
    if not conds:
        return cond

    def both(m, w):
        for c in conds:
            if c is None:
                continue
            try:
                if isinstance(c, T.Term) and not m.ev(c):
                    return False
            except NoModel:
                pass
        return True if cond is None else cond(m, w)
    return both


def issues(o, run, kind, api=None):
    api = api or {"dec": "decode", "enc": "encode"}.get(kind, kind)
    out = []
    st = o.st
    seen = set()
    done = 0
    for conds, ev in walk_events(st.event_list()):
        for x in out[done:]:
            x.cond = under(last, x.cond)
        done = len(out)
        last = conds
        t = ev[0]
        if t in ("loop", "loophead"):
            continue
        if ev in seen:
            continue
        seen.add(ev)
        if t == "arg-write":
            a, what, key, where = ev[1:]
            if kind == "enc" and a == DOCA:
                if key is None or key.op != "const" or T.cval(key) not in ("p", "1", "65", "h", "t"):
                    # plain entries are compared value by value
                    out.append(Issue({"C11"}, "arguments are not modified", "%s writes entry %s of the document" %
                                     (where, T.show(key) if key is not None else what), where, doc_cond(st, key)))
                continue
            if a[1] == "s" and kind == "dec" and getattr(run.sc, "ty", "bytes") != "bytearray":
                continue
            out.append(Issue({"C11"}, "arguments are not modified", "%s modifies %s (%s)" % (where, addr_name(a), what), where))
        elif t == "static-write":
            a, what, where = ev[1:4]
            out.append(Issue({"C13"} | ({"C12"} if False else set()), "no process-wide state is modified", "%s modifies %s (%s)" % (where, addr_name(a), what), where))
        elif t == "ambient":
            out.append(Issue({"C13"}, "nothing ambient is read", "%s uses %s" % (ev[2], ev[1]), ev[2]))
        elif t in ("ambient-read", "write", "stream-method") and kind in ("dec", "enc"):
            out.append(Issue({"C13"}, "no input or output", "%s: %s" % (ev[-1], t), ev[-1]))
        elif t in ("alloc", "range") and not ev[-1]:
            n = ev[2] if t == "alloc" else ev[1]
            where = ev[3]
            if kind in ("dec", "enc"):
                out.append(Issue({"C21"}, "sizes are bounded by what was received or configured", "%s: %s of size %s" %
                                 (where, ev[1] if t == "alloc" else "iteration", T.show(n)[:80]), where, size_cond(st, n)))
    for x in out[done:]:
        x.cond = under(last, x.cond)
    if kind in ("dec", "enc"):
        out += aliasing(o, run, kind)
        if o.kind == "raise":
            out += text_taint(o, run, kind)
        if o.kind == "iter" and o.rec is not None and o.rec.unordered and o.rec.kind == "items":
            ps = {"C05"} if kind == "dec" else {"C04"}
            out.append(Issue(ps, "fields are taken in ascending order", "%s: iteration order is that of a set or of the document" % o.rec.where,
                             o.rec.where, lambda m, w: len([g for g, n in o.rec.dom or () if m.guard(g)]) > 1 or None))
        if o.kind == "iter" and o.rec is not None and o.rec.kind == "while":
            i = stuck(o)
            if i:
                out.append(i)
    return out


def doc_cond(st, key):
    def cond(m, w):
        if key is None:
            return None
        return m.ev(key) not in ("p", "1", "65")
    return cond


def size_cond(st, n):
    def cond(m, w):
        return m.ev(n) > big_limit(w)
    return cond


def stuck(o):
    """An iteration of a while loop that changes nothing it depends on"""
    rec = o.rec
    if not o.posts and not rec.phis:
        return None
    if all(o.st.norm(v) is s for s, v in o.posts.items() if isinstance(v, T.Term)):
        return Issue({"C21", "C19"}, "loops terminate", "%s: an iteration leaves every loop variable as it was" % rec.where, rec.where)
    return None


# ------------------------------------------------------------------ aliasing
def aliasing(o, run, kind):
    st = o.st
    roots = []
    if o.kind == "ret":
        roots = [("result", o.v)]
    elif o.kind == "raise":
        a = o.attrs()
        names = ("doc_dec", "doc_enc") if kind == "dec" else ("doc_enc",)
        roots = [(n, a[n]) for n in names if n in a]
    elif o.kind == "iter":
        names = [("decoded dictionary", run.dec_a), ("encoded dictionary", run.enc_a)] if kind == "dec" else [("encoded dictionary", run.enc_a)]
        roots = [(n, T.mk("ref", a, ty="ref")) for n, a in names if a is not None]
    out = []
    seen = {}
    pre = o.rec.pre if o.kind == "iter" and o.rec.pre is not None else None

    def walk(v, path, d):
        if d > 6:
            return
        v0 = v
        if v.op == "ref":
            a = v.args[0]
            ob = st.heap.get(a)
            if ob is None:
                return
            if a[0] == "arg":
                out.append(Issue({"C12"}, "results are new objects", "%s is %s" % (path, addr_name(a)), o.where()))
                return
            if ob.kind in ("dict", "list", "bytearray", "set", "inst"):
                if a[0] == "static":
                    out.append(Issue({"C12", "C13"}, "results are new objects", "%s is a %s" % (path, addr_name(a)), o.where()))
                    return
                if a in seen and seen[a] != path:
                    out.append(Issue({"C12"}, "results do not share objects", "%s and %s are one object" % (seen[a], path), o.where()))
                    return
                if a in seen:
                    return
                seen[a] = path
            if ob.kind == "dict":
                for k, (g, x, s) in ob.items.items():
                    if bdd.and_(g, st.gpc) == bdd.FALSE:
                        continue
                    if pre is not None and x.op == "ref" and x.args[0] in pre.heap and d == 0:
                        po = pre.heap.get(a)
                        if po is None or k not in getattr(po, "items", {}) or po.items[k][1] is not x:
                            out.append(Issue({"C12"}, "results do not share objects", "%s[%s] is an object made before the loop" % (path, T.show(k)), o.where()))
                            continue
                    walk(x, "%s[%s]" % (path, T.show(k)), d + 1)
            elif ob.kind == "list":
                for g, x in ob.items:
                    walk(x, path + "[]", d + 1)
            return
        if v.op == "tuple":
            for n, x in enumerate(v.args):
                walk(x, "%s[%d]" % (path, n), d + 1)
            return
        if v.op == "ite":
            walk(v.args[1], path, d)
            walk(v.args[2], path, d)
            return
        x = st.norm(v)
        if x.op == "top":
            i = run.i
            if i.kept_reads.get(x) in i.kept:
                out.append(Issue({"C12", "C13"}, "results do not share objects", "%s is an object kept in a %s" %
                                 (path, addr_name(i.kept_reads[x])), o.where()))
            return
        if x.ty == "memoryview" or (x.ty == "bytearray" and x.op == "sym"):
            out.append(Issue({"C12"}, "results share nothing with the input buffer", "%s is a view of, or is, the input (%s)" % (path, x.ty), o.where(),
                             lambda m, w: True if w.buf is None or getattr(run.sc, "ty", "") == "bytearray" else None))
    for n, v in roots:
        walk(v, n, 0)
    for a in sorted(run.i.kept, key=str):
        ob = st.heap.get(a)
        if ob is None or ob.kind not in ("dict", "list"):
            continue
        for x in [x[1] for x in ob.items.values()] if ob.kind == "dict" else [x for _, x in ob.items]:
            if x.op == "ref" and x.args[0] in seen:
                out.append(Issue({"C12", "C13"}, "results do not share objects", "%s stays in a %s, for later calls to find" %
                                 (seen[x.args[0]], addr_name(a)), o.where()))
                break
    return out


# ------------------------------------------------------------------ disclosure
LEAF_OK = {"enc", "lenenc", "lentype", "maxlen", "desc", "cfgpad", "guard", "func", "class", "builtin", "module"}
COUNT = {"len", "count"}


class Unknown(Exception):
    pass


def text_taint(o, run, kind):
    st = o.st
    out = []
    texts = []
    if o.v.op == "exc":
        classes = o.v.args[0]
        # what the builtin says about its operands
        if any(c in ("UnicodeDecodeError", "UnicodeEncodeError", "ValueError", "KeyError", "UnicodeError") for c in map(str, classes)):
            texts.append(("text of the %s" % (classes[0],), o.v))
    else:
        a = o.attrs()
        for n in ("msg", "args"):
            if n in a:
                texts.append((n, a[n]))
    for n, t in texts:
        memo = {}
        try:
            leak = secret(t, st, run, memo, 0)
        except Unknown as e:
            leak = None
        if leak is not None:
            out.append(Issue({"C22"}, "error texts hold no element data", "%s of the error includes %s" % (n, leak), o.where()))
            break
    return out


def secret(t, st, run, memo, d):
    """What element data flows into this value (a description), or None"""
    if not isinstance(t, T.Term):
        if isinstance(t, tuple):
            for x in t:
                r = secret(x, st, run, memo, d)
                if r is not None:
                    return r
        return None
    if t in memo:
        return memo[t]
    memo[t] = None
    memo[t] = r = secret1(t, st, run, memo, d)
    return r


def prefix_width(t):
    """Is this slice exactly a length prefix?  (its width is some len_type)"""
    if t.op != "slice":
        return False
    a, b = t.args[1], t.args[2]
    if not (isinstance(a, T.Term) and isinstance(b, T.Term)):
        return False
    w = T.sub(b, a)
    return w.op == "lentype"


def secret1(t, st, run, memo, d):
    op = t.op
    if op == "const" or op in LEAF_OK:
        return None
    if op in COUNT or t.ty in ("bool", "none"):
        return None
    if op == "sym":
        nm = str(t.args[0])
        if nm == "s":
            return "the message itself"
        return None      # loop counters, cursors and keys
    if op in ("val", "part"):
        return "the value of %s" % T.show(t.args[-1])
    if op == "ref":
        if d > 6:
            return None
        a = t.args[0]
        o = st.heap.get(a)
        if a == DOCA or (a[0] == "arg" and a[1] == "doc"):
            return "the document"
        if o is None or a[0] == "arg":
            return None
        if o.kind == "dict":
            if o.loops:
                return "field data"
            for k, (g, v, s) in o.items.items():
                r = secret(v, st, run, memo, d + 1) or secret(k, st, run, memo, d + 1)
                if r is not None:
                    return r
        elif o.kind == "list":
            for g, v in o.items:
                r = secret(v, st, run, memo, d + 1)
                if r is not None:
                    return r
        elif o.kind == "bytearray":
            return secret(o.content, st, run, memo, d + 1)
        elif o.kind == "inst":
            for n in ("args", "msg"):
                if n in o.attrs:
                    r = secret(o.attrs[n], st, run, memo, d + 1)
                    if r is not None:
                        return r
        return None
    if op == "slice":
        if prefix_width(st.norm(t)) or prefix_width(t):
            return None
        r = secret(t.args[0], st, run, memo, d)
        if r is not None:
            return "message bytes %s" % T.show(t)[:60] if "message" in r else r
        return None
    if op == "bytesof" or op == "bits" or op == "bitstr":
        # bits computed from the set of fields
        for x in t.args:
            if isinstance(x, T.Term):
                r = secret(x, st, run, memo, d)
                if r is not None:
                    return r
        return None
    if op == "top":
        return None
    if op in ("typename", "typeof"):
        return None
    if op == "exc":
        return secret(t.args[2], st, run, memo, d)
    if op == "lin":
        for a, k in t.args[1]:
            r = secret(a, st, run, memo, d)
            if r is not None:
                return r
        return None
    for a in t.args:
        r = secret(a, st, run, memo, d)
        if r is not None:
            return r
    return None


def confirm(issue, m, w):
    """True when the issue is real in this model"""
    if issue.cond is None:
        return True
    try:
        return bool(issue.cond(m, w))
    except (NoModel, Undefined):
        return False
