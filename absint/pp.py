"""Pretty printing: what pp() writes (C18, C19), decided on the summaries of its paths.

The text a path writes is a tree of events: writes, alternatives, loops.  Proof: a grammar of the output is run over
the tree symbolically (Parser below), with the pieces of a folded value telescoping to the value.  Refutation: the
tree is interpreted in worlds and the text is compared with what the document and the specification require.
"""
import ast
import hashlib
import os
import re
import time

from . import bdd, effects, scen as S, terms as T
from .evalt import Model, NoModel, Undefined, facts_of
from .outcome import Marker, Outcome, collect, conc
from .scen import Cfg, Scenario
from .state import c_eq0, c_lt, c_le0, c_guard, subterms
from .terms import const, mk
from .worlds import Gen, Mined, World

DOCA = ("arg", "doc")
JUNK = ("x1", "abc", "", "-1", "bm")
STREAM = T.sym("stream", "stream")
STDOUT = "sys.stdout"
DW, LW = T.sym("dw", "int"), T.sym("lw", "int")


def tasks(tier):
    from .tasks import Task
    out = []
    for val in ("str", "parts", "bytes"):
        for strm in ("given", "none"):
            if val == "bytes" and strm == "none":
                continue
            out.append(Task("pp", "values %s, stream %s" % (val, strm), docval=val, stream=strm, h=Cfg(var=val == "parts")))
    # two fields, one after the other: what is printed for one does not depend on the other
    for val in ("str", "parts"):
        out.append(Task("pp", "values %s, two fields" % val, docval=val, stream="given", h=Cfg(var=val == "parts"), fields=(9, 100)))
    return out


class Diverge(Exception):
    pass


class NoMatch(Exception):
    """No iteration of a loop applies"""


# ------------------------------------------------------------------ analysis
class Run:
    def __init__(self, repo, task):
        self.task = task
        kw = task.kw
        self.i, st = S.boot(repo, ["iso8583"])
        self.sc = sc = Scenario(task.name, Cfg())
        sc.has_desc = True
        sc.docval = kw["docval"]
        sc.doc_nums = range(0, 200)
        if kw.get("fields"):
            sc.pair = sc.doc_nums = kw["fields"]
        sc.doc_extra = tuple(const(k) for k in JUNK)
        sc.cfg["h"] = kw["h"]
        sc.full = True
        f = S.func(self.i, st, "iso8583", "pp")
        if f is None:
            raise FileNotFoundError("iso8583.pp")
        st.heap[("arg", "spec")] = S.DictO(base="spec")
        st.heap[DOCA] = S.DictO(base="doc")
        self.params(f)
        args = {"doc": S.DOC, "spec": S.SPEC, "desc_width": DW, "line_width": LW,
                "stream": T.NONE if kw["stream"] == "none" else STREAM}
        if kw["stream"] == "none":
            # the documented default
            del args["stream"]
        rets, raises = self.call(st, f, args)
        self.outs, self.recs = collect(self.i, rets, raises)
        self.nomodel = {}

    def params(self, f):
        pass

    def call(self, st, f, args):
        i = self.i
        i.scenario = self.sc
        from .interp import Frame, Module
        from .heap import EnvO
        m = Module("<api>", "<api>", None)
        i.modules.setdefault("<api>", m)
        st.heap[m.env] = EnvO({}, None, None)
        fr = Frame(i, None, m.env, 0, None, m)

        class N:
            lineno = 0
            col_offset = 0
        i.sink_push(fr.raises)
        rets = i.call(f, [args.pop("doc"), args.pop("spec")], args, st, fr, N())
        i.sink_pop(1)
        return rets, fr.raises


# ------------------------------------------------------------------ interpretation in worlds
class PPWorld(World):
    def __init__(self, gen, kind):
        self.gen = gen
        self.extra = {}
        r = gen.r
        nums = gen.pick_fields()
        pair = [str(n) for n in gen.sc.pair or ()]
        if r.random() < 0.2 and not pair:
            nums = sorted(set(nums) | {r.choice((0, 1, 65, 100, 193, 199))})
        self.spec = {k: gen.entry(k) for k in ("h", "t", "p", "1")}
        if r.random() < 0.3:
            self.spec["h"]["max_len"] = 0
        self.nums = nums
        keys = [k for k in ["h", "t", "p"] + [str(n) for n in nums] if k in pair or r.random() < 0.93]
        keys += [k for k in JUNK if r.random() < 0.15]
        r.shuffle(keys)
        self.dw = r.choice((-3, -1, 0, 0, 1, 2, 3, 5, 10, 30, 30, 45))
        self.lw = r.choice((-10, -1, 0, 1, 2, 5, 8, 10, 12, 20, 30, 40, 40, 60, 80, 80, 200))
        if gen.m.some and r.random() < 0.3:
            self.lw = r.choice(gen.m.some)
        if gen.m.near and r.random() < 0.15:
            self.dw = r.choice(gen.m.near) % 60
        self.kind = kind
        self.falsy = r.random() < 0.25
        self.doc = {}
        big = [n for n in gen.m.near if 130 < n <= 12000]
        one = r.choice(keys) if big and keys and r.random() < 0.12 else None
        if one is not None:
            self.lw = r.choice((60, 80, 200, 500))
        self.size = 0
        for k in keys:
            self.long = [r.choice(big) + r.choice((0, 0, 1, 7, 300))] if k == one else None
            self.doc[k] = self.value(k)
            self.size = max([self.size] + [len(x) for x in (self.doc[k].values() if isinstance(self.doc[k], dict) else (self.doc[k],))])
        for k in list(keys) + ["1"]:
            self.ent(k).setdefault("desc", "")
            self.ent(k)["desc"] = r.choice(("Field %s" % k, "d", "", "Some longer text of field %s and more" % k, "'q' : b'x'", "two\nlines", " x ", "\u00e9"))
        if pair:
            # alike in the value, in the description, or in both
            x = r.random()
            if x < 0.5:
                self.doc[pair[1]] = dict(self.doc[pair[0]]) if kind == "parts" else self.doc[pair[0]]
            elif x < 0.6 and kind == "parts":
                self.doc[pair[1]]["len"] = self.doc[pair[0]]["len"]
            if r.random() < 0.5:
                self.ent(pair[1])["desc"] = self.ent(pair[0])["desc"]

    def ent(self, k):
        if k not in self.spec:
            self.spec[k] = self.gen.entry(k)
        return self.spec[k]

    def text(self):
        r = self.gen.r
        n = r.choice((0, 1, 2, 3, 4, 5, 7, 10, 16, 20, 33, 64, 90, 130) if self.kind == "str" else (0, 1, 2, 3, 5, 7, 10, 16, 20, 33, 50))
        if self.gen.m.some and r.random() < 0.25:
            n = r.choice(self.gen.m.some) % 300
        if self.long and r.random() < 0.7:
            n = r.choice(self.long)
        pool = r.choice(("0123456789ABCDEF", "abc XYZ", "a'\"\\\n\t\x00\u00e9\u20ac ", "'", "\x00\xff1", " ", "\u2028a\u0300"))
        s = "".join(r.choice(pool) for _ in range(n))
        if self.gen.m.strs and r.random() < 0.15:
            s += r.choice(self.gen.m.strs)
        return s

    def raw(self):
        r = self.gen.r
        return self.text().encode(r.choice(("latin-1", "utf-8")), "replace")

    def value(self, k):
        r = self.gen.r
        if self.kind == "parts":
            return {"len": r.choice((b"", b"", b"10", b"\x05", b"\x00\x12", b"\x00", b"00", b"0'\"3", b"003")), "data": self.raw()}
        return self.text() if self.kind == "str" else self.raw()

    def guardval(self, name):
        if isinstance(name, tuple) and name[0] == "spec":
            return True
        if isinstance(name, tuple) and name[0] == "haskey" and name[1] in (("arg", "spec"), (("arg", "spec"),)):
            k = name[2]
            return isinstance(k, str) and (k in ("h", "t", "p") or k.isdigit())
        return super().guardval(name)

    def lookup(self, op, args, t):
        key = args[-1]
        if op in ("enc", "lenenc", "lentype", "maxlen", "desc", "cfgpad"):
            self.ent(key).setdefault("desc", "Text %s" % key)
        return super().lookup(op, args, t)

    def describe(self):
        return {"document": {k: v for k, v in self.doc.items()}, "desc_width": self.dw, "line_width": self.lw,
                "spec": {k: {p: v for p, v in self.spec[k].items() if p in ("desc", "max_len")} for k in self.doc if k in self.spec}}

    # what has to be printed, in order
    def expected(self):
        out = []
        for k in ("h", "t", "p"):
            if k in self.doc and (k != "h" or self.ent("h")["max_len"] > 0):
                out.append(k)
        out += sorted([k for k in self.doc if k.isdigit()], key=int)
        return out


class Falsy(Marker):
    """A stream that counts as false, such as an empty collection with a write method"""
    def __bool__(self):
        return False


class HeadFacts:
    def __init__(self, les, facts, subst):
        self.les, self.facts, self.subst = les, facts, subst


class Replay:
    facts = {}

    def __init__(self, w):
        self.w = w
        self.out = []
        self.syms = {"dw": w.dw, "lw": w.lw, "stream": (Falsy if w.falsy else Marker)("stream"), "sys.stdout": Marker(STDOUT)}
        self.steps = 0

    def model(self):
        return self.w.model(dict(self.syms))

    def ev3(self, m, c):
        """True, False or None (cannot be told yet)"""
        try:
            if c.op == "or":
                r = False
                for alt in c.args:
                    v = True
                    for x in alt:
                        y = self.ev3(m, x)
                        if y is False:
                            v = False
                            break
                        if y is None:
                            v = None
                    if v is True:
                        return True
                    if v is None:
                        r = None
                return r
            if c.op == "not":
                v = self.ev3(m, c.args[0])
                return None if v is None else not v
            return bool(m.ev(c))
        except NoModel:
            return None
        except Undefined:
            return False

    def all3(self, conds):
        m = self.model()
        r = True
        for c, want in conds:
            v = self.ev3(m, c)
            if v is None:
                r = None
            elif v != want:
                return False
        return r

    def choose(self, options):
        """options: [(conditions, run function, payload)]: run the one whose conditions hold; its payload"""
        cand = []
        for o in options:
            v = self.all3(o[0])
            if v is not False:
                cand.append((v, o))
        if not cand:
            raise NoMatch()
        sure = [o for v, o in cand if v is True]
        if len(cand) == 1:
            cand[0][1][1]()
            if self.all3(cand[0][1][0]) is False:
                raise NoMatch()
            return cand[0][1][2]
        good = []
        saved = (list(self.out), dict(self.syms))
        for v, o in cand:
            self.out, self.syms = list(saved[0]), dict(saved[1])
            try:
                o[1]()
            except (NoMatch, NoModel):
                continue
            if self.all3(o[0]) is not False:
                good.append((o, self.out, self.syms))
        if len(good) > 1 and all(g[1] == good[0][1] and g[0][2] is good[0][0][2] for g in good):
            good = good[:1]
        if len(good) != 1:
            self.out, self.syms = saved
            if not good:
                raise NoMatch()
            raise NoModel("%d alternatives apply" % len(good))
        o, self.out, self.syms = good[0]
        return o[2]

    def events(self, evs):
        for e in evs:
            t = e[0]
            if t == "write":
                m = self.model()
                f = e[1]
                f = Marker("stream") if f is STREAM else Marker(str(f.args[0])) if f.op == "sym" else m.ev(f)
                self.out.append((f, m.ev(e[2]), e[3]))
            elif t == "alt":
                opts = []
                for k, (conds, sub) in enumerate(e[1]):
                    opts.append(([(c, True) for c in conds if isinstance(c, T.Term)], (lambda sub=sub: self.events(sub)), (e, k)))
                self.choose(opts)
            elif t == "loop":
                self.loop(e[1])
            elif t == "stream-method" and e[1] is STREAM:
                # any object with a write method will do
                raise Bad({"C18"}, "the stream is used through its write method only", "%s calls %s() of the stream" % (e[3], e[2]))

    def loop(self, rec):
        m = self.model()
        if rec.lists:
            raise NoModel("list carried by a loop")
        for s, v in rec.phis.items():
            self.syms[s.args[0]] = conc(rec.pre, m, v)
        if rec.kind == "items":
            if rec.dom is None:
                raise NoModel("loop %s" % rec.where)
            if rec.unordered:
                raise NoModel("order of %s" % rec.where)
            for n in [n for g, n in rec.dom if m.guard(g)]:
                self.syms[rec.N.args[0]] = n
                if not self.step(rec):
                    raise NoMatch()
            return
        if rec.range is not None:
            a, b, s = (m.ev(x) for x in rec.range)
            if s == 0:
                raise NoMatch()
            for n in range(a, b, s):
                if rec.counter is None:
                    self.syms[rec.N.args[0]] = n
                if not self.step(rec):
                    break
            return
        if rec.kind != "while":
            raise NoModel("loop %s of kind %s" % (rec.where, rec.kind))
        k = 0
        while self.step(rec):
            k += 1
            if k > 1500 + 2 * self.w.size:
                raise Diverge(rec.where)

    inner = {}

    def inner_syms(self, rec):
        """Symbols of the loops inside one iteration"""
        r = self.inner.get(rec)
        if r is None:
            r = set()

            def go(evs):
                for e in evs:
                    if e[0] == "alt":
                        for c, sub in e[1]:
                            go(sub)
                    elif e[0] == "loop":
                        x = e[1]
                        r.update(s.args[0] for s in x.phis)
                        if x.N is not None:
                            r.add(x.N.args[0])
                        for b, p in x.backs:
                            go(b.event_list(x.marker))
            for b, p in rec.backs:
                go(b.event_list(rec.marker))
            self.inner[rec] = r
        return r

    def step(self, rec):
        self.steps += 1
        if self.steps > 6000 + 8 * self.w.size:
            raise Diverge(rec.where)
        for k in self.inner_syms(rec):
            self.syms.pop(k, None)
        opts = []
        for b, posts in rec.backs:
            fs = self.facts.get(b)
            if fs is None:
                known = set(facts_of(HeadFacts(*rec.headfacts)))
                fs = [f for f in facts_of(b) if f not in known]
                if b.gpc != bdd.TRUE:
                    fs.append((c_guard(b.gpc), True))
                self.facts[b] = fs
            evs = b.event_list(rec.marker)
            opts.append((fs, (lambda evs=evs: self.events(evs)), (b, posts)))
        try:
            b, posts = self.choose(opts)
        except NoMatch:
            return False
        m = self.model()
        new = {s.args[0]: conc(b, m, v) for s, v in posts.items() if isinstance(v, T.Term)}
        self.syms.update(new)
        return True


def literals(text, pos):
    """Python string literals separated by blanks, from pos: -> (values, end)"""
    vals = []
    while True:
        k = pos
        while k < len(text) and text[k] in " \n":
            k += 1
        m = re.compile(r"""b?'(?:[^'\\\n]|\\.)*'|b?"(?:[^"\\\n]|\\.)*\"""").match(text, k)
        if not m:
            return vals, pos
        try:
            vals.append(ast.literal_eval(m.group()))
        except (ValueError, SyntaxError):
            return vals, pos
        pos = m.end()


class Bad(Exception):
    def __init__(self, props, rule, text, key=None):
        self.props, self.rule, self.text, self.key = set(props), rule, text, key


def check_text(w, text):
    pos = 0
    for k in w.expected():
        want = w.doc[k]
        e = w.ent(k)
        line = text[pos:].split("\n", 1)[0]
        if not re.match(re.escape(k) + r"(?![0-9a-zA-Z])", text[pos:]):
            raise Bad({"C18"}, "elements are printed in order, each once", "line %.60r where the line of element %r has to be" % (line, k), k)
        pos += len(k)
        m = re.compile(r" *").match(text, pos)
        pos = m.end()
        if w.dw > 0:
            d = e["desc"][:w.dw]
            q = pos if text.startswith(d.lstrip(" "), pos) else None
            if q is None:
                raise Bad({"C18"}, "each element is printed with its own description", "line %.80r does not have %r, the description of %r" % (line, d, k), k)
            pos += len(d.lstrip(" "))
        pos = re.compile(r" *").match(text, pos).end()
        if not text.startswith(":", pos):
            raise Bad({"C18"}, "each line is key, description and value", "line %.80r of element %r, description width %d" % (line, k, w.dw), k)
        pos += 1
        vals, pos2 = literals(text, pos)
        if w.kind == "parts":
            if want["len"]:
                if not vals or vals[0] != want["len"]:
                    raise Bad({"C18"}, "length bytes are printed before the data", "line %.80r of element %r: length %r is not printed first" % (line, k, want["len"]), k)
                vals = vals[1:]
            elif vals and vals[0] == b"" and len(vals) > 1 and want["data"]:
                raise Bad({"C18"}, "empty length bytes are not printed", "line %.80r of element %r" % (line, k), k)
            v = want["data"]
        else:
            v = want
        empty = type(v)()
        if not vals:
            raise Bad({"C19", "C18"}, "the value is printed", "line %.80r of element %r holds no value, required %.60r" % (line, k, v), k)
        if any(type(x) is not type(v) for x in vals) or empty.join(vals) != v:
            raise Bad({"C19"}, "printed pieces make up the value", "element %r prints as %.90r, its value is %.90r (line_width %d, desc_width %d)" % (
                k, vals[:6], v, w.lw, w.dw), k)
        pos = pos2
        m = re.compile(r" *\n").match(text, pos)
        if not m:
            raise Bad({"C18"}, "each element ends its line", "after element %r: %.60r" % (k, text[pos:pos + 60]), k)
        pos = m.end()
    if text[pos:].strip(" \n"):
        raise Bad({"C18"}, "nothing else is printed", "%.80r after the last element" % text[pos:pos + 80])


def check_world(run, o, w):
    """Mismatches of the returning outcome o in world w (raises NoModel / Undefined / NoMatch)"""
    r = Replay(w)
    fl = o.facts
    pre = r.all3(fl)
    if pre is False or not _guard(r, o.st.gpc):
        raise NoMatch()
    try:
        r.events(o.st.event_list())
    except Diverge as e:
        raise Bad({"C19"}, "folding terminates", "%s does not end" % e)
    if r.all3(fl) is False:
        raise NoMatch()
    target = Marker("stream") if run.task.kw["stream"] == "given" else Marker(STDOUT)
    for f, t, where in r.out:
        if f != target:
            raise Bad({"C18", "C13"}, "only the stream is written to", "%s writes to %r" % (where, f))
        if not isinstance(t, str):
            raise Bad({"C18"}, "text is written", "%s writes %.60r" % (where, t))
    check_text(w, "".join(t for f, t, _ in r.out))


def _guard(r, g):
    return r.model().guard(g)


def run(task, repo, seed, tier, res, t0, budget):
    run = Run(repo, task)
    from .tasks import functions, conditions
    res["functions"] = sorted(functions(run.i))
    res["outcomes"] = len(run.outs)
    from .ppp import Prover
    prover = Prover(run)
    pend = []
    found = res["found"]
    for o in run.outs:
        try:
            bad = prover.prove(o)
        except Exception as e:
            if type(e).__name__ == "Timeout":
                raise
            bad = ["proof: %s: %s" % (type(e).__name__, e)]
        o.issues = effects.issues(o, run, "pp")
        res["claims"] += 1
        if not bad:
            res["proved"] += 1
        else:
            pend.append((o, bad))
        if o.st.weak:
            res["weak"] += [w for w in o.st.weak if w not in res["weak"]][:5]
    if not run.outs:
        res["error"] = "no outcome"
    issues = [(o, x) for o in run.outs for x in o.issues]
    if pend or issues or tier == "thorough":
        search(run, pend, issues, task, seed, res, t0, budget)
    hit = {f["outcome"] for f in found}
    for o, bad in pend:
        res["unproved"].append({"where": o.where(), "kind": o.kind, "claims": [str(b)[:200] for b in bad[:4]], "weak": bool(o.st.weak),
                                "refuted": bool(hit), "nomodel": run.nomodel.get(o, "")[:200]})


def search(run, pend, issues, task, seed, res, t0, budget):
    from .tasks import conditions
    from .extra import finding
    mined = Mined([t for o in run.outs for t in o.terms()] + [e for o in run.outs for e in texts(o.st.event_list())])
    limit = min(budget * 0.6, 14 if tier_quick() else 60)
    sdd = (seed * 1000003 + int(hashlib.sha1(task.name.encode()).hexdigest()[:8], 16)) & 0x7fffffff
    rets = [o for o in run.outs if o.kind == "ret"]
    raises = [o for o in run.outs if o.kind == "raise"]
    seen = {}
    start = time.time()
    n = 0
    done = 0
    while time.time() - start < limit and n < 6000:
        n += 1
        gen = Gen(run.sc, sdd + n, mined if n % 4 else None)
        w = PPWorld(gen, task.kw["docval"])
        res["worlds"] += 1
        hits = []
        for o in rets:
            if o.st.weak:
                run.nomodel.setdefault(o, "imprecise")
                continue
            try:
                check_world(run, o, w)
                hits.append((o, None))
            except Bad as e:
                hits.append((o, e))
            except NoMatch:
                pass
            except (NoModel, Undefined) as e:
                run.nomodel.setdefault(o, str(e))
                hits.append((o, None))
        for o in raises:
            if o.st.weak:
                continue
            r = Replay(w)
            for N in ([None] if o.open is None or o.open.N is None else [int(k) for k in w.expected() if k.isdigit()]):
                if N is not None:
                    r.syms[o.open.N.args[0]] = N
                try:
                    if r.all3(o.facts) is True and _guard(r, o.st.gpc):
                        hits.append((o, Bad({"C18"} if "wrap" not in o.where() else {"C18", "C19"}, "pp does not fail on documents of encode and decode",
                                            "%s raises %s" % (o.where(), T.show(o.v)[:80]))))
                        break
                except (NoModel, Undefined):
                    continue
        if len(hits) == 1 and hits[0][1] is not None:
            o, e = hits[0]
            k = e.rule
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == 1:
                finding(res, e.props, e.rule, o.where() if o.kind == "raise" else "iso8583/tools.py:pp", e.text, key=e.key, witness=w.describe(), path=conditions(o))
            done += 1
        if hits or not rets:
            for o, x in issues:
                if (id(x)) in seen:
                    continue
                m = Replay(w).model()
                if x.cond is None or effects.confirm(x, m, w):
                    seen[id(x)] = 1
                    finding(res, x.props, x.rule, x.where, x.text, witness=w.describe() if x.cond is not None else None, path=conditions(o))
        if done > 40:
            break


def tier_quick():
    return os.environ.get("VERIF_TIER") != "thorough"


def texts(evs):
    for e in evs:
        if e[0] == "write":
            yield e[2]
        elif e[0] == "alt":
            for c, sub in e[1]:
                for x in c:
                    if isinstance(x, T.Term):
                        yield x
                yield from texts(sub)
        elif e[0] == "loop":
            for b, p in e[1].backs:
                yield from texts(b.event_list(e[1].marker))
