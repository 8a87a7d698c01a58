"""Analysis tasks: one scenario of one entry point, analysed, proved and - where the proof fails - refuted.

Each task returns a plain dictionary, so that tasks can run in parallel processes.
"""
import collections
import hashlib
import os
import signal
import sys
import time
import traceback

from . import terms as T
from .scen import Cfg, Scenario
from .state import subterms

sys.setrecursionlimit(30000)


class Timeout(Exception):
    pass


class Task:
    def __init__(self, kind, name, **kw):
        self.kind, self.name, self.kw = kind, name, kw

    def __repr__(self):
        return "%s %s" % (self.kind, self.name)


# ------------------------------------------------------------------ scenario matrix
PADS = ((None, None), ("x", None), (None, "x"), ("x", "x"), ("", "x"), ("", None), ("x", ""), (None, ""))


def field_cfgs():
    """Every shape of a field's specification entry"""
    out = []
    for var, le in ((False, "text"), (True, "b"), (True, "bcd"), (True, "text")):
        for enc in ("b", "text"):
            for count in (None, "bytes", "nibbles"):
                pads = PADS if enc == "b" and count == "nibbles" else PADS[:1]
                for l, r in pads:
                    out.append(Cfg(enc, var, le, count, l, r))
    # pads configured where they do not apply
    out.append(Cfg("b", True, "b", None, "x", "x"))
    out.append(Cfg("text", True, "text", "nibbles", "x", "x"))
    out.append(Cfg("text", False, "text", "bytes", "x", None))
    return out


def pairs():
    """Two announced fields, analysed one after the other: what the first leaves behind must not
    govern the second"""
    V, C = True, Cfg
    bt, bb = C("b"), Cfg("text")
    lf = C("b", V, "b", "nibbles", "x", None)
    rf = C("b", V, "bcd", "nibbles", None, "x")
    both = C("b", V, "text", "nibbles", "x", "x")
    tv = C("text", V, "text")
    tb = C("text", V, "b", "bytes")
    tc = C("text", V, "bcd", "nibbles")
    bv = C("b", V, "bcd")
    bn = C("b", False, "text", "nibbles")
    out = [(lf, rf, (3, 4), None), (rf, lf, (2, 64), bt), (both, bn, (5, 70), None), (bn, both, (9, 10), bt),
           (tv, tv, (11, 12), None), (tv, tb, (63, 66), None), (tb, tc, (4, 130), bt), (tc, tv, (99, 100), None),
           (bt, bb, (20, 21), None), (bb, bt, (35, 192), bt), (bv, tv, (7, 8), None), (tv, bv, (128, 129), None),
           (bv, lf, (48, 55), bt), (both, tc, (2, 3), None), (lf, lf, (30, 31), None), (bt, bt, (44, 45), bt)]
    more = [(a, b, (3 + 2 * i, 70 + j), None if (i + j) % 2 else bt)
            for i, a in enumerate((bt, bb, lf, rf, both, tv, tb, tc, bv, bn))
            for j, b in enumerate((bt, bb, lf, rf, both, tv, tb, tc, bv, bn))]
    return out, more


PAIRS, MORE_PAIRS = pairs()

# documents with keys that are not fields.  Symbolic keys stand for every key of their class
KEY_CLASSES = [T.mk("key", c, ty="str") for c in ("big", "zero", "arab", "supers", "frac")]
KEYS = [("numbers out of range", KEY_CLASSES[:1] + [T.const(k) for k in ("193", "1000", "0")]),
        ("numbers with leading zeros", KEY_CLASSES[1:2] + [T.const(k) for k in ("02", "0003", "00")]),
        ("other decimal digits", KEY_CLASSES[2:3] + [T.const("\u0663"), T.const("\u0664\u0662"), T.const("1\u0665")]),
        ("digits that are not decimal", KEY_CLASSES[3:] + [T.const("\u00b2"), T.const("\u00bd")]),
        ("names", [T.const(k) for k in ("bm", "", "x2", " 5")]),
        ("text that int() takes", [T.const(k) for k in ("7 ", "+9", "1_0", "-3", "5\n")]),
        ("integers", [T.const(5), T.const(7)]),
        ("None", [T.const(None)]),
        ("bytes", [T.const(b"2")])]
# keys of these classes again, one by one
KEYS += [("some %s" % n, [k for k in ks if k.op == "const"]) for n, ks in KEYS[:4]]
VALUES = ("bytes", "int", "none", "list", "float")


def odd(enc, k):
    """Entry of an element of fixed size; the properties that do not apply to it say something all the same"""
    return (Cfg(enc), Cfg(enc, True, "b"), Cfg(enc, False, "text", "nibbles", "x", "x"), Cfg(enc, True, "bcd", "nibbles", "x", None),
            Cfg(enc, False, "b", "bytes", None, "x"), Cfg(enc, True, "text", None, "x", None), Cfg(enc, False, "bcd", "nibbles"))[k % 7]


def wire_tasks(kind, tier="quick"):
    """Scenarios of decode / encode: every field shape, with the shapes of h, t, p and 1 rotating"""
    cfgs = field_cfgs()
    out = []
    n = len(cfgs)
    for k, c in enumerate(cfgs):
        h = [None, Cfg(cfgs[(k * 7 + 3) % n].enc, *[getattr(cfgs[(k * 7 + 3) % n], a) for a in ("var", "lenenc", "count", "left", "right")]),
             Cfg("text", True, "b")][k % 3]
        t = odd("b" if k % 2 else "text", k)
        p = odd("text" if (k // 2) % 2 else "b", k + k // 7 + 3)
        one = odd("text" if (k + k // 4) % 2 else "b", 2 * k + 5)
        out.append((c, h, t, p, one, k))
    if tier == "thorough":
        k = len(out)
        # every combination of the fixed elements, and every header shape
        for j in range(8):
            out.append((cfgs[(j * 5) % n], None, Cfg("b") if j & 1 else None, Cfg("text") if j & 2 else None, Cfg("text") if j & 4 else None, k + j))
        for j, c in enumerate(cfgs):
            out.append((cfgs[(j * 11 + 2) % n], Cfg(c.enc, c.var, c.lenenc, c.count, c.left, c.right), Cfg("b") if j & 1 else None,
                        Cfg("text") if j & 2 else None, Cfg("text") if j & 4 else None, k + 8 + j))
    tasks = []
    for c, h, t, p, one, k in out:
        name = "fields %s; h %s; t %s; p %s; 1 %s" % (c, h or "off", t or "text", p or "b", one or "b")
        tasks.append(Task(kind, name, cfg=c, h=h, t=t, p=p, one=one, ty=("bytes", "bytearray")[(k + k // 3) % 2], seed=k))
    for n, (a, b, fs, t) in enumerate(PAIRS if tier == "quick" else PAIRS + MORE_PAIRS):
        name = "fields %d %s, %d %s; t %s" % (fs[0], a, fs[1], b, t or "text")
        tasks.append(Task(kind, name, cfg=b, special={str(fs[0]): a}, pair=fs, t=t, seed=1000 + n))
    if kind == "enc":
        for n, (what, keys) in enumerate(KEYS):
            for t in (None, Cfg("b")):
                c = cfgs[(n * 9 + 4 * (t is None)) % len(cfgs)]
                tasks.append(Task(kind, "keys: %s; fields %s; t %s" % (what, c, t or "text"), cfg=c, t=t, doc_extra=tuple(keys), seed=2000 + n))
        for n, v in enumerate(VALUES):
            for c in (Cfg("b"), Cfg("text"), Cfg("b", True, "b", "nibbles", "x", None), Cfg("text", True, "text"))[:4 if v == "bytes" else 2]:
                h = (None, Cfg("b"), Cfg("text", True, "b"))[n % 3]
                tasks.append(Task(kind, "values: %s; fields %s; h %s" % (v, c, h or "off"), cfg=c, h=h, t=(None, Cfg("b"))[n % 2], docval=v, strs=("h", "t"), seed=2100 + n))
            for c, strs in ((None, ()), (Cfg("b"), ()), (None, ("t",)), (Cfg("b"), ("h",))):
                tasks.append(Task(kind, "values: %s; h, t %s; t %s" % (v, c or "text", ", ".join(strs) or "no") + " is text", cfg=cfgs[n], h=c or Cfg("text", True, "b"), t=c, docval=v, strs=strs, seed=2200 + n))
    return tasks


def scenario(task):
    kw = task.kw
    sc = Scenario(task.name, kw["cfg"], h=kw.get("h"), t=kw.get("t"), p=kw.get("p"), one=kw.get("one"))
    if task.kind == "dec":
        sc.ty = kw.get("ty", "bytes")
    for a in ("docval", "strs", "doc_extra", "special", "pair"):
        if a in kw:
            setattr(sc, a, kw[a])
    return sc


# ------------------------------------------------------------------ running one task
def conditions(o, n=14):
    """The conditions of a path, for people"""
    out = []
    for c, v in o.facts:
        s = T.show(c)
        if len(s) > 160:
            s = s[:160] + "..."
        out.append(("" if v else "not ") + s)
        if len(out) >= n:
            out.append("...")
            break
    return out


def run_task(args):
    task, repo, seed, tier, budget = args
    t0 = time.time()
    res = {"task": repr(task), "kind": task.kind, "outcomes": 0, "proved": 0, "unproved": [], "found": [], "error": None,
           "issues": [], "weak": [], "nomodel": [], "worlds": 0, "claims": 0}

    def alarm(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(budget))
    try:
        if task.kind in ("dec", "enc"):
            wire(task, repo, seed, tier, res, t0, budget)
        else:
            from . import extra
            extra.run(task, repo, seed, tier, res, t0, budget)
    except Timeout:
        res["error"] = "analysis exceeded %d s" % budget
    except FileNotFoundError as e:
        res["error"] = "not found: %s" % e
    except MemoryError:
        res["error"] = "out of memory"
    except RecursionError:
        res["error"] = "recursion limit"
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["wall"] = time.time() - t0
    return res


def wire(task, repo, seed, tier, res, t0, budget):
    from . import dec, decp, effects, enc
    sc = scenario(task)
    mod = dec if task.kind == "dec" else enc
    run = mod.Run(repo, sc)
    run.kind = task.kind
    prover = (decp if task.kind == "dec" else enc).Prover(run)
    res["functions"] = sorted(functions(run.i))
    res["outcomes"] = len(run.outs)
    pend, claims = [], {}
    kinds = collections.Counter()
    for o in run.outs:
        kinds[o.kind] += 1
        try:
            cl = prover.prove(o)
        except Timeout:
            raise
        except Exception as e:
            cl = [("proof: %s" % type(e).__name__, False)]
        res["claims"] += len(cl)
        iss = effects.issues(o, run, task.kind)
        bad = [n for n, ok in cl if not ok]
        if not bad:
            res["proved"] += 1
        if bad or iss:
            pend.append(o)
            claims[o] = bad
            o.issues = iss
        if o.st.weak:
            res["weak"] += [w for w in o.st.weak if w not in res["weak"]][:5]
    res["kinds"] = dict(kinds)
    refute = pend
    if tier == "thorough":
        refute = run.outs
    if not run.outs:
        res["error"] = "no outcome"
    if refute:
        found = search(run, refute, pend, task, seed, res, t0, budget, 400 if not pend else None)
        res["found"] = found
    hitbad = {f["outcome"] for f in res["found"]}
    for k, o in enumerate(run.outs):
        if o in claims and claims[o]:
            res["unproved"].append({"where": o.where(), "kind": o.kind, "claims": claims[o][:4],
                                    "weak": bool(o.st.weak), "refuted": k in hitbad,
                                    "nomodel": run.nomodel.get(o, "")[:200]})


def functions(i):
    out = set()
    for f, (file, line) in i.funcs_seen.items():
        out.add("%s:%s" % (file, f))
    return out


ALT = {"dec", "elen", "edata", "accept", "refuse", "post"}


def entries(o):
    """Fields whose specification entry the outcome looks at although it concerns no field in particular"""
    r = getattr(o, "entries", None)
    if r is None:
        r = o.entries = set()
        for t in o.terms():
            for x in subterms(t):
                if x.op in ("enc", "lenenc", "lentype", "maxlen", "cfgpad") and x.args[-1].op == "const":
                    k = T.cval(x.args[-1])
                    if isinstance(k, str) and k.isdigit() and k != "1":
                        r.add(k)
    return r


def search(run, outs, pend, task, seed, res, t0, budget, cap):
    """Look for worlds that witness a mismatch of a pending outcome"""
    from .worlds import Mined
    from . import attrib
    mined = Mined([t for o in pend for t in o.terms()], {o.st.gpc for o in pend})
    limit = min(budget * 0.6, 14 if cap is None else 5) if os.environ.get("VERIF_TIER") != "thorough" else min(budget * 0.6, 40)
    start = time.time()
    sdd = (seed * 1000003 + int(hashlib.sha1(task.name.encode()).hexdigest()[:8], 16)) & 0x7fffffff
    seen = collections.Counter()
    found = []
    index = {id(o): k for k, o in enumerate(run.outs)}
    step = 150
    active = [o for o in outs]
    rounds = 0
    hits = collections.Counter()
    last = None
    while time.time() - start < limit and active and (last is None or time.time() - last < max(4, limit / 4)):
        rounds += 1
        got = run.refute(active, step, sdd + rounds, mined if rounds % 4 else None)
        res["worlds"] += step
        for o, n in run.hits.items():
            hits[id(o)] += n
        for o, x, b, j, m in got:
            w = b.w
            k = (id(o), x.rule, x.key if x.key in ("h", "t", "p", "1") else None, x.kind)
            seen[k] += 1
            if seen[k] > 10:
                continue
            f = {"outcome": index[id(o)], "where": o.where(), "okind": o.kind, "props": sorted(x.props), "rule": x.rule, "text": x.text,
                 "key": x.key, "mkind": x.kind, "n": seen[k], "task": repr(task)}
            last = time.time()
            f["alt"] = attrib.explain(run, task.kind, w, x, o, j, m, run.rebind) if x.kind in ALT and not (x.kind == "accept" and "extra" in x.rule) else []
            if "pair" not in task.kw:
                f["reads"] = sorted(entries(o) - {x.key})
            if seen[k] <= 1:
                f["path"] = conditions(o)
                f["witness"] = w.describe()
            found.append(f)
        if cap is not None and rounds * step >= cap:
            break
        active = [o for o in active if max([seen[k] for k in seen if k[0] == id(o)] or [0]) <= 40]
    res["ambiguous"] = getattr(run, "ambiguous", 0)
    res["hits"] = len(hits)
    return found
