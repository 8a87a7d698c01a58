"""Command line: run the analysis tasks of a property, collect obligations, report violations."""
import collections
import json
import multiprocessing
import os
import re
import time

from . import tasks as TS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# tasks by property: which entry points have to be analysed to decide it
NEED = {
    "C01": ("dec",), "C02": ("enc",), "C03": ("dec",), "C04": ("enc",), "C05": ("dec",), "C06": ("enc",),
    "C07": ("dec",), "C08": ("enc",), "C09": ("dec", "enc"), "C10": ("dec", "enc"), "C11": ("dec", "enc", "pp"),
    "C12": ("dec", "enc"), "C13": ("dec", "enc", "pp"), "C14": ("dec", "enc"), "C15": ("dec",), "C16": ("enc",),
    "C21": ("dec",), "C22": ("dec", "enc"), "C23": ("dec", "enc"), "C24": ("dec", "enc"), "C25": ("dec", "enc"),
    "C27": ("dec", "enc"), "C17": ("err",), "C20": ("specs",),
    "C18": ("pp",), "C19": ("pp",),
}
ALWAYS = ("C01", "C02")


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) site=(\S+) rule=\"([^\"]*)\" (.*)", l)
            if m:
                out.append(m.groups())
    return out


def tasks_for(prop, tier):
    out = []
    for k in NEED[prop]:
        if k in ("dec", "enc"):
            out += TS.wire_tasks(k, tier)
        else:
            from . import extra
            out += extra.tasks(k, tier, prop)
    return out


def run_all(tasks, repo, seed, tier, budget, jobs):
    args = [(t, repo, seed, tier, budget) for t in tasks]
    if jobs <= 1 or len(args) == 1:
        return [TS.run_task(a) for a in args]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(jobs, len(args)), maxtasksperchild=6) as pool:
        return pool.map(TS.run_task, args, chunksize=1)


def violations(prop, results):
    """Findings of this property: (rule, where) -> example"""
    out = {}
    swaps = collections.defaultdict(list)
    for r in results:
        plain = {(f["key"], f["mkind"]) for f in r["found"] if f["okind"] != "raise"}
        for f in r["found"]:
            props = set(f["props"])
            for q in ("C15?", "C16?"):
                if q in props:
                    props.discard(q)
                    if (f["key"], f["mkind"]) not in plain:
                        props.add(q[:-1])
            swaps[(r["task"], f["outcome"], f["rule"], f["mkind"])].append(f)
            if prop in props:
                k = (f["rule"], f["where"])
                if k not in out or "witness" in f and "witness" not in out[k]:
                    out[k] = f
    if prop == "C24":
        for k, fs in swaps.items():
            if len(fs) < 5:
                continue
            common = set(fs[0].get("alt") or ())
            for f in fs[1:]:
                common &= set(f.get("alt") or ())
            if common:
                f = dict(next((x for x in fs if "witness" in x), fs[0]))
                f["text"] += "; explained by the entry of another element: %s" % ", ".join(sorted(common))
                out.setdefault(("element governed by another element's entry", f["where"]), f)
            reads = set(fs[0].get("reads") or ())
            for f in fs[1:]:
                reads &= set(f.get("reads") or ())
            if reads:
                f = dict(next((x for x in fs if "witness" in x), fs[0]))
                f["text"] += "; depends on the entry of another element: %s" % ", ".join(sorted(reads))
                out.setdefault(("element depends on another element's entry", f["where"]), f)
    return out


def main(argv):
    prop, tier, repo, show = None, os.environ.get("VERIF_TIER", "quick"), "/repo", False
    k = 0
    while k < len(argv):
        if argv[k] == "--tier":
            tier = argv[k + 1]
            k += 1
        elif argv[k] == "--repo":
            repo = argv[k + 1]
            k += 1
        elif argv[k] == "--show":
            show = True
        else:
            prop = argv[k]
        k += 1
    if prop == "ALL":
        return everything(tier, repo)
    if prop not in NEED:
        print("unknown property %s" % prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tasks = tasks_for(prop, tier)
    budget = 60 if tier == "quick" else 200
    results = run_all(tasks, repo, seed, tier, budget, os.cpu_count() or 4)
    return report(prop, tier, seed, results, t0, repo)


def report(prop, tier, seed, results, t0, repo, quiet=False):
    vs = violations(prop, results)
    known = known_findings()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code = 0
    n = 0
    lines = []
    for (rule, where), f in sorted(vs.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        site = re.sub(r":\d+$", "", str(where))
        hit = [kf for kf in known if kf[0] == prop and kf[1] == site and kf[2] == rule]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][3]))
            continue
        n += 1
        path = os.path.join(HERE, "evidence", "violation-%s-%d.json" % (prop, n))
        with open(path, "w") as fh:
            json.dump({"property": prop, "rule": rule, "where": where, "text": f["text"], "scenario": f["task"], "path": f.get("path"),
                       "witness": f.get("witness")}, fh, indent=1, default=repr)
        lines.append("%s: %s: %s" % (where, rule, f["text"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    outs = sum(r["outcomes"] for r in results)
    proved = sum(r["proved"] for r in results)
    unproved = [dict(u, task=r["task"]) for r in results for u in r["unproved"]]
    errors = [{"task": r["task"], "error": r["error"]} for r in results if r["error"]]
    weak = sorted({w for r in results for w in r["weak"]})
    funcs = sorted({f for r in results for f in r.get("functions", ())})
    ob = outs + sum(r.get("obligations", 0) for r in results)
    dis = proved + sum(r.get("discharged", 0) for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level(prop),
        "coverage": {
            "obligations": ob + len(errors), "discharged": dis,
            "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
            "trusted_base": TRUSTED,
            "explanation": EXPLAIN,
            "tasks": len(results), "tasks_without_result": errors[:10],
            "path_summaries": outs, "claims_checked": sum(r["claims"] for r in results),
            "undecided": len(unproved), "undecided_samples": unproved[:6],
            "imprecision": weak[:8],
            "functions_analysed": funcs,
            "valuations_tried": sum(r["worlds"] for r in results),
            "samples": [r["task"] for r in results[:3]],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2), "violations": n,
    }
    for r in results:
        for k, v in (r.get("extra") or {}).items():
            ev["coverage"].setdefault(k, v)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    if not quiet:
        for l in lines:
            print(l)
        print("%s: %d obligations, %d discharged, %d undecided, %d tasks (%d failed), %.1f s" %
              (prop, ob + len(errors), dis, len(unproved), len(results), len(errors), time.time() - t0))
    return code if not quiet else (code, lines, ev)


TRUSTED = ["the abstract interpreter (absint/interp.py, calls.py, lib.py, loops.py, classes.py) and its model of Python and its library",
           "the normal forms and case splits of absint/terms.py, state.py, bdd.py",
           "the description of the wire format (absint/decp.py, enc.py Format classes; absint/ref.py for refutation)"]
EXPLAIN = ("Every path summary of the entry point (return, raise, one iteration of each loop, per shape of the specification) is an obligation; "
           "it is discharged when its values and conditions are identical, by normal form, to those the wire format requires. "
           "A violation is reported only for an undischarged summary together with a valuation of its symbols under which it differs.")
ASSUME = ["text codecs of the platform produce at least one byte per decimal digit and are deterministic",
          "specification entries are well formed: mandatory properties present, len_type >= 0, pads are strings",
          "no asynchronous exceptions, no memory exhaustion, no monkey patching"]


def level(prop):
    return "proof" if prop in PROOF else "other"


PROOF = {"C18", "C19", "C17", "C20", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C23", "C25", "C27", "C12", "C13", "C21", "C22", "C24"}


def everything(tier, repo):
    """All properties at once (development): every task runs once"""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cache, byprop = {}, {}
    todo = []
    for p in sorted(NEED):
        ts = tasks_for(p, tier)
        byprop[p] = [repr(t) for t in ts]
        for t in ts:
            if repr(t) not in cache:
                cache[repr(t)] = None
                todo.append(t)
    for t, r in zip(todo, run_all(todo, repo, seed, tier, 60 if tier == "quick" else 200, os.cpu_count() or 4)):
        cache[repr(t)] = r
    rc = 0
    for p in sorted(NEED):
        rs = [cache[n] for n in byprop[p]]
        code, lines, ev = report(p, tier, seed, rs, t0, repo, quiet=True)
        c = ev["coverage"]
        print("%s %s ob %d dis %d und %d err %d" % (p, "VIOLATED" if code else "ok", c["obligations"], c["discharged"], c["undecided"], len(c["tasks_without_result"])))
        for l in lines[:3]:
            if not l.startswith("VIOLATION"):
                print("    " + l[:230])
        rc |= code
    errs = collections.Counter(r["error"][-300:] for r in cache.values() if r["error"])
    for e, n in errs.most_common(4):
        print("ERROR", n, e)
    wk = collections.Counter(w for r in cache.values() for w in r["weak"])
    for e, n in wk.most_common(4):
        print("WEAK", n, e[:200])
    nm = collections.Counter(u["nomodel"] for r in cache.values() for u in r["unproved"])
    for e, n in nm.most_common(4):
        print("NOMODEL", n, e[:200])
    un = collections.Counter((str(u["where"]), str(u["claims"])[:100]) for r in cache.values() for u in r["unproved"] if not u["refuted"])
    for e, n in un.most_common(6):
        print("UNDECIDED", n, e)
    print("tasks %d, %.1f s" % (len(todo), time.time() - t0))
    return rc
