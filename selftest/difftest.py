"""Compares the abstract interpreter with CPython on small functions (development only: no check uses it).

  python3 selftest/difftest.py [FILE ...] [-k NAME] [-n SEEDS] [-v]     functions of corpus files (default: selftest/corpus_*.py)
  python3 selftest/difftest.py --gen N [--seed S]                       N random functions

Each function is interpreted once over symbols; then, for many concrete arguments, the outcome whose conditions
hold is evaluated and compared with what CPython returns or raises.  Three kinds of disagreement are reported:
  WRONG    exactly one outcome applies and its value (or exception) differs
  MISSING  no outcome applies although all of them could be evaluated
  CRASH    the interpreter itself failed
A function without any definite answer is counted as undecided.
Parameters are named by type: s, s2 bytes; b bytearray; u, u2 str; n, k int; x any.
"""
import argparse
import glob
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from absint import scen as S                                   # noqa: E402
from absint import terms as T                                  # noqa: E402
from absint.evalt import Model, NoModel, Undefined             # noqa: E402
from absint.outcome import collect, match, conc, Marker, Inst  # noqa: E402

TYPES = {"s": "bytes", "b": "bytes", "u": "str", "n": "int", "k": "int", "x": "any"}
BYTES = [b"", b"0", b"12", b"0200", b"0800abcd", b"\x00", b"\xff\x80", b"\x10\x02", b"a", b"ab12", b"zz zz", b" 12", b"00000012", b"\x82\x20\x00\x00\x00\x00\x00\x00",
         b"0" * 40, bytes(range(20)), b"+1", b"1_0", b"\xf1\xf2", b"AbCdEf01", b"12345"]
STRS = ["", "0", "12", "0200", "abc", "ABCDEF", "aB1", " 12", "12 ", "+5", "1_0", "\u0661\u0662", "\u00b2", "\u20ac", "h", "t", "p", "128", "002", "-3", "zz",
        "0" * 30, "a:b:c", "a,b", "x=1", "\n", "fF", "é", "12345"]
INTS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 300, -1, -2, -5]


class Skip(Exception):
    pass


def args_for(names, r, consts):
    out = {}
    for p in names:
        ty = TYPES[p[0]]
        pool = {"bytes": BYTES, "str": STRS, "int": INTS, "any": STRS}[ty]
        q = [c for c in consts if type(c).__name__ == ty]
        if q and r.random() < 0.3:
            v = r.choice(q)
            if ty == "int":
                v += r.choice((-1, 0, 0, 1))
            elif r.random() < 0.4:
                v = v + r.choice(pool) if r.random() < 0.5 else r.choice(pool) + v
        elif r.random() < 0.15 and ty != "int":
            m = r.randrange(12)
            v = bytes(r.choice((r.randrange(256), 48 + r.randrange(10))) for _ in range(m)) if ty == "bytes" else \
                "".join(r.choice("0123456789abcdefABCxyz -+_\u0663\u00e9") for _ in range(m))
        elif r.random() < 0.3 and ty == "int":
            v = r.randrange(-3, 40)
        else:
            v = r.choice(pool)
        out[p] = v
    return out


def wrap(names, v):
    return {p: bytearray(v[p]) if p[0] == "b" else v[p] for p in names}


def norm(v):
    if isinstance(v, Inst) or isinstance(v, Marker):
        raise Skip("object")
    if isinstance(v, dict):
        if getattr(v, "loops", ()):
            raise Skip("dict filled by a loop")
        return ("dict", tuple((norm(k), norm(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(norm(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(norm(x) for x in v))
    if isinstance(v, memoryview):
        return ("memoryview", bytes(v))
    if v is None or isinstance(v, (bool, int, str, bytes, bytearray)):
        return (type(v).__name__, bytes(v) if isinstance(v, bytearray) else v)
    raise Skip("value of type %s" % type(v).__name__)


def truth(f, a):
    try:
        return ("ret", norm(f(**a)))
    except Skip:
        raise
    except RecursionError:
        raise Skip("recursion") from None
    except Exception as e:
        return ("raise", type(e).__name__)


class Alarm(Exception):
    pass


def alarm(*a):
    raise Alarm()


def one(i, st0, mod, name, f, names, seeds, seed, verbose):
    """-> ('ok'|'und'|'WRONG'|'MISSING'|'CRASH'|'slow', text)"""
    st = st0.copy()
    sc = S.Scenario("t", S.Cfg())
    args = []
    for p in names:
        t = T.sym("a_" + p, TYPES[p[0]])
        if p[0] == "b":
            t = None
        args.append(t)
    fn = S.func(i, st, mod, name)
    u0 = len(i.undecided)
    try:
        signal.setitimer(signal.ITIMER_REAL, 20)
        vals = []
        for p, t in zip(names, args):
            if t is None:
                t = new_bytearray(i, st, T.sym("a_" + p, "bytes"))
            vals.append(t)
        rets, raises = S.call(i, st, sc, fn, vals)
        outs, recs = collect(i, rets, raises)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Alarm:
        return "slow", ""
    except Exception:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "CRASH", traceback.format_exc()[-900:]
    rng = random.Random("%s %s" % (seed, name))
    from absint.evalt import consts_of
    cs = set()
    for o in outs:
        for v in consts_of(o.terms()).values():
            cs |= v
    cs = sorted((c for c in cs if not isinstance(c, int) or abs(c) < 10 ** 6), key=str)[:60]
    definite = 0
    und = {}
    nested = any(x.closed for r in recs for x in outs if x.kind == "iter" and x.rec is r)
    backs = {r: [o for o in outs if o.kind == "iter" and o.rec is r] for r in recs}
    plain = [o for o in outs if o.kind != "iter"]
    for _ in range(seeds):
        v = args_for(names, rng, cs)
        try:
            want = truth(f, wrap(names, v))
        except Skip as e:
            return "und", str(e)

        def pick(m, t, key):
            if key[0] == "sym" and key[1].startswith("a_"):
                return v[key[1][2:]]
            if key[0] == "sym" and key[1] in env:
                return env[key[1]]
            if key[0] == "guard":
                raise NoModel("guard %s" % (key[1],))
            raise NoModel(str(key))
        env = {}
        hits, open_ = [], False

        def test(o):
            """does the outcome apply?  None: cannot tell"""
            if o.st.weak:
                und["weak"] = und.get("weak", 0) + 1
                return None, None
            m = Model(pick)
            try:
                return match(o, m), m
            except Undefined:
                return False, m
            except NoModel as e:
                und[str(e)] = und.get(str(e), 0) + 1
                return None, m
        todo = [((), {})]
        n = 0
        while todo:
            done, env = todo.pop()
            nexts = []
            for o in plain:
                c = tuple(o.closed)
                if c[:len(done)] != done:
                    continue
                if c == done and o.open is None:
                    ok, m = test(o)
                    if ok:
                        hits.append((o, m, dict(env)))
                    elif ok is None:
                        open_ = True
                else:
                    r = (c + ((o.open,) if o.open is not None else ()))[len(done)]
                    if r not in nexts:
                        nexts.append(r)
            for r in nexts:
                if nested:
                    open_ = True
                    und["nested loop"] = und.get("nested loop", 0) + 1
                    continue
                e0 = dict(env)
                try:
                    m = Model(pick)
                    e1 = dict(env)
                    for sym, val in r.phis.items():
                        e1[sym.args[0]] = m.ev(val)
                except NoModel as e:
                    und[str(e)] = und.get(str(e), 0) + 1
                    open_ = True
                    continue
                except Undefined:
                    continue
                if not r.stable or r.kind in ("items", "unknown"):
                    open_ = True
                    und["loop kind " + r.kind] = und.get("loop kind " + r.kind, 0) + 1
                    continue
                env = e1
                for step in range(320):
                    for o in plain:
                        if o.open is r and tuple(o.closed) == done:
                            ok, m = test(o)
                            if ok:
                                hits.append((o, m, dict(env)))
                            elif ok is None:
                                open_ = True
                    app = []
                    for o in backs[r]:
                        ok, m = test(o)
                        if ok:
                            app.append((o, m))
                        elif ok is None:
                            open_ = True
                    if not app:
                        break
                    new = None
                    for o, m in app:
                        try:
                            e2 = dict(env)
                            for sym in r.phis:
                                if sym in o.posts:
                                    e2[sym.args[0]] = conc(o.st, m, o.posts[sym])
                            if new is not None and new != e2:
                                open_ = True
                                und["several backs"] = und.get("several backs", 0) + 1
                            new = e2
                        except (NoModel, Undefined) as e:
                            und[str(e)] = und.get(str(e), 0) + 1
                            open_ = True
                    if new is None:
                        break
                    # the loop may also be left here
                    todo.append((done + (r,), env))
                    env = new
                    n += 1
                    if n > 2000:
                        open_ = True
                        break
                todo.append((done + (r,), env))
                env = e0
        got = []
        for o, m, env in hits:
            try:
                if o.kind == "ret":
                    got.append(("ret", norm(conc(o.st, m, o.v))))
                else:
                    c = o.classes()
                    if c is None:
                        raise NoModel("exception class")
                    got.append(("raise", c))
            except (NoModel, Skip) as e:
                und[str(e)] = und.get(str(e), 0) + 1
                got.append(None)
            except Undefined as e:
                got.append(("undefined", str(e)))

        def agree(g):
            if g[0] == "ret":
                return g == want
            if g[0] == "raise":
                return want[0] == "raise" and (g[1][0].split(".")[-1] == want[1] or want[1] in [x.split(".")[-1] for x in g[1]] or
                                               issub(want[1], g[1]))
            return False
        g1 = [g for g in got if g is not None]
        if not hits and not open_:
            return "MISSING", "args %r: CPython %s %s\n%s" % (v, want[0], want[1], show(outs, verbose))
        if len(hits) == 1 and not open_ or len(hits) == 1 and g1:
            if g1 and not agree(g1[0]) and (hits[0][0].kind != "raise" or True):
                return "WRONG", "args %r: CPython %r, analysis %r\n%s" % (v, want, g1[0], show([hits[0][0]], True))
            if g1 and not open_:
                definite += 1
        elif len(hits) > 1:
            if not any(g is None or agree(g) for g in got) and not open_:
                return "WRONG", "args %r: CPython %r, analysis %r" % (v, want, got)
            und["several"] = und.get("several", 0) + 1
    if definite >= seeds * 0.9:
        return "ok", ""
    return ("part" if definite else "und"), "%d of %d definite; %s %s" % (definite, seeds, sorted({str(x) for x in i.undecided[u0:]})[:4], sorted(und.items(), key=lambda x: -x[1])[:3])


def issub(name, classes):
    import builtins
    import binascii
    c = getattr(builtins, name, None) or getattr(binascii, name, None)
    d = getattr(builtins, classes[0].split(".")[-1], None)
    return isinstance(c, type) and isinstance(d, type) and issubclass(c, d)


def show(outs, verbose):
    if not verbose:
        return "   " + str([(o.kind, o.where()) for o in outs])
    r = []
    for o in outs:
        r.append("   %s %s %s  facts %s gpc %s les %s" % (o.kind, o.where(), T.show(o.v)[:200] if o.v is not None else "",
                                                      {T.show(c)[:80]: y for c, y in o.facts}, o.st.gpc, [T.show(x) for x in o.st.les][:8]))
    return "\n".join(r)


def new_bytearray(i, st, t):
    from absint.heap import BArrO
    a = ("arg", "ba", t)
    st.heap[a] = BArrO(t)
    return T.mk("ref", a, ty="ref")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="*")
    ap.add_argument("-k")
    ap.add_argument("-n", type=int, default=120)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--gen", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--keep")
    a = ap.parse_args()
    signal.signal(signal.SIGALRM, alarm)
    d = tempfile.mkdtemp(prefix="difftest")
    try:
        os.mkdir(d + "/iso8583")
        open(d + "/iso8583/__init__.py", "w").close()
        if a.gen:
            from gen import program
            srcs = [program(a.gen, a.seed)]
            if a.keep:
                open(a.keep, "w").write(srcs[0])
        else:
            srcs = [open(x).read() for x in (a.files or sorted(glob.glob(HERE + "/corpus_*.py")))]
        tot = {}
        for k, src in enumerate(srcs):
            mod = "snip%d" % k
            with open(d + "/iso8583/%s.py" % mod, "w") as fh:
                fh.write(src)
            env = {"__name__": mod}
            exec(compile(src, mod, "exec"), env)
            i, st = S.boot(d, ["iso8583." + mod])
            for name, f in list(env.items()):
                if not callable(f) or not getattr(f, "__module__", None) == mod or name.startswith("_") or isinstance(f, type):
                    continue
                if a.k and a.k not in name:
                    continue
                names = f.__code__.co_varnames[:f.__code__.co_argcount]
                if any(p[0] not in TYPES for p in names):
                    continue
                v, text = one(i, st, "iso8583." + mod, name, f, names, a.n, a.seed, a.v)
                tot[v] = tot.get(v, 0) + 1
                if v not in ("ok",) and (v.isupper() or a.v or a.k):
                    print("%s %s %s" % (v, name, text))
                    if v.isupper() and a.gen:
                        import inspect
                        import re
                        mm = re.search(r"^def %s\(.*?(?=^def |\Z)" % name, src, re.S | re.M)
                        print(mm.group(0))
                    sys.stdout.flush()
        print(tot)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
