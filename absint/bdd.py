"""Reduced ordered BDDs: the domain of guards ("bit n of this bitmap is set", "key n is present").

Nodes are hash-consed ints; 0 = False, 1 = True.  Variables are registered by name, in order of
first use."""
import sys
sys.setrecursionlimit(20000)

FALSE, TRUE = 0, 1
_nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]          # (var, lo, hi)
_uniq = {}
_vars = {}
_names = []
_ite = {}


def var_index(name):
    i = _vars.get(name)
    if i is None:
        i = _vars[name] = len(_names)
        _names.append(name)
    return i


def var_name(i):
    return _names[i]


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = _uniq[k] = len(_nodes)
        _nodes.append(k)
    return n


def var(name):
    return _mk(var_index(name), FALSE, TRUE)


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(_nodes[f][0], _nodes[g][0], _nodes[h][0])

    def co(n, b):
        nd = _nodes[n]
        return nd[2 if b else 1] if nd[0] == v else n
    r = _mk(v, ite(co(f, 0), co(g, 0), co(h, 0)), ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite[k] = r
    return r


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def not_(a):
    return ite(a, FALSE, TRUE)


def xor_(a, b):
    return ite(a, not_(b), b)


def implies(a, b):
    """a -> b is valid"""
    return and_(a, not_(b)) == FALSE


def equiv_under(pc, a, b):
    return and_(pc, xor_(a, b)) == FALSE


def any_(gs):
    r = FALSE
    for g in gs:
        r = or_(r, g)
    return r


def all_(gs):
    r = TRUE
    for g in gs:
        r = and_(r, g)
    return r


def at_least(gs, k, limit=64):
    """At least k of the conditions hold; None when that is too wide to represent"""
    if k <= 0:
        return TRUE
    if k > len(gs):
        return FALSE
    if min(k, len(gs) - k + 1) * len(gs) > limit * 8:
        return None
    if k == 1:
        return any_(gs)
    if k == len(gs):
        return all_(gs)
    row = [TRUE] + [FALSE] * k
    for g in gs:
        for j in range(k, 0, -1):
            row[j] = ite(g, row[j - 1], row[j])
    return row[k]


def support(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _nodes[x]
        out.add(_names[v])
        st += [lo, hi]
    return out


def show(n, limit=6):
    if n == TRUE:
        return "always"
    if n == FALSE:
        return "never"
    s = sorted(map(str, support(n)))
    if len(s) == 1:
        return ("" if n == var(next(iter(support(n)))) else "not ") + s[0]
    return "f(%s%s)" % (", ".join(s[:limit]), ", ..." if len(s) > limit else "")


def one_model(n):
    """A satisfying partial assignment (list of (name, bool)), for diagnostics."""
    out = []
    while n > 1:
        v, lo, hi = _nodes[n]
        if hi != FALSE:
            out.append((_names[v], True)); n = hi
        else:
            out.append((_names[v], False)); n = lo
    return out
