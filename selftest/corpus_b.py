import enum
import functools
import struct
import binascii
from typing import NamedTuple, Optional
from dataclasses import dataclass, field


class _Err(ValueError):
    def __init__(self, msg, key):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class _Err2(_Err):
    pass


class _Ctx(NamedTuple):
    s: bytes
    pos: int = 0


@dataclass
class _DC:
    n: int
    items: list = field(default_factory=list)
    k: Optional[int] = None

    def add(self, x):
        self.items.append(x)
        self.n += 1
        return self

    @property
    def total(self):
        return self.n + len(self.items)


@dataclass(frozen=True)
class _FZ:
    a: int
    b: str = "x"


class _Color(enum.Enum):
    RED = "r"
    BLUE = "b"


class _Reader:
    def __init__(self, s):
        self._s = s
        self._i = 0

    def take(self, n):
        if n < 0:
            raise ValueError("neg")
        r = self._s[self._i:self._i + n]
        if len(r) != n:
            raise _Err("short", "k")
        self._i += n
        return r

    @property
    def rest(self):
        return len(self._s) - self._i

    def __len__(self):
        return self.rest

    def __bool__(self):
        return self.rest > 0


def reader(s):
    r = _Reader(s)
    a = r.take(2)
    b = r.take(int.from_bytes(a, "big") % 3)
    return a, b, r.rest


def reader2(s):
    r = _Reader(s)
    out = []
    try:
        while True:
            out.append(r.take(3))
    except _Err as e:
        return len(out) if False else (e.key, e.msg, str(e), e.args)


def reader3(s):
    r = _Reader(s)
    n = 0
    while r:
        r.take(1)
        n += 1
    return n, len(r)


def ctx1(s, n):
    c = _Ctx(s, n)
    c2 = c._replace(pos=c.pos + 1)
    a, b = c2
    return a, b, c.pos, c2[1], _Ctx(s).pos, c == (s, n)


def dc1(n):
    d = _DC(n)
    d.add(1).add(n)
    return d.n, d.items, d.total, d.k


def dc2(n):
    return _FZ(n) == _FZ(n, "x"), _FZ(n) == _FZ(3), _FZ(n).b


def dc3(n):
    f = _FZ(n)
    try:
        f.a = 1
    except AttributeError:
        return "frozen"
    return "set"


def en(u):
    try:
        c = _Color(u)
    except ValueError:
        return None
    return c is _Color.RED, c.value, c.name, c == _Color.BLUE


def err1(n):
    try:
        if n:
            raise _Err2("m", n)
    except _Err as e:
        return e.key, isinstance(e, ValueError), type(e) is _Err2
    return 0


def err2(n):
    try:
        try:
            int("x")
        except ValueError as e:
            if n > 2:
                raise _Err("a", "b") from e
            raise
    except _Err as e:
        return "E", e.__cause__ is not None
    except ValueError:
        return "V"


def err3(u):
    try:
        return {"a": 1, "b": 2}[u]
    except KeyError as e:
        return e.args[0]
    finally:
        pass


def err4(s):
    try:
        return s.decode("ascii")
    except UnicodeDecodeError as e:
        return "dec"
    except ValueError:
        return "val"


def err5(s):
    try:
        return s.decode("ascii")
    except Exception as e:
        return type(e).__name__


def err6(u):
    try:
        return bytes.fromhex(u)
    except Exception as e:
        raise _Err(f"bad {u}", u) from None


def err7(u):
    try:
        return binascii.a2b_hex(u)
    except (binascii.Error, UnicodeError) as e:
        return "bad"


def err8(n):
    for k in range(3):
        try:
            if k == n:
                raise KeyError(k)
        except KeyError:
            break
    else:
        return "all"
    return k


def err9(n):
    def check(cond, msg):
        if not cond:
            raise _Err(msg, n)
    check(n > 0, "pos")
    check(n < 10, "ten")
    return n


def els(u):
    try:
        n = int(u)
    except ValueError:
        r = "bad"
    else:
        r = n
        if n > 5:
            r = "big"
    finally:
        z = 1
    return r, z


def fnt(u, n):
    table = {"a": lambda x: x + 1, "b": lambda x: x * 2}
    f = table.get(u)
    if f is None:
        return None
    return f(n)


def disp(u, n):
    def one(x):
        return x - 1

    def two(x, y=2):
        return x ** y if x < 10 else 0
    for name, f in (("a", one), ("b", two), ("h", str)):
        if u == name:
            return f(n)
    return "none"


def part(n, k):
    f = functools.partial(max, n)
    g = functools.partial(int, base=16)
    return f(k), g("ff")


def red(n, k):
    return functools.reduce(lambda a, b: a * 3 + b, [n, k, 2], 1)


@functools.lru_cache(maxsize=None)
def _cached(n):
    return n + 1


def cach(n):
    return _cached(n), _cached(n)


def st1(s):
    a, b = struct.unpack_from(">HB", s)
    return a, b


def st2(s):
    return struct.unpack(">8B", s)


def st3(s):
    (m,) = struct.unpack(">Q", s)
    return m >> 56, bool(m & (1 << 63))


def st4(n):
    return struct.pack(">Q", n)


def st5(n):
    return struct.pack(">HB", n, 1)


def bit1(s):
    m = int.from_bytes(s[:8], "big")
    return {k: bool(m >> (64 - k) & 1) for k in range(1, 65) if k in (1, 2, 7, 64)}


def bit2(s):
    b = s[:2]
    return "".join(f"{c:08b}" for c in b) if len(b) == 2 else ""


def bit3(s):
    return bin(int.from_bytes(b"\x01" + s[:2], "big"))[3:]


def bit4(s):
    return [8 * i + j + 1 for i, c in enumerate(s[:2]) for j in range(8) if c & (128 >> j)]


def bit5(n, k):
    m = 0
    for x in (n, k):
        if 0 < x <= 16:
            m |= 1 << (16 - x)
    return m.to_bytes(2, "big"), m


def bit6(n, k):
    fields = {n, k}
    return bytes(sum(1 << (7 - j) for j in range(8) if 8 * i + j + 1 in fields) for i in range(2))


def bit7(n, k):
    bits = ["0"] * 16
    for x in (n, k):
        if 1 <= x <= 16:
            bits[x - 1] = "1"
    return int("".join(bits), 2).to_bytes(2, "big")


def bit8(n):
    r = bytearray(2)
    i, j = divmod(n - 1, 8)
    if 0 <= i < 2:
        r[i] |= 1 << (7 - j)
    return r


def num1(n):
    return f"{n:03d}", "%03d" % n, str(n).zfill(3), "{:03}".format(n), "{0:>3}".format(n), format(n, "03")


def num2(n):
    return f"{n:02X}", "%02x" % n, hex(n), f"{n:#x}", f"{n:b}", oct(n)


def num3(n):
    return f"{n:,}", f"{n!s:>5}", f"{n:+d}", f"{n: d}", f"{n:<4}|", f"{n:^5}|", f"{n:*^5}"


def num4(u):
    return f"{u:>5}|{u:<5}|{u:^5}|{u:*>4}|{u:.2}|{u:5.1}|{u!r}"


def num5(n, k):
    return f"{n:>{k}}", f"{n:0>{k}}"


def num6(n, u):
    return "%s-%r-%d" % (u, u, n), "%5s|%-5s|" % (u, u), "%(a)s" % {"a": n}, "%%"


def num7(n, u):
    return "{a} {b!r}".format(a=n, b=u), "{0}{1}{0}".format(n, u), "{}".format(u), "{:>{w}}".format(u, w=4)


def len1(s, u):
    return len(s) // 2, len(u) % 2, (len(s) + 1) // 2, len(s) * 2 - 1, -(-len(s) // 2), len(s) >> 1, len(s) & 1


def len2(s, n):
    if len(s) < n:
        return "short"
    if len(s) > n:
        return "long"
    return s[n - 1:], s[:n]


def len3(s):
    if not s:
        return 0
    return s[0], s[-1], s[len(s) - 1], s[len(s) // 2]


def len4(u):
    if len(u) % 2:
        u = "0" + u
    return bytes.fromhex(u)


def sl1(s, n, k):
    return s[n:k]


def sl2(u, n):
    return u[n:], u[:n]


def sl3(u, n):
    return u[-n:], u[:-n]


def sl4(s, n):
    return s[n:n + 3][1:], s[2:][n:]


def sl5(u):
    return u[:3] + u[3:] == u, u[:2] + u[4:], u[1:-1]


def sl6(s):
    a, b = s[:2], s[2:4]
    return a + b, b + a, a == b, (a + b)[1:3]


def cat(u, u2):
    return u + u2, u + "-" + u2, (u + u2)[:3], (u + u2)[len(u):] == u2, len(u + u2)


def catb(s, s2):
    r = s + s2
    return r[:len(s)] == s, r[len(s):], bytearray(s) + s2, s + bytearray(s2)


def dig1(u):
    return u.isdigit() and u.isascii(), u.isdecimal(), u.isalnum(), u.isalpha(), u.isspace(), u.isupper(), u.islower()


def dig2(u):
    if not u.isascii() or not u.isdigit():
        raise _Err("not digits", u)
    return int(u)


def dig3(s):
    try:
        t = s.decode("ascii")
    except UnicodeDecodeError:
        return -1
    return int(t) if t.isdigit() else -2


def dig4(s):
    return int(s, 16)


def dig5(u):
    return int(u, 16)


def dig6(u):
    return set(u) <= set("0123456789"), set(u) - set("abc") == set()


def dig7(s):
    return int(s.hex())


def dig8(s):
    h = s[:2].hex()
    if not h.isdigit():
        return None
    return int(h)


def dig9(s):
    return [c - 48 for c in s[:3]], all(0x30 <= c < 0x3A for c in s[:3])


def strip(u):
    return u.strip(), u.lstrip(), u.rstrip("0 "), u.strip("h"), u.lstrip("0") or "0"


def stripb(s):
    return s.strip(), s.lstrip(b"0"), s.rstrip(b"\0")


def spl(u):
    a, _, b = u.partition(":")
    return a, b


def spl2(u):
    return u.rpartition(":"), u.split(","), u.split(":", 1), u.splitlines()


def pad1(u, n):
    return u.rjust(n, "0")[-n:] if n > 0 else u


def pad2(u):
    return u + "F" if len(u) % 2 else u


def pad3(u):
    return ("0" * (len(u) % 2)) + u, "0" * 0, "ab" * 3


def pad4(u, n):
    return "0" * (n - len(u)) + u


def pad5(s, n):
    return s.ljust(n, b"\0"), s.rjust(4, b"0"), s.zfill(6), s.center(5)


def up(u, s):
    return u.upper() == u, u.lower(), s.upper(), s.hex().upper(), u.casefold(), u.swapcase()


def sw(u):
    if u[:1] in "0F":
        return "pad"
    return u[:1]


def sw2(u):
    if u.startswith("0") or u.endswith("F"):
        return u[1:]
    return u[:-1]


def sw3(u, u2):
    return u.startswith(u2), u.endswith(u2), u.startswith(("a", u2)), u.find(u2), u2 in u


def idx(u):
    return u.index("0")


def idx2(u, u2):
    return u.count(u2), u.replace(u2, "-"), u.replace("0", "1", 1)


def ch(n):
    return bytes([n]), chr(n)


def ch2(n, k):
    return bytearray([n, k])


def orr(n, k, u):
    return n or k or "z", n and k and "y", not (n and u), (n or u) == n


def cmp3(n, k):
    return (n > k) - (n < k), n is None, (n, k) < (3, 4), [n] == [k], (n, 1) == (k, 1)


def none(n):
    x = None if n > 3 else n
    if x is None:
        return "none"
    return x + 1


def opt(n=None, k=2):
    return n, k


def dflt(n):
    def g(a, *, b=n, **kw):
        return a, b, sorted(kw.items())
    return g(1), g(1, b=2), g(1, c=3, **{"d": 4})


def star(n, k):
    def g(*a, **k2):
        return a, k2
    t = (n, k)
    return g(*t), g(*t, *[1]), g(1, *t, z=2), [*t, 5], (*t,), {**{"a": n}, "b": k}


def unp(n, k):
    (a, b), c = (n, k), 3
    a, *r = a, b, c
    *i, z = r
    return a, r, i, z


def unp2(u):
    a, b = u
    return a, b


def glb(n):
    global _G
    _G = n
    return _G + 1


_G = 0


def nonl(n):
    x = 0

    def inc(y):
        nonlocal x
        x += y
        return x
    return inc(n), inc(1), x


def gen1(n):
    def g():
        x = yield_(n)
        yield x
        return
    def yield_(q):
        return q + 1
    return list(g()), [x * 2 for x in g()]


def gen2(n):
    def g(m):
        for k in range(3):
            if k == m:
                return
            yield k
    return list(g(n)), tuple(g(2)), sum(g(5)), max(g(2)), dict(enumerate(g(2)))


def gen3(n):
    def a():
        yield 1
        yield from b()
        yield 4

    def b():
        yield 2
        yield n
    return [*a()]


def lst1(n, k):
    x = [n, k, 3]
    x.sort()
    del x[0]
    x.reverse()
    return len(x), x.count(3) > 0


def lst2(n):
    x = list(range(4))
    x.remove(2)
    x.pop(0)
    y = x.copy()
    y.clear()
    return x, y, x + [n], x * 2, n in x, x.index(3), x[-1]


def lst3(n):
    x = []
    for k in range(4):
        if k != n:
            x.append(k)
    return x


def lst4(n):
    x = [[]] * 2
    x[0].append(n)
    y = [[] for _ in range(2)]
    y[0].append(n)
    return x, y


def lst5(n):
    return [k for k in range(5) if k > n], [k for k in range(4) if k != n][:2]


def dict1(n, u):
    d = {"t": n}
    d["h"] = u
    d.update(t=2)
    e = dict(d, z=1)
    f = dict([("a", n)])
    return d, e, f, list(e), "z" in d, d.get("q"), d.get("t", 9), len(e)


def dict2(u):
    d = {"h": 1, "t": 2}
    if u in d:
        d["x"] = d[u]
    return d


def dict3(u):
    d = {}
    d[u] = d.get(u, 0) + 1
    d[u] = d.get(u, 0) + 1
    return d


def dict4(n):
    d = {k: k * n for k in ("ab")}
    return d


def dict5(n):
    d = {str(k): k + n for k in range(3)}
    return d, {v: k for k, v in {"a": 1, "b": 2}.items()}


def dict6(n):
    d = {"a": {"x": n}}
    e = dict(d)
    e["a"]["x"] = 5
    f = {k: dict(v) for k, v in d.items()}
    f["a"]["x"] = 7
    return d, e, f


def dict7(u, n):
    d = {"a": 1, "b": 2, "c": 3}
    for k in list(d):
        if d[k] == n:
            del d[k]
    return d


def dict8(u):
    d = {"a": 1}
    x = d.pop("a")
    y = d.pop("zz", u)
    return x, y, d, bool(d), d == {}


def dict9(n):
    d = {"b": 1, "a": n}
    return sorted(d), sorted(d, reverse=True), sorted(d.items()), min(d), max(d), d.keys() == {"a", "b"}, "a" in d.keys()


def dict10(n):
    d = {3: "c", 1: "a", 2: n}
    return [d[k] for k in sorted(d)], next(iter(d)), list(reversed(list(d)))


def set1(n):
    a = {1, 2, n}
    return len(a), 3 in a, a - {1}, a & {1, 2}, sorted(a | {9}), a ^ {1} if n > 5 else None


def set2(n, k):
    s = set()
    s.add(n)
    s.add(k)
    return len(s) == 1, n in s


def set3(u):
    return u in {"h", "t"}, {u} & {"h"}, frozenset([u]) == {u}, set() == {u}


def tern(n, u):
    return "a" if n > 5 else "b" if n > 2 else u


def chain(n, k):
    return 0 < n <= k, n == k == 3, n != k != 2, 1 <= n < 5 < k


def wal(u):
    if (n := len(u)) and (c := u[0]) == "0":
        return n, c
    return n


def mat(u, n):
    match (u, n):
        case ("h", 0):
            return 1
        case ("h" | "t", x) if x > 2:
            return x
        case (str(y), 3):
            return y
        case _:
            return None


def mat2(n):
    match n:
        case 0 | 1:
            return "low"
        case int() if n < 0:
            return "neg"
        case _:
            return "hi"


def ass(n):
    assert isinstance(n, int)
    assert n >= 0, f"bad {n}"
    return n


def mv1(s):
    m = memoryview(s)
    a = m[:2]
    return bytes(a), a.tobytes(), len(a), a == s[:2], bytes(m[2:4]), a.hex()


def ba1(s):
    r = bytearray()
    r += s
    r.extend(s[:1])
    r.insert(0, 1)
    r.append(255)
    del r[-1]
    r[0] = 2
    return r, r[:2], r.hex(), len(r)


def ba2(n):
    r = bytearray(4)
    r[1:3] = b"ab"
    r[0] = n
    return r


def ba3(b):
    c = b
    c += b"x"
    return b, c is b, b.pop(), b.copy() == b, bytes(b)


def by1(s):
    return bytes(s) is not None, bytes(reversed(s[:3])), s[::-1][:2], bytes(2) + s, bytes([1]) * 2


def by2(s, s2):
    return s < s2, s == s2, s != s2, min(s, s2), s in s2, s.startswith(s2)


def cod(u):
    return u.encode(), u.encode("utf-8").decode("utf-8") == u, u.encode("utf-16-be", "replace")


def cod2(s, u):
    return s.decode("latin-1").encode("latin-1") == s, s.decode("cp500").encode("cp500") == s, s.decode("latin-1")


def cod3(u):
    return u.encode("cp500", "ignore"), u.encode("ascii", errors="replace")


def cod4(u, u2):
    return u.encode(u2)


def ty1(n, u, s, b):
    return type(n).__name__, isinstance(u, str), isinstance(b, bytearray), isinstance(b, bytes), callable(n), hasattr(u, "upper"), hasattr(n, "foo")


def ty2(n):
    return isinstance(n, (int, str)), issubclass(_Err2, _Err), isinstance(None, type(None)), isinstance(True, int), bool(n) is True


def at1(n):
    class A:
        x = 1
    a = A()
    setattr(a, "y", n)
    return getattr(a, "y"), getattr(a, "z", 3), hasattr(a, "x"), vars(a), a.__dict__ == {"y": n}


def cm1(n):
    class C:
        def __init__(self):
            self.log = []

        def __enter__(self):
            self.log.append("in")
            return self

        def __exit__(self, t, v, tb):
            self.log.append("out")
            return t is KeyError
    c = C()
    with c as d:
        if n > 2:
            raise KeyError
        d.log.append(n)
    return c.log


def cm2(n):
    from contextlib import contextmanager
    log = []

    @contextmanager
    def g():
        log.append(1)
        try:
            yield n
        except ValueError:
            log.append("v")
        finally:
            log.append(2)
    with g() as x:
        if x > 3:
            raise ValueError
        log.append(x)
    return log


def deco(n):
    def d(f):
        @functools.wraps(f)
        def w(*a, **k):
            return f(*a, **k) + 1
        return w

    @d
    def g(x, y=1):
        return x * y
    return g(n), g(n, y=2), g.__name__


def inh(n):
    class A:
        def f(self):
            return self.g() + 1

        def g(self):
            return 1

    class B(A):
        def g(self):
            return super().g() + n
    return B().f(), isinstance(B(), A)


def slots(n):
    class A:
        __slots__ = ("a", "b")

        def __init__(self, a, b=2):
            self.a, self.b = a, b

        def __eq__(self, o):
            return self.a == o.a

        def __repr__(self):
            return f"A({self.a})"
    x = A(n)
    return x == A(n), x == A(1), repr(x), x.b


def dun(n):
    class V:
        def __init__(self, v):
            self.v = v

        def __add__(self, o):
            return V(self.v + o.v)

        def __getitem__(self, k):
            return self.v + k

        def __contains__(self, k):
            return k == self.v

        def __iter__(self):
            yield self.v
            yield 2

        def __call__(self, z):
            return z * 2
    a = V(n) + V(1)
    return a.v, a[3], 5 in a, list(a), a(4)


def rec(n):
    def f(k):
        return 1 if k <= 0 else k * f(k - 1)
    return f(2)


def mx(n, k):
    return max(n, k) - min(n, k) == abs(n - k), max(n, 0), min(k, 10), max([n], default=0), max((), default=n)


def rnd(n):
    return n // 2 * 2 + n % 2 == n, divmod(n, 10), pow(2, 3), round(n), n ** 2 == n * n


def truth(u, n, s):
    r = []
    if u:
        r.append(1)
    if not n:
        r.append(2)
    if s and u:
        r.append(3)
    if None:
        r.append(4)
    return r


def delx(n):
    a = 1
    del a
    try:
        return a
    except NameError:
        return n


def ubl(n):
    if n > 3:
        z = 1
    return z


def shad(n):
    str_ = str(n)
    list_ = [c for c in str_]
    x = 1
    y = [x for x in range(2)]
    return x, y, len(list_) == len(str_)


def lateb(n):
    fs = [lambda: k for k in range(3)]
    gs = [lambda k=k: k for k in range(3)]
    return [f() for f in fs], [g() for g in gs]


def deflist(n):
    def f(x=[]):
        x.append(1)
        return len(x)
    return f(), f(), f([])


def strit(u):
    it = iter("abc")
    a = next(it)
    return a, list(it), next(it, None)


def zipl(n):
    return list(zip("ab", [n, 1, 2])), list(zip(range(2), range(5), "xyz")), dict(zip("ab", (1, n)))


def enumx(u):
    return [f"{i}:{c}" for i, c in enumerate("xy", 1)], list(enumerate([u]))


def mapx(n):
    return list(map(lambda a, b: a + b, (n, 1), (2, 3))), list(map(str, (1, 2))), sum(map(int, "12"))


def sortfew1(n, k):
    return sorted([n, k]), sorted([k, n], reverse=True), sorted([n, k, 7])


def sortfew2(u, u2):
    x = [("1", u), ("0", u2)]
    x.sort(key=lambda t: (t[1] == "", int(t[0])))
    return x


def sortfew3(n, k):
    return sorted(("b", "a"), key=lambda q: n if q == "a" else k), sorted([(n, 1), (k, 0)]) == sorted([(k, 0), (n, 1)])


def sortfew4(u, u2):
    return sorted([u, u2]), sorted([u, u2, "m"], reverse=True)


def tuplecmp1(n, k):
    return (n, 1) < (k, 0), (n, 1) <= (k, 1), (n,) > (k, 2), (n, k) >= (n, k)


def setmemb1(u, u2):
    q = {u, "12"}
    return u2 in q, "12" in q, (u, u2) in {(u2, u)}


def viewcmp1(n):
    d = {"a": n}
    return d.keys() == {"a"}, d.keys() != {"b"}, {"a"} == d.keys(), d.items() == {("a", 5)}


def _twice(s):
    return s + s


def drainback(s, u):
    todo = sorted({1, 2, len(s) + 3})
    out = u
    while todo:
        n = todo.pop()
        out += str(n)
    return out


def drainfront(s):
    from collections import deque
    todo = deque([s, s[:1], b"x"])
    out = b""
    while len(todo) > 0:
        x = todo.popleft()
        if not x:
            continue
        out += x + b"."
    return out


def stream(s, n):
    import io
    f = io.BytesIO(s)
    a = f.read(2)
    p = f.tell()
    b = f.read()
    return a, p, b, f.read(1)


def numbered(n):
    import enum

    class Size(enum.IntEnum):
        SMALL = 8
        LARGE = 16
    return Size.SMALL + n, int(Size.LARGE), Size.LARGE == 16


def collect1(s):
    parts = [s]
    parts.append(_twice(s))
    parts += [b"a", s]
    return b"".join(parts)


def collect2(s):
    return s + b"".join(_twice(bytes([c])) for c in s if c != 65)


def collect3(s):
    return b"".join(map(_twice, [s, b"q"]))


def sized(s, n):
    return len(s) < 2 ** 8, len(s).bit_length() <= 8, len(s) >= 10 ** 1, len(s) < 1 << 16


def tail(s, n):
    if s[2:]:
        return len(s[2:])
    return min(len(s), 1), max(len(s), n)
