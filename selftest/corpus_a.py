import binascii


def slice1(s, n):
    return s[n:n + 2]


def slice2(s):
    return s[:4], s[4:]


def neg(s):
    return s[-1:], s[:-1]


def intof(u):
    return int(u)


def intbytes(s):
    return int(s)


def intdec(s):
    return int(s.decode("ascii"))


def unhex(u):
    return binascii.unhexlify(u)


def fromhex(u):
    return bytes.fromhex(u)


def hexs(s):
    return s.hex().upper()


def tobytes(n, k):
    return n.to_bytes(k, "big")


def frombytes(s):
    return int.from_bytes(s, "big")


def fmt(n, k):
    return "%0*d" % (k, n)


def fmt2(n, k):
    return f"{n:0{k}d}"


def fmt3(n, u):
    return "{} and {!r}".format(n, u)


def zf(n, k):
    return str(n).zfill(k)


def rj(u, k):
    return u.rjust(k, "0"), u.ljust(k), u.center(k)


def isd(u):
    return u.isdigit(), u.isdecimal(), u.isascii(), u.isnumeric()


def bisd(s):
    return s.isdigit()


def alld(u):
    return all(c in "0123456789" for c in u)


def allb(s):
    return all(48 <= c <= 57 for c in s)


def index(s, n):
    return s[n]


def index2(u, n):
    return u[n]


def guardlen(s, n):
    if len(s) < n:
        raise ValueError("short")
    return s[:n]


def tr(u):
    try:
        return int(u)
    except ValueError:
        return None


def tr2(u):
    try:
        r = bytes.fromhex(u)
    except ValueError as e:
        return "bad"
    else:
        return r
    finally:
        n = 1


def bits(s):
    r = []
    for k in range(8):
        if s[0] & (0x80 >> k):
            r.append(k + 1)
    return r


def bits2(s):
    return [k for k in range(1, 17) if s[:2].ljust(2, b"\0")[(k - 1) // 8] >> (7 - (k - 1) % 8) & 1]


def bits3(s):
    m = int.from_bytes(s[:2], "big")
    return {k for k in range(16) if m >> (15 - k) & 1}


def setbits(n, k):
    r = bytearray(2)
    for x in (n, k):
        if 1 <= x <= 16:
            r[(x - 1) // 8] |= 0x80 >> ((x - 1) % 8)
    return bytes(r)


def dd(u, u2):
    d = {}
    d[u] = 1
    d[u2] = 2
    return len(d), d.get("h"), d.get("x", 5)


def dpop(u):
    d = {"h": 1, "t": 2}
    return d.pop(u, None), "h" in d, list(d)


def dpop2(u):
    d = {"h": 1, "t": 2}
    d.pop(u)
    return d


def keys(u):
    d = {"a": 1, u: 2}
    return sorted(d)


def strp(u):
    return u.strip(), u.rstrip("0"), u.lstrip("0")


def sw(u):
    return u.startswith("0"), u.endswith(("0", "2")), u[:2] == "02"


def swb(s):
    return s.startswith(b"02"), s.endswith(b"0")


def repl(u):
    return u.replace("0", ""), u.upper(), u.lower(), u.title()


def enc(u):
    return u.encode("ascii")


def enc2(u):
    return u.encode("latin-1", "replace"), u.encode("utf-8")


def dec(s):
    return s.decode("ascii", "ignore"), s.decode("cp500")


def cnt(s, u):
    return s.count(b"0"), u.count("0")


def find(s, u):
    return s.find(b"2"), u.find("2"), u.rfind("2")


def split(u):
    return u.split(":")


def part(u):
    return u.partition(":")


def joinl(u, u2):
    return ":".join([u, u2, "x"])


def joinb(s, s2):
    return b"".join([s, s2, b"-", s])


def mod(n, k):
    return n % 7, n // 7, divmod(n, 3), -n // 2, n & 1, n | 8, n ^ 3, n << 2, n >> 1, ~n


def modk(n, k):
    return n % k


def cmp(n, k):
    return n < k, n <= k, n == k, n != k, min(n, k), max(n, k), abs(n - k)


def chain(n, k):
    return 0 <= n < k <= 100


def tern(n, k):
    return (n if n > k else k) - (n and k) + (n or k)


def bl(u, n):
    return bool(u), bool(n), not u, u and n, u or n


def tp(n, u):
    a, b = n, u
    a, b = b, a
    return a, b


def star(s):
    a, *b = s[:3]
    return a, b


def wh(n):
    r = 0
    while r < n and r < 5:
        r += 2
    return r


def forb(n):
    for k in range(5):
        if k == n:
            break
    else:
        return "none"
    return k


def forc(s):
    r = 0
    for c in s[:4]:
        if c == 48:
            continue
        r = r + c
    return r


def nested(n):
    def g(x):
        return x + n
    return g(1) + g(n)


def default(n, k):
    def g(x, y=3, *a, z=4, **kw):
        return (x, y, a, z, kw)
    return g(n), g(n, k), g(n, k, 5, z=6, w=7), g(*(1, n), **{"z": k})


def lam(n, k):
    f = lambda x, y=2: x * y - n
    return f(k), f(3, y=5)


def cls(n):
    class A:
        z = 1

        def __init__(self, x):
            self.x = x

        def get(self):
            return self.x + self.z

        @property
        def p(self):
            return self.x * 2

        @staticmethod
        def st(q):
            return q + 1

        @classmethod
        def cm(c, q):
            return c(q).get()
    a = A(n)
    a.z = 7
    return a.get(), a.p, A.st(n), A.cm(n), a.cm(1)


def exc1(n):
    try:
        if n > 3:
            raise KeyError("x")
        return 10 // n
    except ZeroDivisionError:
        return "z"
    except (KeyError, IndexError) as e:
        return "k" + str(e.args[0])


def exc2(n):
    r = []
    try:
        try:
            r.append(1)
            if n == 1:
                raise ValueError("v")
            r.append(2)
        finally:
            r.append(3)
    except ValueError:
        r.append(4)
    return r


def fin(n):
    try:
        return n
    finally:
        n = 99


def fin2(n):
    try:
        if n:
            raise ValueError
    finally:
        return 5


def lst(n, k):
    x = [n, k]
    x.append(3)
    x.insert(0, 9)
    x.extend([1, 2])
    y = x[1:3]
    x[0] = 8
    x += [n]
    return x, y, x.pop(), x.index(3), len(x), x[::-1], n in x


def alias(n):
    a = [n]
    b = a
    b.append(1)
    c = a[:]
    c.append(2)
    return a, b, c, a is b, a is c


def srt(n, k):
    return sorted([n, k, 5]), sorted([n, k], reverse=True), max([n, k, 1])


def enum(u):
    return [(i, c) for i, c in enumerate("ab" )] + [u]


def zipd(n, k):
    return dict(zip(("a", "b"), (n, k)))


def rng(n):
    return list(range(2, 10, 3)), len(range(n)), n in range(5), list(reversed(range(3)))


def mv(s):
    m = memoryview(s)
    return bytes(m[1:3]), len(m), m[:2] == b"02"


def ba(s, n):
    r = bytearray(s)
    r += b"x"
    r.extend(b"yz")
    r.append(65)
    del r[:1]
    r[0:1] = b"qq"
    return r, bytes(r)


def barr(b):
    b += b"1"
    c = bytes(b)
    b.append(1)
    return b, c


def anyall(n, k):
    return any(x > 3 for x in (n, k)), all([n, k]), sum([n, k, 1]), any([])


def ifs(n, k):
    if n < 0:
        r = "neg"
    elif n == 0:
        r = "zero"
    elif n < k:
        r = "lt"
    else:
        r = "ge"
    return r


def wal(u):
    if (m := len(u)) > 3:
        return m
    return -m


def matchs(n, u):
    match u:
        case "h" | "t":
            return 1
        case "p" if n > 3:
            return 2
        case str() as q if len(q) == 4:
            return q
        case _:
            return 3


def isinst(n, u, s):
    return isinstance(n, int), isinstance(u, (bytes, str)), isinstance(s, (bytes, bytearray)), isinstance(n, bool), type(u) is str, type(s) == bytes


def strcmp(u, u2):
    return u == u2, u < u2, u != "", u in ("h", "t"), u in "0123", "0" in u


def bcmp(s, s2):
    return s == s2, s < s2, s in (b"", b"0"), 48 in s, b"0" in s


def eqt(s, u):
    return s == u, 1 == True, 0 == "", bytearray(s) == s


def mul(u, n):
    return u * n, u * 2, 3 * u


def chrs(n):
    return chr(n % 128), ord("a") + n


def reps(u, s, n):
    return repr(u), repr(s), str(n), repr(n), f"{u!r:>8}", "%r %s" % (u, n)


def ints(n):
    return int(True), int("10", 2), int(n), float, int.bit_length(n), n.bit_length()


def assertx(n):
    assert n > 0, "no"
    return n


def delv(u):
    d = {"a": 1, "b": 2}
    del d[u]
    return d


def setd(u):
    d = {}
    d.setdefault(u, []).append(1)
    d.setdefault(u, []).append(2)
    return d


def upd(u, n):
    d = {"a": 1}
    d.update({u: n})
    e = {**d, "z": 2}
    f = d | {"q": 1}
    return d, e, f, d == {"a": 1, u: n}


def items(u, n):
    d = {"a": n, "b": u}
    return [k for k, v in d.items()], list(d.values()), tuple(d.keys()), [x for x in d]


def sets(u, n):
    a = {"x", u}
    a.add("y")
    a.discard("x")
    return "x" in a, len(a), a & {"y"}, a - {u}, a | {"q"}, a <= {"y", u}


def subset(u, u2):
    return {u, u2} <= {"h", "t"}, {u}.isdisjoint({"h"}), {u} == {u2}


def strjoin(u):
    return "".join(c for c in u if c != " "), "-".join(u)


def mapf(s):
    return list(map(int, s[:2])), bytes(map(lambda c: c ^ 1, s[:2])), "".join(map(str, s[:1]))


def fil(n, k):
    return list(filter(None, [n, k, 0])), list(filter(lambda x: x > 2, (n, k)))


def genx(n):
    def g():
        yield n
        yield n + 1
        if n > 3:
            yield 5
    return list(g()), sum(g())


def nextx(n, k):
    return next((x for x in (n, k) if x > 3), None), next(iter([n]))


def glob(n):
    return _K + n, _D["a"]


_K = 7
_D = {"a": 5}


def trans(u):
    return u.translate({48: "x"}), u.translate(str.maketrans("01", "ab"))


def transb(s):
    return s.translate(None, b"0"), s.translate(bytes(range(256)))


def conv(s):
    return list(s[:2]), tuple(s[:1]), bytes([1, 2]), bytes(3), str(s, "latin-1")


def bnot(s):
    return not s, bool(s), len(s) == 0, s == b"", s or b"z"


def removep(u):
    return u.removeprefix("0"), u.removesuffix("0")


def slicest(u):
    return u[::2], u[::-1], u[1::2], u[-3:-1]


def bslicest(s):
    return s[::2], s[1::2], s[::-1]


def structx(s):
    import struct
    return struct.unpack(">H", s[:2])


def structp(n):
    import struct
    return struct.pack(">B", n)


def nibbles(s):
    return [x for c in s[:2] for x in (c >> 4, c & 15)]


def bcdx(n):
    return ((n // 10) << 4) | n % 10


def digits(n):
    return n // 100 % 10, n // 10 % 10, n % 10


def partial(n, k):
    from functools import partial
    f = partial(_add, n)
    return f(k), partial(_add, y=n)(k)


def _add(x, y):
    return x - y


def rais(n):
    if n > 5:
        raise ValueError("a", n)
    if n > 3:
        raise KeyError(n) from None
    if n > 1:
        raise TypeError
    return n


def ctx(n):
    from contextlib import suppress
    with suppress(KeyError):
        if n > 2:
            raise KeyError
        return 1
    return 2


def nt(n, k):
    from collections import namedtuple
    P = namedtuple("P", "x y")
    p = P(n, y=k)
    q = p._replace(x=1)
    return p.x, p[1], tuple(q), p == (n, k)


def dc(n, k):
    from dataclasses import dataclass
    @dataclass
    class P:
        x: int
        y: int = 4
    a = P(n)
    a.y += k
    return a.x, a.y, P(1, 2) == P(1, 2)


def ordd(u):
    from collections import OrderedDict
    d = OrderedDict()
    d["a"] = 1
    d[u] = 2
    return list(d.items())


def itert(n, k):
    import itertools
    return list(itertools.chain([n], (k, 1))), list(itertools.islice([1, 2, 3], 2)), list(itertools.accumulate([n, k]))
