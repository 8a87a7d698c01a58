def alld(u):
    return all(c in "0123456789" for c in u)


def anyd(u):
    return any(c == "0" for c in u)


def allb(s):
    return all(48 <= c <= 57 for c in s)


def sumb(s):
    r = 0
    for c in s:
        r = r * 10 + c - 48
    return r


def fold(s):
    r = 0
    for c in s:
        r = r << 8 | c
    return r


def wh1(n):
    r = 0
    while r < n:
        r += 2
    return r


def chunks(u):
    r = ""
    i = 0
    while i < len(u):
        r += u[i:i + 3] + "."
        i += 3
    return r, i


def chunks2(u):
    r = ""
    for i in range(0, len(u), 2):
        r = r + u[i:i + 2]
    return r


def chunks3(s):
    r = bytearray()
    for i in range(0, len(s), 2):
        r += s[i:i + 2]
    return r


def chunks4(s):
    r = []
    for i in range(0, len(s), 2):
        r.append(s[i:i + 2])
    return b"".join(r)


def brk(s):
    for c in s:
        if c == 48:
            break
    else:
        return "none"
    return c


def ret(s):
    for i, c in enumerate(s):
        if c == 50:
            return i
    return -1


def cont(s):
    k = 0
    for c in s:
        if c < 48:
            continue
        k += 1
    return k


def exc(u):
    k = 0
    for c in u:
        k += int(c)
    return k


def exc2(u):
    k = 0
    for c in u:
        try:
            k += int(c)
        except ValueError:
            k -= 1
    return k


def two(u, s):
    k = 0
    for c in u:
        k += 1
    for c in s:
        k += 2
    return k


def rstrip0(u):
    while u and u[-1] == "0":
        u = u[:-1]
    return u


def lstrip0(u):
    while u.startswith("0"):
        u = u[1:]
    return u


def padl(u, n):
    while len(u) < n:
        u = "0" + u
    return u


def padb(s, n):
    r = bytearray(s)
    while len(r) < n:
        r.append(0)
    return bytes(r)


def rng(n, k):
    r = 0
    for i in range(n, k):
        r += i
    return r


def rngs(n):
    r = 0
    for i in range(n, 0, -3):
        r += i
    return r


def wtrue(s):
    i = 0
    while True:
        if i >= len(s):
            return i
        if s[i] == 0:
            raise ValueError
        i += 1


def last(s):
    x = None
    for c in s:
        x = c
    return x


def last2(s):
    x = 0
    for c in s:
        x = c
    return x


def swap(n):
    a, b = 0, 1
    while n > 0:
        a, b = b, a + b
        n -= 1
    return a


def state(u):
    st = "a"
    for c in u:
        if c == "0":
            st = "b"
    return st


def flag(u):
    ok = True
    for c in u:
        if not c.isdigit():
            ok = False
    return ok


def flag2(s):
    ok = True
    for c in s:
        ok = ok and c != 0
    return ok


def obj(s):
    class A:
        n = 0
    a = A()
    for c in s:
        a.n += 1
    return a.n


def dictk(s):
    d = {"n": 0}
    for c in s:
        d["n"] += 1
    return d["n"]


def lstk(s):
    d = [0]
    for c in s:
        d[0] += 1
    return d[0]


def closure(s):
    n = 0
    def inc():
        nonlocal n
        n += 1
    for c in s:
        inc()
    return n


def gen(s):
    def g():
        for c in s:
            yield c
    r = 0
    for c in g():
        r += c
    return r


def sumg(s):
    return sum(c for c in s), max([0, 1]), sum(1 for c in s if c == 48)


def joing(u):
    return "".join(c for c in u), "".join(reversed(u)), u[::-1]


def joinh(s):
    return "".join("%02x" % c for c in s)


def joinh2(s):
    return "".join(f"{c:02X}" for c in s)


def joinbits(s):
    return "".join(f"{c:08b}" for c in s)


def bylist(s):
    return bytes([c for c in s]), bytes(c for c in s), bytes(c ^ 0 for c in s)


def bcd(u):
    return bytes(int(u[i:i + 2], 16) for i in range(0, len(u), 2))


def bcd2(u):
    r = bytearray()
    for i in range(0, len(u), 2):
        r.append(int(u[i]) << 4 | int(u[i + 1]))
    return r


def xors(s):
    r = 0
    for c in s:
        r ^= c
    return r


def cnt2(u):
    n = 0
    for c in u:
        if c in "02":
            n += 1
        elif c == "1":
            n += 10
        else:
            n += 100
    return n


def aug(s):
    i = len(s)
    while i:
        i -= 1
        if s[i] != 0:
            break
    return i


def wh_else(n):
    i = 0
    while i < n:
        if i == 7:
            break
        i += 1
    else:
        return ("e", i)
    return ("b", i)


def fin(s):
    n = 0
    for c in s:
        try:
            if c == 48:
                continue
            n += 1
        finally:
            n += 10
    return n


def trybrk(s):
    n = 0
    for c in s:
        try:
            if c == 48:
                break
            n += 1
        finally:
            n += 10
    return n


def zips(s, s2):
    n = 0
    for a, b in zip(s, s2):
        n += a == b
    return n


def itx(s):
    it = iter(s)
    r = 0
    for a in it:
        r += a
    return r


def nxt(s):
    it = iter(s)
    try:
        return next(it)
    except StopIteration:
        return None


def mn(u):
    m = 0
    for c in u:
        m = max(m, ord(c))
    return m


def eqs(s):
    p = b""
    for i in range(len(s)):
        p = s[:i]
    return p


def eqs2(s):
    p = b""
    for i in range(len(s)):
        p = s[:i + 1]
    return p == s


def par(s):
    n = 0
    for i in range(len(s)):
        if i % 2:
            n += s[i]
    return n


def two_idx(u):
    i, j = 0, len(u)
    while i < j:
        i += 1
        j -= 1
    return i, j


def upto(s, n):
    r = b""
    for i in range(n):
        r += s
    return r
