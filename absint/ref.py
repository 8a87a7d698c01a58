"""The requirement, as a reference model of the wire format.

Independent of the code under analysis: written from the documentation and the property statements.
It gives the expected outcome of an element (or of a whole message) for given leaf values, and is
only used on models of the abstract summaries (never together with a run of the program).
"""


class Err(Exception):
    """The element must be refused: key, position, condition"""
    def __init__(self, key, pos, cond):
        self.key, self.pos, self.cond = key, pos, cond
        super().__init__("%s at %s: %s" % (key, pos, cond))


class Part:
    __slots__ = ("key", "o", "len", "data", "dec", "end", "count", "loose")

    def __init__(self, key, o, ln, data, dec, end, count=None, loose=False):
        self.key, self.o, self.len, self.data, self.dec, self.end = key, o, ln, data, dec, end
        self.count, self.loose = count, loose

    def __repr__(self):
        return "Part(%s@%s len=%r data=%r dec=%r)" % (self.key, self.o, self.len, self.data, self.dec)


HEX = "0123456789ABCDEFabcdef"


def up(x):
    return x.upper()


def text(key, pos, b, codec, cond="codec"):
    try:
        return bytes(b).decode(codec)
    except Exception:
        raise Err(key, pos, cond) from None


def declared(key, o, ln, e):
    """Value of a length prefix"""
    if e["len_enc"] == "b":
        return int.from_bytes(ln, "big")
    if e["len_enc"] == "bcd":
        h = bytes(ln).hex()
    else:
        h = text(key, o, ln, e["len_enc"], "len-codec")
    if not h or any(c not in "0123456789" for c in h):
        raise Err(key, o, "len-digits")
    n = 0
    for c in h:
        n = n * 10 + ord(c) - 48
        if n > 10 ** 40:
            break
    return n


def dec_field(key, buf, o, e):
    lt = e["len_type"]
    ln = bytes(buf[o:o + lt])
    if len(ln) != lt:
        raise Err(key, o, "short-len")
    if lt == 0:
        n = e["max_len"]
    else:
        n = declared(key, o, ln, e)
        if n > e["max_len"]:
            raise Err(key, o, "over")
    o2 = o + lt
    if n == 0:
        return Part(key, o, ln, b"", "", o2, 0)
    nib = e.get("len_count", "bytes") == "nibbles"
    size = (n + 1) // 2 if nib else n
    data = bytes(buf[o2:o2 + size])
    if len(data) != size:
        raise Err(key, o2, "short-data")
    odd = nib and n % 2 == 1
    loose = False
    if e["data_enc"] == "b":
        dec = data.hex().upper()
        if odd:
            lp, rp = e.get("left_pad", "")[:1].upper(), e.get("right_pad", "")[:1].upper()
            if lp and dec[0] == lp:
                dec = dec[1:]
            elif rp and dec[-1] == rp:
                loose = bool(lp)          # left_pad is configured and wins: refusing is as good
                dec = dec[:-1]
            else:
                raise Err(key, o2, "pad")
    else:
        if odd:
            raise Err(key, o2, "odd-text")
        dec = text(key, o2, data, e["data_enc"])
    return Part(key, o, ln, data, dec, o2 + size, n, loose)


def dec_type(buf, o, e):
    size = 2 if e["data_enc"] == "b" else 4
    d = bytes(buf[o:o + size])
    if len(d) != size:
        raise Err("t", o, "size")
    dec = d.hex().upper() if e["data_enc"] == "b" else text("t", o, d, e["data_enc"])
    return Part("t", o, b"", d, dec, o + size)


def dec_bitmap(key, buf, o, e, cond="size"):
    size = 8 if e["data_enc"] == "b" else 16
    d = bytes(buf[o:o + size])
    if len(d) != size:
        raise Err(key, o, cond)
    if e["data_enc"] == "b":
        dec = d.hex().upper()
        bm = d
    else:
        dec = text(key, o, d, e["data_enc"])
        if len(dec) != 16 or any(c not in HEX for c in dec):
            raise Err(key, o, "bm-hex")
        bm = bytes.fromhex(dec)
    bits = {i + 1 for i in range(64) if bm[i // 8] >> (7 - i % 8) & 1}
    return Part(key, o, b"", d, dec, o + size), bits


def decode(buf, spec):
    """-> (parts, announced fields, err); the extension part has key '1+'"""
    parts, fields = [], set()
    o = 0
    try:
        if spec["h"]["max_len"] > 0:
            parts.append(dec_field("h", buf, o, spec["h"]))
            o = parts[-1].end
        parts.append(dec_type(buf, o, spec["t"]))
        o = parts[-1].end
        p, bits = dec_bitmap("p", buf, o, spec["p"])
        parts.append(p)
        o = p.end
        fields |= bits
        if 1 in bits:
            p, bits = dec_bitmap("1", buf, o, spec["1"])
            parts.append(p)
            o = p.end
            fields.discard(1)
            fields |= {n + 64 for n in bits}
            if 65 in fields:
                p, bits = dec_bitmap("1", buf, o, spec["1"], "ext-size")
                p.key = "1+"
                parts.append(p)
                o = p.end
                fields.discard(65)
                fields |= {n + 128 for n in bits}
        for n in sorted(fields):
            k = str(n)
            if k not in spec:
                raise Err(k, o, "nospec")
            parts.append(dec_field(k, buf, o, spec[k]))
            o = parts[-1].end
        if o != len(buf):
            raise Err(parts[-1].key.rstrip("+"), o, "extra")
    except Err as e:
        return parts, fields, e
    return parts, fields, None


# ------------------------------------------------------------------ encoding
def raw(key, v, e, count):
    """-> (wire bytes, number of bytes or nibbles of the value)"""
    if not isinstance(v, str):
        raise Err(key, None, "type")
    if e["data_enc"] == "b":
        x = v
        if count == "nibbles" and len(v) % 2:
            lp, rp = e.get("left_pad", "")[:1], e.get("right_pad", "")[:1]
            if lp:
                x = lp + v
            elif rp:
                x = v + rp
        if len(x) % 2:
            raise Err(key, None, "odd-hex")
        if any(c not in HEX for c in x):
            raise Err(key, None, "non-hex")
        d = bytes.fromhex(x)
        return d, len(v) if count == "nibbles" else len(d)
    try:
        d = v.encode(e["data_enc"])
    except Exception:
        raise Err(key, None, "codec") from None
    return d, len(d) * 2 if count == "nibbles" else len(d)


def prefix(key, n, e):
    lt = e["len_type"]
    if e["len_enc"] == "b":
        if n >= 256 ** lt:
            raise Err(key, None, "fit")
        return n.to_bytes(lt, "big")
    if e["len_enc"] == "bcd":
        s = "%0*d" % (lt * 2, n)
        if len(s) > lt * 2:
            raise Err(key, None, "fit")
        return bytes.fromhex(s)
    s = "%0*d" % (lt, n)
    try:
        b = s.encode(e["len_enc"])
    except Exception:
        raise Err(key, None, "len-codec") from None
    if len(b) != lt:
        raise Err(key, None, "fit")
    return b


def enc_field(key, v, e):
    d, n = raw(key, v, e, e.get("len_count", "bytes"))
    if e["len_type"] == 0:
        if n != e["max_len"]:
            raise Err(key, None, "fixed-size")
        return Part(key, None, b"", d, v, None, n)
    if n > e["max_len"]:
        raise Err(key, None, "over")
    return Part(key, None, prefix(key, n, e), d, v, None, n)


def enc_type(v, e):
    d, n = raw("t", v, e, "bytes")
    if len(d) != (2 if e["data_enc"] == "b" else 4):
        raise Err("t", None, "size")
    return Part("t", None, b"", d, v, None)


def enc_bitmap(key, nums, e):
    bm = bytearray(8)
    for n in nums:
        bm[(n - 1) // 8] |= 0x80 >> (n - 1) % 8
    h = bm.hex().upper()
    if e["data_enc"] == "b":
        return Part(key, None, b"", bytes(bm), h, None)
    try:
        d = h.encode(e["data_enc"])
    except Exception:
        raise Err(key, None, "codec") from None
    if len(d) != 16:
        raise Err(key, None, "size")
    return Part(key, None, b"", d, h, None)


def canonical(k):
    return isinstance(k, str) and k.isascii() and k.isdigit() and str(int(k)) == k


def key_problem(doc):
    """What is wrong with the set of keys"""
    if any(not isinstance(k, str) for k in doc):
        return "keys"
    if any(k.isnumeric() and not (canonical(k) and 1 <= int(k) <= 192) for k in doc):
        return "range"
    return None


def encode(doc, spec, keys=True):
    """-> (parts, err); keys: the set of keys matters"""
    parts = []
    try:
        if spec["h"]["max_len"] > 0:
            if "h" not in doc:
                raise Err("h", None, "missing")
            parts.append(enc_field("h", doc["h"], spec["h"]))
        if "t" not in doc:
            raise Err("t", None, "missing")
        parts.append(enc_type(doc["t"], spec["t"]))
        bad = key_problem(doc)
        if bad and keys:
            raise Err("p", None, bad)
        nums = {int(k) for k in doc if canonical(k) and 1 <= int(k) <= 192} - {1, 65}
        ter = {n for n in nums if n > 128}
        sec = {n for n in nums if 64 < n <= 128} | ({65} if ter else set())
        pri = {n for n in nums if n <= 64} | ({1} if sec else set())
        parts.append(enc_bitmap("p", pri, spec["p"]))
        if sec:
            parts.append(enc_bitmap("1", {n - 64 for n in sec}, spec["1"]))
        if ter:
            p = enc_bitmap("1", {n - 128 for n in ter}, spec["1"])
            p.key = "1+"
            parts.append(p)
        for n in sorted(nums):
            k = str(n)
            if k not in spec:
                raise Err(k, None, "nospec")
            parts.append(enc_field(k, doc[k], spec[k]))
    except Err as e:
        return parts, e
    return parts, None
