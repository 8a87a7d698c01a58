"""Which other specification entry explains a mismatch (C24)."""
import copy

from . import ref


def variants(w, key):
    """Specifications in which the entry of key is (partly) another element's"""
    mine = w.spec.get(key)
    if mine is None:
        return
    for k, e in w.spec.items():
        if k == key:
            continue
        yield k, "*", dict(e)
        for n in ("max_len", "len_type", "len_enc", "data_enc", "len_count", "left_pad", "right_pad"):
            if e.get(n) != mine.get(n):
                x = dict(mine)
                if n in e:
                    x[n] = e[n]
                else:
                    x.pop(n, None)
                yield k, n, x


def explain(run, kind, w, x, o, j, m, bind):
    """Names of (other key, property) under which the observed behaviour would have been right"""
    key = x.key
    if not isinstance(key, str) or key not in w.spec or kind not in ("dec", "enc"):
        return []
    out = []
    for k, n, e in variants(w, key):
        w2 = copy.copy(w)
        spec2 = dict(w.spec)
        spec2[key] = e
        try:
            if kind == "dec":
                w2.parts, w2.fields, w2.err = ref.decode(w.buf, spec2)
            else:
                w2.parts, w2.err = ref.encode(w.doc, spec2)
            b2 = bind(w2)
            if j is not None and (j >= len(b2.order) or b2.order[j] != key):
                continue
            # the same element must now be judged correctly, at the same place
            ms = run.check(o, b2, j, m)
        except Exception:
            continue
        if not [y for y in ms if y.key == key and not (y.props <= {"C14"})]:
            if j is not None and not consistent(w2, b2, j, key, o):
                continue
            out.append("%s.%s" % (k, n))
    return out


def consistent(w2, b2, j, key, o):
    """The element's outcome under the swapped entry is the one the path produced"""
    if o.kind == "iter":
        return j < b2.n_done
    return True
