"""Matching of byte arrays, as far as the facts of an abstract state describe them, against simple
languages: sequences of segments (class of bytes, minimum, maximum or None)."""
from .terms import *
from .dom import all_class
from .terms import mk

ALPHA = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
DIGIT1 = ((49, 57),)
ALNUM = iv_union(ALPHA, DIGIT)
LEADER = iv_union(ALPHA, ((95, 95),))
IDENT = iv_union(LEADER, ((45, 45),))
ASCII = ((0, 127),)
ANYB = ((0, 255),)


def text(s):
    return [(((b, b),), 1, 1) for b in s]


ident = [(LEADER, 1, 1), (IDENT, 0, None)]
clientid = [(ALNUM, 1, None)]
posnum = [(DIGIT1, 1, 1), (DIGIT, 0, None)]
module = ident + posnum
zero = [(((48, 48),), 1, 1)]
dot = [(((46, 46),), 1, 1)]
minus = [(((45, 45),), 1, 1)]
UINT = [(zero, ((0, 1),)), (posnum, ((0, 2),))]
SINT = UINT + [(minus + posnum, ((0, 3),))]
# name -> (alternatives, index of the segments that form a u16 decimal)
LANGS = {
    "ClientID": [(clientid, ())],
    "Identifier": [(ident, ())],
    "ModuleIdentifier": [(module, ((2, 4),))],
    "ModuleVersion": [(module + dot + posnum, ((2, 4), (5, 7))), (module + dot + zero, ((2, 4), (5, 6)))],
    "ScopedIdentifier": [(module + dot + ident, ((2, 4),))],
    "MessageType": [(module + dot + ident, ((2, 4),)), (text(b"want"), ()), (text(b"have"), ()), (text(b"nope"), ())],
}


def atoms_idx(f, arr):
    for k in f.dom:
        if k.op == "sel" and k.args[0] is arr:
            yield k.args[1], f.dom[k]


def same(f, a, b):
    return a is b or f.eq(a, b)


def candidates(f, arr, extra=()):
    out = []
    for a, lo, hi, cl in f.alls:
        if a is arr:
            out += [lo, hi]
    for i, _ in atoms_idx(f, arr):
        out += [i, addc(i, 1)]
    for s in f.strv:
        g = utf8_range(s, arr)
        if g:
            out += list(g)
    out += list(extra)
    res = []
    for x in out:
        if x not in res:
            res.append(x)
    return res


def elem(f, arr, i):
    """set of the possible values of arr[i]"""
    r = ANYB
    for j, iv in atoms_idx(f, arr):
        if same(f, i, j):
            r = iv_inter(r, iv)
    for a, lo, hi, cl in f.alls:
        if a is arr and f.le(lo, i) and f.lt(i, hi):
            r = iv_inter(r, cl)
    for s, v in f.strv.items():
        g = utf8_range(s, arr)
        if g:
            d = sub(i, g[0])
            if d.op == "int" and 0 <= d.args[0] < len(v):
                r = iv_inter(r, ((v[d.args[0]], v[d.args[0]]),))
    return r


def all_in(f, arr, lo, hi, cl):
    if f.le(hi, lo):
        return True
    cur = lo
    for _ in range(24):
        best = None
        for a, l, h, k in f.alls:
            if a is arr and f.le(l, cur) and iv_subset(k, cl):
                if f.le(hi, h):
                    return True
                if f.lt(cur, h) and best is None:
                    best = h
        if best is None:
            if not iv_subset(elem(f, arr, cur), cl):
                return False
            best = addc(cur, 1)
        cur = best
        if f.le(hi, cur):
            return True
    return False


def matches(f, arr, lo, hi, segs, extra=(), lits=None):
    """is arr[lo..hi) in the language in every concretization? Returns the boundaries or None."""
    if arr.op == "bytes" and lo.op == "int" and hi.op == "int":
        return [] if concrete(arr.args[0][lo.args[0]:hi.args[0]], segs) else None
    cand = candidates(f, arr, extra)

    def go(p, k):
        if k == len(segs):
            return [p] if same(f, p, hi) else None
        cl, mn, mx = segs[k]
        if mx == 1 and mn == 1:
            if not f.lt(p, hi) or not iv_subset(elem(f, arr, p), cl):
                return None
            r = go(addc(p, 1), k + 1)
            return r and [p] + r
        q = addc(p, mn)
        tries = [hi] if k == len(segs) - 1 else [c for c in cand if f.le(q, c) and f.le(c, hi)]
        if k < len(segs) - 1:
            tries = [q] + tries
        for e in tries:
            if f.le(q, e) and f.le(e, hi) and all_in(f, arr, p, e, cl):
                r = go(e, k + 1)
                if r:
                    return [p] + r
        return None
    return go(lo, 0)


def concrete(b, segs):
    """plain matching of a literal"""
    pos = {0}
    for cl, mn, mx in segs:
        nxt = set()
        for p in pos:
            n = 0
            while True:
                if n >= mn:
                    nxt.add(p + n)
                if (mx is not None and n >= mx) or p + n >= len(b) or not iv_has(cl, b[p + n]):
                    break
                n += 1
        pos = nxt
    return len(b) in pos


_n = [0]


def assume(f, arr, lo, hi, segs):
    """facts plus 'arr[lo..hi) is in the language'; returns (facts or None, boundaries)"""
    p = lo
    bs = [lo]
    for k, (cl, mn, mx) in enumerate(segs):
        if mn == 1 and mx == 1:
            e = addc(p, 1)
        elif k == len(segs) - 1:
            e = hi
            f = f.add_le(sub(addc(p, mn), e))
        else:
            _n[0] += 1
            e = mk("sym", "boundary", _n[0], "usize")
            f = f.add_le(sub(addc(p, mn), e))
            f = f and f.add_le(sub(e, hi))
        if f is None:
            return None, bs
        f = f.add_all(arr, p, e, cl)
        p = e
        bs.append(p)
    f = f.add_eq(sub(p, hi))
    return f, bs


def place(f, arr, bs, segs):
    """which segment can each known element belong to? Returns refined facts, or None if there is none"""
    for _ in range(6):
        changed = False
        for i in [x for x, _ in atoms_idx(f, arr)]:
            if not (f.le(bs[0], i) and f.lt(i, bs[-1])):
                continue
            el = elem(f, arr, i)
            poss = []
            for k, (cl, mn, mx) in enumerate(segs):
                if not iv_inter(el, cl):
                    continue
                g = f.add_le(sub(bs[k], i))
                g = g and g.add_le(sub(addc(i, 1), bs[k + 1]))
                if g is not None:
                    poss.append((k, g))
                    if len(poss) > 1:
                        break
            if not poss:
                return None
            if len(poss) == 1:
                k, g = poss[0]
                if not (f.le(bs[k], i) and f.lt(i, bs[k + 1])):
                    f = g
                    changed = True
        if not changed:
            break
    return f


def contradiction(f, arr, bounds, depth=4, segs=None):
    """are the facts unsatisfiable, looking at the elements of arr (with case splits)?"""
    if f is None:
        return True
    if segs is not None:
        f = place(f, arr, bounds, segs)
        if f is None:
            return True
    idx = [i for i, _ in atoms_idx(f, arr)]
    allsarr = [x for x in f.alls if x[0] is arr]
    for i in idx + list(bounds):
        if not elem(f, arr, i):
            return True
    # a non-empty stretch with an empty class
    for a, l, h, k in allsarr:
        for b, l2, h2, k2 in allsarr:
            if not iv_inter(k, k2):
                # they must not overlap
                for p in (l, l2):
                    if f.le(l, p) and f.le(l2, p) and f.lt(p, h) and f.lt(p, h2):
                        return True
    for k, iv in f.dom.items():
        if k.op == "utf8" and iv == ((0, 0),):
            r = utf8_range(k.args[0], arr)
            if r and all_in(f, arr, r[0], r[1], ASCII):
                return True
    if depth <= 0:
        return False
    # split where the order of an index and a boundary is not known
    for i in idx:
        for b in bounds:
            if b is i or f.lt(i, b) or f.le(addc(b, 1), i) or same(f, i, b):
                continue
            for g in (f.add_le(sub(addc(i, 1), b)), f.add_eq(sub(i, b)), f.add_le(sub(addc(b, 1), i))):
                if not contradiction(g, arr, bounds, depth - 1, segs):
                    return False
            return True
    # ends of stretches against boundaries
    for a, l, h, k in allsarr:
        for b in bounds:
            for x in (l, h):
                if x is b or x.op == "int" or f.lt(x, b) or f.le(b, x):
                    continue
                for g in (f.add_le(sub(addc(x, 1), b)), f.add_le(sub(b, x))):
                    if not contradiction(g, arr, bounds, depth - 1, segs):
                        return False
                return True
    return False


def utf8_range(c, arr):
    """(lo, hi) of a content term that is a stretch of arr"""
    if c.op == "slice" and c.args[0].op == "cv" and c.args[0].args[0] is arr:
        return c.args[2], add(c.args[2], c.args[3])
    return None
