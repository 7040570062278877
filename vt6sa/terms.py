"""Hash-consed terms, linear expressions and interval sets used by the abstract interpreter."""
from math import gcd


class T:
    __slots__ = ("op", "args", "id", "_txt", "_lp")

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table) + 1
        _table[key] = t
    return t


def reset():
    pass


# ------------------------------------------------------------------ interval sets
INF = float("inf")


def iv_norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_inter(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return iv_norm(out)


def iv_union(a, b):
    return iv_norm(list(a) + list(b))


def iv_minus(a, b):
    out = list(a)
    for lo, hi in b:
        nxt = []
        for x, y in out:
            if hi < x or lo > y:
                nxt.append((x, y))
                continue
            if x < lo:
                nxt.append((x, lo - 1))
            if hi < y:
                nxt.append((hi + 1, y))
        out = nxt
    return iv_norm(out)


def iv_subset(a, b):
    return not iv_minus(a, b)


def iv_has(a, n):
    return any(lo <= n <= hi for lo, hi in a)


def iv_min(a):
    return a[0][0]


def iv_max(a):
    return a[-1][1]


def iv_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def iv_show(a):
    def c(x):
        return repr(chr(x)) if 32 < x < 127 else str(x)

    return "{" + ",".join(c(lo) if lo == hi else "%s..%s" % (c(lo), c(hi)) for lo, hi in a) + "}"


# ------------------------------------------------------------------ integers
_zero = None


def I(n):
    return mk("int", n)


def is_int(t):
    return t.op == "int"


def lin_parts(t):
    """(constant, {atom: coefficient}) of an integer-sorted term"""
    try:
        return t._lp
    except AttributeError:
        pass
    if t.op == "int":
        r = (t.args[0], {})
    elif t.op == "lin":
        r = (t.args[0], dict(t.args[1]))
    else:
        r = (0, {t: 1})
    t._lp = r          # shared: callers must not modify the dictionary
    return r


def mk_lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k * kb
    return mk_lin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def addc(a, n):
    c, d = lin_parts(a)
    return mk_lin(c + n, d)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def atoms_of(t):
    return set(lin_parts(t)[1])


SORT_RANGE = {
    "bool": (0, 1),
    "char": (0, 0x10FFFF),
    "len": (0, 2 ** 48),          # no object is larger than the address space
}
for _b in (8, 16, 32, 64, 128):
    SORT_RANGE["u%d" % _b] = (0, 2 ** _b - 1)
    SORT_RANGE["i%d" % _b] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)
SORT_RANGE["usize"] = SORT_RANGE["u64"]
SORT_RANGE["isize"] = SORT_RANGE["i64"]


def sort_range(s):
    if s in SORT_RANGE:
        return SORT_RANGE[s]
    if s[:1] == "d" and s[1:].isdigit():
        return (0, int(s[1:]) - 1)
    return None


def atom_sort(t):
    """the numeric sort of an atom (always its last argument, by construction)"""
    if t.op == "len":
        return "len"
    if t.args and isinstance(t.args[-1], str):
        return t.args[-1]
    return None


# ------------------------------------------------------------------ booleans
TRUE = I(1)
FALSE = I(0)


def le0(e):
    c, d = lin_parts(e)
    if not d:
        return TRUE if c <= 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum(k*x) <= -c   =>  sum(k/g*x) <= floor(-c/g)
        c = -((-c) // g)
        d = {x: k // g for x, k in d.items()}
    return mk("le0", mk_lin(c, d))


def eq0(e):
    c, d = lin_parts(e)
    if not d:
        return TRUE if c == 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    first = min(d, key=lambda x: x.id)
    s = -1 if d[first] < 0 else 1
    return mk("eq0", mk_lin(s * c // g, {x: s * k // g for x, k in d.items()}))


def bnot(b):
    if b.op == "int":
        return FALSE if b.args[0] else TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le0":
        return le0(addc(scale(b.args[0], -1), 1))
    return mk("not", b)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


# ------------------------------------------------------------------ printing
SHORT = False


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 7:
        return "…"
    o, a = t.op, t.args
    if SHORT:
        if o in ("lv", "phi", "frame", "head", "site"):
            return {"lv": "L", "phi": "P", "frame": "f", "head": "h", "site": "@"}[o] + str(t.id)
        if o == "slice":
            return "%s%s[%s;+%s]" % (show(a[0], depth + 1), "".join("." + show(x, depth + 1) for x in a[1]),
                                     show(a[2], depth + 1), show(a[3], depth + 1))
        if o == "sel":
            return "%s[%s]" % (show(a[0], depth + 1), show(a[1], depth + 1))
        if o == "pf":
            return "%s%d" % ("" if not a[0] else "%d:" % a[0], a[1])
    if o == "int":
        return str(a[0])
    if o == "lin":
        s = []
        for x, k in a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(x, depth + 1))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s) + ")"
    if o == "le0":
        return show(a[0], depth + 1) + "<=0"
    if o == "eq0":
        return show(a[0], depth + 1) + "==0"
    if o == "not":
        return "!" + show(a[0], depth + 1)
    if o == "at":
        return show(a[0], depth + 1)
    if o == "str":
        return repr(a[0])[1:]
    if o == "len":
        return "len(%s)" % show(a[0], depth + 1)
    if o == "deref":
        return "*" + show(a[0], depth + 1)
    if o == "val":
        return show(a[0], depth + 1)
    if o == "fld":
        return "%s.%s%s" % (show(a[0], depth + 1), ("%d:" % a[1]) if a[1] else "", a[2])
    if o == "name":
        return str(a[0])
    return "%s(%s)" % (o, ",".join(show(x, depth + 1) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def replace(t, mapping, cache=None):
    """substitute terms (rebuilds linear expressions canonically)"""
    if cache is None:
        cache = {}
    if isinstance(t, tuple):
        return tuple(replace(x, mapping, cache) for x in t)
    if not isinstance(t, T):
        return t
    if t in mapping:
        return mapping[t]
    if t in cache:
        return cache[t]
    if t.op in ("int", "name", "str"):
        return t
    if t.op == "lin":
        r = I(t.args[0])
        for a, k in t.args[1]:
            r = add(r, replace(a, mapping, cache), k)
    elif t.op == "le0":
        r = le0(replace(t.args[0], mapping, cache))
    elif t.op == "eq0":
        r = eq0(replace(t.args[0], mapping, cache))
    elif t.op == "not":
        r = bnot(replace(t.args[0], mapping, cache))
    else:
        new = tuple(replace(x, mapping, cache) for x in t.args)
        r = t if new == t.args else mk(t.op, *new)
    cache[t] = r
    return r
