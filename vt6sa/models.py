"""Models of the standard library and of the runtime crates, used by the abstract interpreter.

Each model is a transfer function: it describes which results a library function can have for given
abstract arguments, which of them panic, and which facts hold afterwards.
"""
from .terms import *
from .engine import (agg, some, NONE, ok, err, tup, slice_, ptr, Ev, St, Out, Frame, Unsupported, UNIT, MOVED,
                     UNINIT, Call)

M = {}

OPTION = "core::option::Option"
RESULT = "core::result::Result"
VEC = "vec"
ASCII = ((0, 127),)
DIGIT = ((48, 57),)


def model(*names):
    def deco(f):
        for n in names:
            assert n not in M, n
            M[n] = f
        return f
    return deco


def pf(i, ty=None, variant=0):
    return mk("pf", variant, i, -1 if ty is None else ty)


def fork(eng, st, cond):
    return eng.branch(st, cond)


def must(eng, st, c, cond, what):
    """obligation: list of states where cond holds, plus panic outcomes"""
    outs = []
    good = []
    key = (c.frame.name, c.span, what)
    if not eng.quiet:
        eng.obl_total[key] = eng.obl_total.get(key, 0) + 1
    for truth, s in eng.branch(st, cond):
        if truth:
            good.append(s)
        else:
            outs.append(eng.panic(s, c.frame, what, c.span))
    return good, outs


def deref_val(eng, st, v, ty=None):
    """value behind a reference"""
    if v.op == "ptr":
        return eng.load(st, v.args[0], v.args[1], ty)
    return None


def elem_ty(eng, ty):
    """element type id of a reference-to-slice/str/Vec type id"""
    t = eng.T[ty]
    while t["k"] in ("ref", "ptr"):
        t = eng.T[t["e"]]
    if t["k"] in ("slice", "array"):
        return t["e"]
    if t["k"] == "str":
        return "u8"
    if t["k"] == "adt" and t.get("args"):
        return t["args"][0]
    return None


def select(eng, st, arr, idx, ety):
    if ety == "u8" or ety is None:
        o = arr.op
        if o == "bytes" and idx.op == "int":
            n = idx.args[0]
            return I(arr.args[0][n]) if 0 <= n < len(arr.args[0]) else mk("bad")
        return select_u8(eng, st, arr, idx)
    return eng.select(st, arr, idx, ety)


def select_u8(eng, st, v, idx):
    o = v.op
    f = st.fact
    if o == "arrlit" and idx.op == "int" and 0 <= idx.args[0] < len(v.args):
        return v.args[idx.args[0]]
    if o == "arrrep":
        return v.args[0]
    if o == "store":
        a, j, x = v.args
        if f.eq(j, idx):
            return x
        if f.ne(j, idx):
            return select_u8(eng, st, a, idx)
    if o == "copyrng":
        a, s, n, b, bs = v.args
        if f.le(s, idx) and f.lt(idx, add(s, n)):
            return select_u8(eng, st, b, add(bs, sub(idx, s)))
        if f.lt(idx, s) or f.le(add(s, n), idx):
            return select_u8(eng, st, a, idx)
    if o == "bytes" and idx.op == "int":
        n = idx.args[0]
        return I(v.args[0][n]) if 0 <= n < len(v.args[0]) else mk("bad")
    at = mk("sel", v, idx, "u8")
    if at not in f.dom:
        # another name for the same element?
        for b in f.dom:
            if b.op == "sel" and b.args[0] is v and sub(b.args[1], idx).op != "int" and f.eq(b.args[1], idx):
                return b
    return at


def arr_of(eng, st, s):
    return eng.load(st, s.args[0], s.args[1])


def byte(eng, st, s, i):
    """i-th byte of a slice"""
    return select_u8(eng, st, arr_of(eng, st, s), add(s.args[2], i))


def content(eng, st, s):
    """content addressed view of a slice (survives later writes)"""
    if s.op != "slice":
        return s
    a = arr_of(eng, st, s)
    if a.op == "bytes" and s.args[2].op == "int" and s.args[3].op == "int":
        b = a.args[0][s.args[2].args[0]:s.args[2].args[0] + s.args[3].args[0]]
        return slice_(mk("const", b), (), I(0), I(len(b)))
    if s.args[0].op in ("cv",) and not s.args[1]:
        return s
    # look through copies that cover the window completely
    st_, ln = s.args[2], s.args[3]
    while a.op in ("copyrng", "store"):
        if a.op == "copyrng":
            b, cs, cn, src, ss = a.args
            if st.fact.le(cs, st_) and st.fact.le(add(st_, ln), add(cs, cn)):
                a, st_ = src, add(ss, sub(st_, cs))
                continue
            if st.fact.le(add(cs, cn), st_) or st.fact.le(add(st_, ln), cs):
                a = b
                continue
        else:
            b, j, x = a.args
            if st.fact.lt(j, st_) or st.fact.le(add(st_, ln), j):
                a = b
                continue
        break
    if a.op == "bytes" and st_.op == "int" and ln.op == "int":
        b = a.args[0][st_.args[0]:st_.args[0] + ln.args[0]]
        return slice_(mk("const", b), (), I(0), I(len(b)))
    return slice_(mk("cv", a), (), st_, ln)


def const_bytes(eng, st, s):
    """the bytes of a constant slice or None"""
    if s.op != "slice":
        return None
    s = content(eng, st, s)
    if s.args[0].op == "const" and s.args[2].op == "int" and s.args[3].op == "int":
        return s.args[0].args[0][s.args[2].args[0]:s.args[2].args[0] + s.args[3].args[0]]
    if s.args[0].op == "cv" and s.args[0].args[0].op == "bytes" and s.args[2].op == "int" and s.args[3].op == "int":
        return s.args[0].args[0].args[0][s.args[2].args[0]:s.args[2].args[0] + s.args[3].args[0]]
    if st.fact.strv:
        v = st.fact.strv.get(s)
        if v is not None:
            return v
    return None


def seq_eq(eng, st, a, b):
    """boolean term: the byte sequences are equal"""
    if a.op != "slice" or b.op != "slice":
        return mk("eqv", *sorted((a, b), key=lambda x: x.id), "bool")
    ka, kb = const_bytes(eng, st, a), const_bytes(eng, st, b)
    if ka is not None and kb is not None:
        return TRUE if ka == kb else FALSE
    if ka is not None:
        a, b, ka, kb = b, a, kb, ka
    if kb is not None:
        n = len(kb)
        if st.fact.decide(eq0(addc(a.args[3], -n))) is False:
            return FALSE
        if n <= 2:
            t = eq0(addc(a.args[3], -n))
            for i in range(n):
                t = band(t, eq0(addc(byte(eng, st, a, I(i)), -kb[i])))
            return t
        return mk("seqeq", content(eng, st, a), kb)
    ca, cb = content(eng, st, a), content(eng, st, b)
    if ca is cb:
        return TRUE
    same = st.fact.decide(eq0(sub(ca.args[3], cb.args[3])))
    if same is False:
        return FALSE
    if same is True and ca.args[0] is cb.args[0] and ca.args[1] == cb.args[1] and st.fact.eq(ca.args[2], cb.args[2]):
        return TRUE
    if st.fact.decide(eq0(ca.args[3])) is True and st.fact.decide(eq0(cb.args[3])) is True:
        return TRUE
    return mk("sliceeq", *sorted((ca, cb), key=lambda x: x.id), "bool")


# ------------------------------------------------------------------ slices
@model("[T]::len", "str::len")
def m_len(eng, st, c):
    s = c.args[0]
    return [(st, s.args[3] if s.op == "slice" else mk("len", s))]


@model("[T]::is_empty", "str::is_empty")
def m_is_empty(eng, st, c):
    s = c.args[0]
    return [(st, eq0(s.args[3] if s.op == "slice" else mk("len", s)))]


@model("str::as_bytes", "core::str::converts::from_utf8_unchecked", "str::as_bytes_mut",
       "std::path::Path::new", "std::path::Path::as_os_str", "std::ffi::os_str::OsStr::new",
       "<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::as_bytes",
       "<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::from_bytes",
       "<[T] as core::convert::AsRef>::as_ref", "<str as core::convert::AsRef>::as_ref",
       "std::ffi::os_str::OsStr::as_encoded_bytes")
def m_view(eng, st, c):
    v = c.args[0]
    if v.op == "ptr" and c.name == "std::path::Path::new":
        return None
    if c.name.endswith("from_utf8_unchecked"):
        st.emit(Ev("unchecked", c.name, (content(eng, st, v),), None, c.span, c.frame.name,
                   data=(v, ascii_known(eng, st, v))))
    return [(st, v)]


def ascii_known(eng, st, v):
    return v.op == "slice" and eng.all_in(st, arr_of(eng, st, v), v.args[2], add(v.args[2], v.args[3]), ASCII)


def range_parts(eng, st, c, idx, ity, ln):
    """(kind, lo, hi) of an index value; hi exclusive"""
    t = eng.T[ity]
    if t["k"] == "int":
        return ("one", idx, None)
    d = t.get("def", "")
    n = d.rsplit("::", 1)[-1]
    us = next((i for i, x in enumerate(eng.T) if x["k"] == "int" and x["s"] == "usize"), None)
    g = lambda i: eng.proj(st, idx, pf(i, us))
    if n == "Range":
        return ("rng", g(0), g(1))
    if n == "RangeFrom":
        return ("rng", g(0), ln)
    if n == "RangeTo":
        return ("rng", I(0), g(0))
    if n == "RangeFull":
        return ("rng", I(0), ln)
    if n == "RangeInclusive":
        return ("rng", g(0), addc(g(1), 1))
    if n == "RangeToInclusive":
        return ("rng", I(0), addc(g(0), 1))
    raise Unsupported("index type " + d)


def is_boundary(eng, st, s, i):
    """term: byte index i is a char boundary of the str slice"""
    f = st.fact
    if f.decide(eq0(i)) is True or f.decide(eq0(sub(i, s.args[3]))) is True:
        return TRUE
    b = byte(eng, st, s, i)
    p = byte(eng, st, s, addc(i, -1))
    if iv_subset(f.range_of(p), ASCII) or not iv_inter(f.range_of(b), ((128, 191),)):
        return TRUE
    if eng.all_in(st, arr_of(eng, st, s), s.args[2], add(s.args[2], i), ASCII):
        return TRUE
    cont = band(le0(sub(I(128), b)), le0(sub(b, I(191))))
    return bnot(band(bnot(eq0(i)), band(bnot(eq0(sub(i, s.args[3]))), cont)))


def index_common(eng, st, c, s, idx, ity, ety, isstr):
    ln = s.args[3]
    kind, lo, hi = range_parts(eng, st, c, idx, ity, ln)
    outs = []
    if kind == "one":
        good, outs = must(eng, st, c, band(le0(addc(sub(idx, ln), 1)), le0(scale(idx, -1))), "index out of bounds")
        for g in good:
            outs.append(Out("ret", g, ptr(s.args[0], s.args[1] + (mk("pi", add(s.args[2], idx), ety),))))
        return outs
    good, outs = must(eng, st, c, le0(sub(lo, hi)), "slice index: start after end")
    for g in good:
        g2, o2 = must(eng, g, c, le0(sub(hi, ln)), "slice index: end out of bounds")
        outs += o2
        for h in g2:
            hs = [h]
            if isstr:
                for i in (lo, hi):
                    nx = []
                    for x in hs:
                        ga, oa = must(eng, x, c, is_boundary(eng, x, s, i), "str index: not a char boundary")
                        outs += oa
                        nx += ga
                    hs = nx
            for x in hs:
                outs.append(Out("ret", x, slice_(s.args[0], s.args[1], add(s.args[2], lo), sub(hi, lo))))
    return outs


@model("<[T] as core::ops::index::Index>::index", "<[T] as core::ops::index::IndexMut>::index_mut",
       "<str as core::ops::index::Index>::index", "<str as core::ops::index::IndexMut>::index_mut")
def m_index(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    isstr = c.name.startswith("<str")
    return index_common(eng, st, c, s, c.args[1], c.atys[1], None if isstr else elem_ty(eng, c.atys[0]), isstr)


@model("[T]::get", "[T]::get_mut", "str::get", "[T]::get_unchecked", "[T]::get_unchecked_mut", "str::get_unchecked")
def m_get(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    isstr = c.name.startswith("str")
    ety = elem_ty(eng, c.atys[0]) if not isstr else None
    kind, lo, hi = range_parts(eng, st, c, c.args[1], c.atys[1], s.args[3])
    if "unchecked" in c.name:
        st.emit(Ev("unchecked", c.name, (s, lo), None, c.span, c.frame.name, data=(s, False)))
        if kind == "one":
            return [(st, ptr(s.args[0], s.args[1] + (mk("pi", add(s.args[2], lo), ety),)))]
        return [(st, slice_(s.args[0], s.args[1], add(s.args[2], lo), sub(hi, lo)))]
    res = []
    if kind == "one":
        for t, g in fork(eng, st, le0(addc(sub(lo, s.args[3]), 1))):
            res.append((g, some(ptr(s.args[0], s.args[1] + (mk("pi", add(s.args[2], lo), ety),))) if t else NONE))
        return res
    cond = band(le0(sub(lo, hi)), le0(sub(hi, s.args[3])))
    for t, g in fork(eng, st, cond):
        if not t:
            res.append((g, NONE))
            continue
        cs = [(True, g)]
        if isstr:
            nx = []
            for t2, g2 in fork(eng, g, band(is_boundary(eng, g, s, lo), is_boundary(eng, g, s, hi))):
                nx.append((t2, g2))
            cs = nx
        for t2, g2 in cs:
            res.append((g2, some(slice_(s.args[0], s.args[1], add(s.args[2], lo), sub(hi, lo))) if t2 else NONE))
    return res


def elem_ptr(eng, s, i, ety):
    return ptr(s.args[0], s.args[1] + (mk("pi", add(s.args[2], i), ety),))


@model("[T]::first", "[T]::first_mut", "[T]::last", "[T]::last_mut")
def m_first_last(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    ety = elem_ty(eng, c.atys[0])
    res = []
    for t, g in fork(eng, st, eq0(s.args[3])):
        i = I(0) if "first" in c.name else addc(s.args[3], -1)
        res.append((g, NONE if t else some(elem_ptr(eng, s, i, ety))))
    return res


@model("[T]::split_first", "[T]::split_last", "[T]::split_first_mut", "[T]::split_last_mut")
def m_split_first(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    ety = elem_ty(eng, c.atys[0])
    res = []
    for t, g in fork(eng, st, eq0(s.args[3])):
        if t:
            res.append((g, NONE))
        elif "first" in c.name:
            res.append((g, some(tup(elem_ptr(eng, s, I(0), ety),
                                    slice_(s.args[0], s.args[1], addc(s.args[2], 1), addc(s.args[3], -1))))))
        else:
            res.append((g, some(tup(elem_ptr(eng, s, addc(s.args[3], -1), ety),
                                    slice_(s.args[0], s.args[1], s.args[2], addc(s.args[3], -1))))))
    return res


@model("[T]::split_at", "[T]::split_at_mut", "str::split_at", "[T]::split_at_checked", "str::split_at_checked",
       "[T]::split_at_mut_checked")
def m_split_at(eng, st, c):
    s, n = c.args[0], c.args[1]
    if s.op != "slice":
        return None
    a = slice_(s.args[0], s.args[1], s.args[2], n)
    b = slice_(s.args[0], s.args[1], add(s.args[2], n), sub(s.args[3], n))
    cond = le0(sub(n, s.args[3]))
    if "checked" in c.name:
        return [(g, some(tup(a, b)) if t else NONE) for t, g in fork(eng, st, cond)]
    good, outs = must(eng, st, c, cond, "split_at out of bounds")
    for g in good:
        hs = [g]
        if c.name.startswith("str"):
            hs, o = must(eng, g, c, is_boundary(eng, g, s, n), "split_at: not a char boundary")
            outs += o
        outs += [Out("ret", h, tup(a, b)) for h in hs]
    return outs


def starts_term(eng, st, a, b):
    kb = const_bytes(eng, st, b)
    if kb is not None and len(kb) <= 12:
        t = le0(sub(I(len(kb)), a.args[3]))
        if st.fact.decide(t) is False:
            return FALSE
        for i, x in enumerate(kb):
            t = band(t, eq0(addc(byte(eng, st, a, I(i)), -x)))
        return t
    ca, cb = content(eng, st, a), content(eng, st, b)
    if ca is cb:
        return TRUE
    if st.fact.decide(eq0(cb.args[3])) is True:
        return TRUE
    return mk("starts", ca, cb, "bool")


@model("[T]::starts_with", "[T]::ends_with")
def m_starts_with(eng, st, c):
    a, b = c.args[0], c.args[1]
    if a.op != "slice" or b.op != "slice":
        return None
    if c.name.endswith("ends_with"):
        kb = const_bytes(eng, st, b)
        if kb is None:
            return [(st, mk("ends", content(eng, st, a), content(eng, st, b), "bool"))]
        t = le0(sub(I(len(kb)), a.args[3]))
        for i, x in enumerate(kb):
            t = band(t, eq0(addc(byte(eng, st, a, addc(a.args[3], i - len(kb))), -x)))
        return [(st, t)]
    return with_prefix_facts(eng, st, a, b)


def with_prefix_facts(eng, st, a, b):
    t = starts_term(eng, st, a, b)
    if t.op == "starts":
        res = []
        for tr, g in fork(eng, st, t):
            if tr:
                f = g.fact.add_le(sub(b.args[3], a.args[3]))
                if f is None:
                    continue
                g = g.with_fact(f)
            res.append((g, TRUE if tr else FALSE))
        return res
    return [(st, t)]


def pat_bytes(eng, st, v, ty):
    """a str pattern argument as ('seq', slice) / ('char', term) / None"""
    t = eng.T[ty]
    if t["k"] == "char":
        return ("char", v)
    if v.op == "slice" and t["k"] == "ref" and eng.T[t["e"]]["k"] == "str":
        return ("seq", v)
    return None


@model("str::starts_with")
def m_str_starts_with(eng, st, c):
    a = c.args[0]
    p = pat_bytes(eng, st, c.args[1], c.atys[1])
    if a.op != "slice" or p is None:
        return None
    if p[0] == "char":
        if p[1].op == "int" and p[1].args[0] < 128:
            return [(st, band(bnot(eq0(a.args[3])), eq0(sub(byte(eng, st, a, I(0)), p[1]))))]
        return None
    return with_prefix_facts(eng, st, a, p[1])


@model("[T]::strip_prefix", "str::strip_prefix")
def m_strip_prefix(eng, st, c):
    a, b = c.args[0], c.args[1]
    if c.name.startswith("str"):
        p = pat_bytes(eng, st, b, c.atys[1])
        if p is None:
            return None
        if p[0] == "char":
            if not (p[1].op == "int" and p[1].args[0] < 128):
                return None
            t = band(bnot(eq0(a.args[3])), eq0(sub(byte(eng, st, a, I(0)), p[1])))
            n = I(1)
        else:
            t, n = starts_term(eng, st, a, b), b.args[3]
    else:
        if b.op != "slice":
            v = deref_val(eng, st, b)
            if v is None or v.op not in ("arrlit", "bytes"):
                return None
            ln = len(v.args) if v.op == "arrlit" else len(v.args[0])
            b = slice_(b.args[0], b.args[1], I(0), I(ln))
        t, n = starts_term(eng, st, a, b), b.args[3]
    res = []
    for tr, g in fork(eng, st, t):
        if tr:
            f = g.fact.add_le(sub(n, a.args[3]))
            if f is None:
                continue
            g = g.with_fact(f)
            res.append((g, some(slice_(a.args[0], a.args[1], add(a.args[2], n), sub(a.args[3], n)))))
        else:
            res.append((g, NONE))
    return res


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def m_copy_from_slice(eng, st, c):
    d, s = c.args
    if d.op != "slice" or s.op != "slice":
        return None
    good, outs = must(eng, st, c, eq0(sub(d.args[3], s.args[3])), "copy_from_slice: lengths differ")
    for g in good:
        do_copy(eng, g, c, d, s)
        outs.append(Out("ret", g, UNIT))
    return outs


def do_copy(eng, st, c, d, s):
    """write the content of s over the slice d (same length)"""
    src = content(eng, st, s)
    if st.fact.decide(eq0(d.args[3])) is True:
        return
    old = eng.load(st, d.args[0], d.args[1])
    arr = mk("bytes", src.args[0].args[0]) if src.args[0].op == "const" else src.args[0].args[0] \
        if src.args[0].op == "cv" else arr_of(eng, st, src)
    st.emit(Ev("copy", "copy", (d, src), None, c.span, c.frame.name))
    n = d.args[3]
    if n.op == "int" and n.args[0] <= 16:
        v = old
        for i in range(n.args[0]):
            v = mk("store", v, addc(d.args[2], i), select_u8(eng, st, arr, addc(src.args[2], i)))
        eng.store(st, d.args[0], d.args[1], v)
        return
    eng.store(st, d.args[0], d.args[1], mk("copyrng", old, d.args[2], n, arr, src.args[2]))


@model("[T]::fill")
def m_fill(eng, st, c):
    d, v = c.args
    if d.op != "slice":
        return None
    old = eng.load(st, d.args[0], d.args[1])
    eng.store(st, d.args[0], d.args[1], mk("copyrng", old, d.args[2], d.args[3], mk("arrrep", v, 0), I(0)))
    return [(st, UNIT)]


@model("[T]::contains")
def m_contains(eng, st, c):
    s = c.args[0]
    x = deref_val(eng, st, c.args[1])
    if s.op != "slice" or x is None:
        return None
    k = const_bytes(eng, st, s)
    if k is not None:
        t = FALSE
        for b in sorted(set(k)):
            t = bor(t, eq0(addc(x, -b)))
        return [(st, t)]
    return [(st, mk("contains", content(eng, st, s), x, "bool"))]


@model("<str as core::cmp::PartialEq>::eq", "<[T] as core::cmp::PartialEq>::eq", "<[T] as core::cmp::PartialEq<[U]>>::eq",
       "<std::path::Path as core::cmp::PartialEq>::eq", "<std::ffi::os_str::OsStr as core::cmp::PartialEq>::eq")
def m_seq_eq(eng, st, c):
    a, b = c.args[0], c.args[1]
    if a.op != "slice" or b.op != "slice":
        return None
    return [(st, seq_eq(eng, st, a, b))]


@model("<str as core::cmp::PartialEq>::ne", "<[T] as core::cmp::PartialEq>::ne")
def m_seq_ne(eng, st, c):
    r = m_seq_eq(eng, st, c)
    return r and [(s, bnot(v)) for s, v in r]


# ------------------------------------------------------------------ str
@model("core::str::converts::from_utf8", "str::from_utf8")
def m_from_utf8(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    cs = content(eng, st, s)
    if ascii_known(eng, st, s):
        return [(st, ok(s))]
    at = mk("utf8", cs, "bool")
    res = []
    for t, g in fork(eng, st, at):
        res.append((g, ok(s) if t else err(mk("utf8err", cs))))
    return res


@model("str::find")
def m_str_find(eng, st, c):
    s, p = c.args[0], pat_bytes(eng, st, c.args[1], c.atys[1])
    if s.op != "slice" or p is None or p[0] != "char" or not (p[1].op == "int" and p[1].args[0] < 128):
        return None
    ch = p[1].args[0]
    arr = arr_of(eng, st, s)
    notc = iv_minus(((0, 255),), ((ch, ch),))
    idx = mk("find", content(eng, st, s), ch, "usize")
    res = []
    has = mk("hasbyte", content(eng, st, s), ch, "bool")
    for t, g in fork(eng, st, has):
        if t:
            f = g.fact.add_le(addc(sub(idx, s.args[3]), 1))
            f = f and f.add_le(scale(idx, -1))
            if f is None:
                continue
            f = f.add_all(arr, s.args[2], add(s.args[2], idx), notc)
            f = f.add_eq(addc(select_u8(eng, g, arr, add(s.args[2], idx)), -ch))
            if f is None:
                continue
            res.append((g.with_fact(f), some(idx)))
        else:
            if eng.all_in(g, arr, s.args[2], add(s.args[2], s.args[3]), notc):
                res.append((g, NONE))
            else:
                res.append((g.with_fact(g.fact.add_all(arr, s.args[2], add(s.args[2], s.args[3]), notc)), NONE))
    return res


@model("str::split_once")
def m_split_once(eng, st, c):
    r = m_str_find(eng, st, c)
    if r is None:
        return None
    s = c.args[0]
    out = []
    for g, v in r:
        if v is NONE:
            out.append((g, NONE))
        else:
            i = v.args[2]
            out.append((g, some(tup(slice_(s.args[0], s.args[1], s.args[2], i),
                                    slice_(s.args[0], s.args[1], add(add(s.args[2], i), I(1)),
                                           addc(sub(s.args[3], i), -1))))))
    return out


@model("str::contains")
def m_str_contains(eng, st, c):
    r = m_str_find(eng, st, c)
    return [(g, FALSE if v is NONE else TRUE) for g, v in r] if r else contains_text(eng, st, c)


@model("str::parse", "<u8 as core::str::traits::FromStr>::from_str", "<u16 as core::str::traits::FromStr>::from_str",
       "<u32 as core::str::traits::FromStr>::from_str", "<u64 as core::str::traits::FromStr>::from_str",
       "<usize as core::str::traits::FromStr>::from_str")
def m_parse(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    # result type
    t = eng.T[c.dty]
    vt = t["args"][0]
    srt = eng.sort(vt)
    if not srt or srt in ("bool", "char"):
        return None
    lo, hi = sort_range(srt)
    cs = content(eng, st, s)
    arr = arr_of(eng, st, s)
    res = []
    v = mk("parseint", cs, srt)
    n = s.args[3]
    b0 = byte(eng, st, s, I(0))
    works = mk("parses", cs, srt, "bool")       # the same bytes give the same result every time

    def case(name, first, rest_from, minlen, vlo, vhi, maxlen=None):
        g = st.copy()
        f = g.fact.add_le(sub(I(minlen), n))
        if maxlen is not None:
            f = f and f.add_le(sub(n, I(maxlen)))
        if f is None:
            return
        f = f.add_eq(addc(b0, -first[0][0])) if iv_size(first) == 1 else restrict(f, b0, first)
        if f is None:
            return
        g.fact = f
        if rest_from == 1:
            b1 = byte(eng, g, s, I(1))
            f = restrict(f, b1, DIGIT)
            if f is None:
                return
        a0 = add(s.args[2], I(rest_from))
        a1 = add(s.args[2], n)
        if not eng.all_in(g, arr, a0, a1, DIGIT):
            f = f.add_all(arr, a0, a1, DIGIT)
        f = f.add_le(sub(v, I(vhi)))
        f = f and f.add_le(sub(I(vlo), v))
        f = f and f._setdom(works, ((1, 1),))
        if f is None:
            return
        # contradictory with what is known about single bytes?
        for k, iv in list(f.dom.items()):
            if k.op == "sel" and k.args[0] is arr and f.le(a0, k.args[1]) and f.lt(k.args[1], a1):
                if not iv_inter(iv, DIGIT):
                    return
        g.fact = f
        g.emit(Ev("parseint", srt, (cs,), v, c.span, c.frame.name, data=name))
        res.append((g, ok(v)))
    case("zero", ((48, 48),), 0, 1, 0, 0, 1)
    case("zero", ((48, 48),), 0, 2, 0, hi)
    case("digits", ((49, 57),), 0, 1, 1, hi)
    case("plus", ((43, 43),), 1, 2, 0, hi)
    if lo < 0:
        case("minus", ((45, 45),), 1, 2, lo, 0)
    g = st.copy()
    g.fact = g.fact._setdom(works, ((0, 0),))
    if g.fact is None:
        return res
    g.emit(Ev("parseint", srt, (cs,), None, c.span, c.frame.name, data="error"))
    # a non-empty sequence of digits is only rejected when the value is out of range
    res.append((g, err(mk("parseerr", cs, srt))))
    return res


def restrict(f, e, ivs):
    """facts /\\ e in ivs for an expression with at most one atom"""
    c, d = lin_parts(e)
    if not d:
        return f if iv_has(ivs, c) else None
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return f._setdom(a, tuple((lo - c, hi - c) for lo, hi in ivs))
    f = f.add_le(sub(I(iv_min(ivs)), e))
    return f and f.add_le(sub(e, I(iv_max(ivs))))


# ------------------------------------------------------------------ iterators over sequences
def it_slice(s, ety):
    return agg("it:slice", 0, s, mk("ty", ety))


@model("[T]::iter", "[T]::iter_mut", "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&mut [T] as core::iter::traits::collect::IntoIterator>::into_iter")
def m_iter(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    return [(st, it_slice(s, elem_ty(eng, c.atys[0])))]


@model("str::bytes")
def m_bytes(eng, st, c):
    return [(st, agg("it:bytes", 0, c.args[0]))] if c.args[0].op == "slice" else None


@model("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::count")
def m_chars_count(eng, st, c):
    """as many as bytes if all are ASCII, otherwise at least a quarter of that"""
    v = c.args[0]
    if v.op != "agg" or v.args[0] != "it:chars" or v.args[2].op != "slice":
        return None
    s = v.args[2]
    arr = arr_of(eng, st, s)
    n = s.args[3]
    if eng.all_in(st, arr, s.args[2], add(s.args[2], n), ((0, 127),)):
        return [(st, n)]
    r = mk("nchars", s, arr, "usize")
    f = st.fact.add_le(sub(r, n))
    f = f and f.add_le(sub(n, scale(r, 4)))
    if f is None:
        return []
    st.fact = f
    return [(st, r)]


@model("str::chars")
def m_chars(eng, st, c):
    return [(st, agg("it:chars", 0, c.args[0]))] if c.args[0].op == "slice" else None


@model("str::char_indices")
def m_char_indices(eng, st, c):
    return [(st, agg("it:charidx", 0, c.args[0], I(0)))] if c.args[0].op == "slice" else None


def adv(s, k):
    return slice_(s.args[0], s.args[1], add(s.args[2], k), sub(s.args[3], k))


def it_value(eng, st, p):
    v = eng.load(st, p.args[0], p.args[1])
    return v if v.op == "agg" and isinstance(v.args[0], str) and v.args[0].startswith("it:") else None


def it_next(eng, st, p, back=False):
    """[(state, item or None)] for the built-in iterator at pointer p"""
    v = it_value(eng, st, p)
    if v is None:
        return None
    k = v.args[0]
    setv = lambda s, nv: eng.store(s, p.args[0], p.args[1], nv)
    if k in ("it:slice", "it:bytes"):
        s = v.args[2]
        res = []
        for t, g in fork(eng, st, eq0(s.args[3])):
            if t:
                res.append((g, None))
                continue
            ety = v.args[3].args[0] if k == "it:slice" else None
            if back:
                item = elem_ptr(eng, s, addc(s.args[3], -1), ety)
                ns = slice_(s.args[0], s.args[1], s.args[2], addc(s.args[3], -1))
            else:
                item = elem_ptr(eng, s, I(0), ety)
                ns = adv(s, I(1))
            if k == "it:bytes":
                item = byte(eng, g, s, addc(s.args[3], -1) if back else I(0))
            setv(g, mk("agg", k, 0, ns, *v.args[3:]))
            res.append((g, item))
        return res
    if k in ("it:chars", "it:charidx"):
        if back:
            return None
        s = v.args[2]
        res = []
        for t, g in fork(eng, st, eq0(s.args[3])):
            if t:
                res.append((g, None))
                continue
            b = byte(eng, g, s, I(0))
            for asc, h in fork(eng, g, le0(addc(b, -127))):
                if asc:
                    ch, w = b, I(1)
                else:
                    ch = mk("chr", arr_of(eng, h, s), s.args[2], "char")
                    w = mk("chw", arr_of(eng, h, s), s.args[2], "usize")
                    f = h.fact._setdom(ch, ((128, 0x10FFFF),))
                    f = f and f._setdom(w, ((2, 4),))
                    f = f and f.add_le(sub(w, s.args[3]))
                    f = f and restrict(f, b, ((0xC2, 0xF4),))
                    if f is None:
                        continue
                    h = h.with_fact(f)
                if k == "it:chars":
                    setv(h, agg(k, 0, adv(s, w)))
                    res.append((h, ch))
                else:
                    setv(h, agg(k, 0, adv(s, w), add(v.args[3], w)))
                    res.append((h, tup(v.args[3], ch)))
        return res
    if k == "it:zip":
        if back:
            return None
        res = []
        ra = it_next(eng, st, ptr(p.args[0], p.args[1] + (pf(0),)))
        if ra is None:
            return None
        for g, x in ra:
            if x is None:
                res.append((g, None))
                continue
            rb = it_next(eng, g, ptr(p.args[0], p.args[1] + (pf(1),)))
            if rb is None:
                return None
            res += [(h, None if y is None else tup(x, y)) for h, y in rb]
        return res
    if k == "it:vecinto":
        # remaining elements of a consumed vector: array, start, end
        arr, lo, hi, ety = v.args[2], v.args[3], v.args[4], v.args[5].args[0]
        res = []
        for t, g in fork(eng, st, le0(sub(hi, lo))):
            if t:
                res.append((g, None))
            elif back:
                setv(g, agg(k, 0, arr, lo, addc(hi, -1), v.args[5]))
                res.append((g, eng.select(g, arr, addc(hi, -1), ety)))
            else:
                setv(g, agg(k, 0, arr, addc(lo, 1), hi, v.args[5]))
                res.append((g, eng.select(g, arr, lo, ety)))
        return res
    if k == "it:esc":
        b, i, n, total = v.args[2:6]
        if i is n:
            return [(st, None)]
        if back:
            i = addc(n, -1)
        setv(st, mk("agg", k, 0, b, *((v.args[3], i) if back else (addc(i, 1), n)), total))
        return [(st, b if total is I(1) else mk("escitem", b, i, "u8"))]
    if k == "it:maplit":
        cont, kind, keys, vt = v.args[2:6]
        if not keys.args:
            return [(st, None)]
        key = keys.args[-1 if back else 0]
        setv(st, agg(k, 0, cont, kind, mk("maplit", *(keys.args[:-1] if back else keys.args[1:])), vt))
        e = ptr(entry_of(st, cont, None, key, vt.args[0]))
        st.emit(Ev("mapitem", kind.args[0], (cont, key), e, None, None))
        kp = ptr(mk("keyref", key))
        st.mem[kp.args[0]] = key
        return [(st, tup(kp, e) if kind.args[0] == "iter" else kp if kind.args[0] == "keys" else e)]
    if k == "it:map":
        # values of a hash map: container, kind, item type, number of items drawn so far
        cont, kind, cnt = v.args[2], v.args[3], v.args[4]
        res = []
        key = mk("mapkey", cont, cnt, v.args[6])
        more = mk("mapmore", cont, cnt, "bool")
        for t, g in fork(eng, st, more):
            if not t:
                res.append((g, None))
                continue
            ncnt = mk("mapcnt", cont, cnt, "")
            setv(g, agg(k, 0, cont, kind, ncnt, v.args[5], v.args[6]))
            ent = map_entry_root(cont, key)
            vty = v.args[5].args[0]
            if vty is not None and ent not in g.rty:
                g.rty = dict(g.rty)
                g.rty[ent] = vty
            e = ptr(ent)
            g.emit(Ev("mapitem", kind.args[0], (cont, key), e, None, None))
            kp = ptr(mk("keyref", key))
            g.mem[kp.args[0]] = key
            res.append((g, tup(kp, e) if kind.args[0] == "iter" else kp if kind.args[0] == "keys" else e))
        return res
    return None


def opt_outs(rs):
    return [Out("ret", g, NONE if v is None else some(v)) for g, v in rs]


IT = "core::iter::traits::iterator::Iterator::"
DIT = "core::iter::traits::double_ended::DoubleEndedIterator::"
EIT = "core::iter::traits::exact_size::ExactSizeIterator::"


@model(IT + "zip")
def m_zip(eng, st, c):
    ab = []
    for v, ty in zip(c.args[:2], c.atys[:2]):
        if v.op == "slice" and eng.T[ty]["k"] == "ref" and eng.T[eng.T[ty]["e"]]["k"] == "slice":
            v = it_slice(v, elem_ty(eng, ty))
        if v.op != "agg" or v.args[0] not in ("it:slice", "it:bytes"):
            return None
        ab.append(v)
    return [(st, agg("it:zip", 0, *ab))]


@model(IT + "next", DIT + "next_back")
def m_next(eng, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    r = it_next(eng, st, p, c.gname.endswith("next_back"))
    return None if r is None else opt_outs(r)


@model(IT + "size_hint", EIT + "len", IT + "count")
def m_it_len(eng, st, c):
    v = it_value(eng, st, c.args[0]) if c.args[0].op == "ptr" else c.args[0]
    if v is None or v.op != "agg" or v.args[0] not in ("it:slice", "it:bytes", "it:vecinto"):
        return None
    n = sub(v.args[4], v.args[3]) if v.args[0] == "it:vecinto" else v.args[2].args[3]
    if c.gname.endswith("size_hint"):
        return [(st, tup(n, some(n)))]
    return [(st, n)]


@model(IT + "nth")
def m_nth(eng, st, c):
    v = it_value(eng, st, c.args[0]) if c.args[0].op == "ptr" else None
    if v is None or v.args[0] not in ("it:slice", "it:bytes"):
        return None
    s, n = v.args[2], c.args[1]
    res = []
    for t, g in fork(eng, st, le0(addc(sub(n, s.args[3]), 1))):
        if t:
            eng.store(g, c.args[0].args[0], c.args[0].args[1], mk("agg", v.args[0], 0, adv(s, n), *v.args[3:]))
            res += opt_outs(it_next(eng, g, c.args[0]))
        else:
            eng.store(g, c.args[0].args[0], c.args[0].args[1],
                      mk("agg", v.args[0], 0, adv(s, s.args[3]), *v.args[3:]))
            res.append(Out("ret", g, NONE))
    return res


@model("<core::slice::iter::Iter as core::clone::Clone>::clone", "<core::str::iter::Chars as core::clone::Clone>::clone",
       "<core::str::iter::CharIndices as core::clone::Clone>::clone")
def m_it_clone(eng, st, c):
    v = deref_val(eng, st, c.args[0])
    return [(st, v)] if v is not None else None


@model("core::slice::iter::Iter::as_slice", "core::str::iter::Chars::as_str")
def m_it_as_slice(eng, st, c):
    v = it_value(eng, st, c.args[0])
    return [(st, v.args[2])] if v is not None else None


# consumers with callbacks: analysed as loops over `next`
_bodies = {}


def synth(eng, st, c, kind, blocks, vals):
    """run a synthetic body; vals: initial values of its locals 1.."""
    key = (kind, len(vals))
    if key not in _bodies:
        _bodies[key] = {"argc": len(vals), "spread": None, "locals": [None] * (len(vals) + 4), "names": {},
                        "blocks": [{"s": [], "t": ["S", fn, succ], "c": False} for fn, succ in blocks]}
    body = _bodies[key]
    ins = {"id": "synth:" + kind, "def": "synth:" + kind, "local": False}
    fid = mk("frame", c.site, 2, "synth:" + kind)
    s = st
    s.setaux(("synth", fid), None)
    _ctx[fid] = c
    return eng.run_body(s, ins, body, vals, fid, c.span)


_ctx = {}


def loc(fr, n):
    return mk("loc", fr.fid, n)


def go(s, b):
    return Out("go", s, bb=b)


def ret(eng, fr, s, v):
    s.mem[loc(fr, 0)] = v
    return Out("go", s, bb=RETB)


RETB = 1


def b_return(eng, fr, st):
    return [Out("ret", st, eng.load(st, loc(fr, 0), ()))]


def it_ptr(eng, st, fr, n):
    v = eng.load(st, loc(fr, n), ())
    return v if v.op == "ptr" else ptr(loc(fr, n))


def call_item(eng, st, fr, fnloc, args):
    c = _ctx[fr.fid]
    fv = eng.load(st, loc(fr, fnloc), ())
    if fv.op == "agg" and fv.args[0] == "closure":
        p = ptr(loc(fr, fnloc))
        return eng.call_closure(fr, st, fv, p, args, c.span, mk("cbsite", fr.fid), None)
    return eng.call_value(fr, st, fv, args, c.span, mk("cbsite", fr.fid), None)


def b_next(done, body, exitv):
    """block: draw an item; on exhaustion return exitv, else store it in local 3 and go to body"""
    def fn(eng, fr, st):
        out = []
        for g, item in it_next(eng, st, it_ptr(eng, st, fr, 1)):
            if item is None:
                out.append(ret(eng, fr, g, exitv(eng, g, fr)))
            else:
                g.mem[loc(fr, 3)] = item
                out.append(go(g, body))
        return out
    return fn


def cond_consumer(kind, exitv, byref, on):
    """all/any/position/find: `on(eng, st, fr, item, truth)` returns a value to stop with, or None"""
    def b_body(eng, fr, st):
        item = eng.load(st, loc(fr, 3), ())
        arg = item
        if byref:
            root = mk("itemref", fr.fid, st.n)
            st.mem[root] = item
            arg = ptr(root)
        out = []
        for o in call_item(eng, st, fr, 2, [arg]):
            if o.kind != "ret":
                out.append(o)
                continue
            for t, g in eng.branch(o.st, o.val):
                r = on(eng, g, fr, item, t)
                g.mem.pop(loc(fr, 3), None)
                if r is not None:
                    out.append(ret(eng, fr, g, r))
                else:
                    out.append(go(g, 0))
        return out
    blocks = [(b_next(1, 2, exitv), [1, 2]), (b_return, []), (b_body, [0, 1])]

    def m(eng, st, c):
        v = c.args[0]
        if v.op == "ptr":
            v = it_value(eng, st, v)
        if v is None or v.op != "agg" or not str(v.args[0]).startswith("it:"):
            return None
        cnt = [I(0)] if kind == "position" else []
        return synth(eng, st, c, kind, blocks, [c.args[0], c.args[1], mk("none")] + cnt)
    return m


def _pos(eng, g, fr, item, t):
    n = eng.load(g, loc(fr, 4), ())
    if t:
        return some(n)
    g.mem[loc(fr, 4)] = addc(n, 1)
    return None


M[IT + "all"] = cond_consumer("all", lambda e, s, f: TRUE, False, lambda e, s, f, i, t: None if t else FALSE)
M[IT + "any"] = cond_consumer("any", lambda e, s, f: FALSE, False, lambda e, s, f, i, t: TRUE if t else None)
M[IT + "find"] = cond_consumer("find", lambda e, s, f: NONE, True, lambda e, s, f, i, t: some(i) if t else None)
M[IT + "position"] = cond_consumer("position", lambda e, s, f: NONE, False, _pos)


def _foreach():
    def b_body(eng, fr, st):
        item = eng.load(st, loc(fr, 3), ())
        out = []
        for o in call_item(eng, st, fr, 2, [item]):
            if o.kind != "ret":
                out.append(o)
            else:
                o.st.mem.pop(loc(fr, 3), None)
                out.append(go(o.st, 0))
        return out
    blocks = [(b_next(1, 2, lambda e, s, f: UNIT), [1, 2]), (b_return, []), (b_body, [0, 1])]

    def m(eng, st, c):
        v = c.args[0]
        if v.op != "agg" or not str(v.args[0]).startswith("it:"):
            return None
        return synth(eng, st, c, "for_each", blocks, [v, c.args[1], mk("none")])
    return m


M[IT + "for_each"] = _foreach()


def _fold(kind):
    def b_body(eng, fr, st):
        item = eng.load(st, loc(fr, 3), ())
        acc = eng.load(st, loc(fr, 4), ())
        out = []
        for o in call_item(eng, st, fr, 2, [acc, item]):
            if o.kind != "ret":
                out.append(o)
            else:
                o.st.mem.pop(loc(fr, 3), None)
                o.st.mem[loc(fr, 4)] = o.val
                out.append(go(o.st, 0))
        return out
    blocks = [(b_next(1, 2, lambda e, s, f: e.load(s, loc(f, 4), ())), [1, 2]), (b_return, []), (b_body, [0, 1])]

    def m(eng, st, c):
        v = c.args[0]
        if v.op != "agg" or not str(v.args[0]).startswith("it:"):
            return None
        return synth(eng, st, c, kind, blocks, [v, c.args[2], mk("none"), c.args[1]])
    return m


M[IT + "fold"] = _fold("fold")


# ------------------------------------------------------------------ ranges (for i in a..b)
@model("<core::ops::range::Range as core::iter::traits::iterator::Iterator>::next",
       "<core::ops::range::Range as core::iter::range::RangeIteratorImpl>::spec_next")
def m_range_next(eng, st, c):
    p = c.args[0]
    t = eng.T[eng.T[c.atys[0]]["e"]]
    ity = t["args"][0]
    if not eng.sort(ity) or p.op != "ptr":
        return None
    v = eng.load(st, p.args[0], p.args[1])
    lo, hi = eng.proj(st, v, pf(0, ity)), eng.proj(st, v, pf(1, ity))
    res = []
    for tr, g in fork(eng, st, le0(addc(sub(lo, hi), 1))):
        if tr:
            eng.store(g, p.args[0], p.args[1] + (pf(0, ity),), addc(lo, 1))
            res.append((g, some(lo)))
        else:
            res.append((g, NONE))
    return res


@model("<core::ops::range::Range as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
       "<core::ops::range::Range as core::iter::range::RangeIteratorImpl>::spec_next_back")
def m_range_next_back(eng, st, c):
    p = c.args[0]
    t = eng.T[eng.T[c.atys[0]]["e"]]
    ity = t["args"][0]
    if not eng.sort(ity) or p.op != "ptr":
        return None
    v = eng.load(st, p.args[0], p.args[1])
    lo, hi = eng.proj(st, v, pf(0, ity)), eng.proj(st, v, pf(1, ity))
    res = []
    for tr, g in fork(eng, st, le0(addc(sub(lo, hi), 1))):
        if tr:
            eng.store(g, p.args[0], p.args[1] + (pf(1, ity),), addc(hi, -1))
            res.append((g, some(addc(hi, -1))))
        else:
            res.append((g, NONE))
    return res


# ------------------------------------------------------------------ integers
def _ints():
    for s in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        for op in ("add", "sub", "mul"):
            O = op.capitalize()

            def wrapping(eng, st, c, s=s, O=O):
                return [(st, eng.wrap(st, eng.arith(st, O, c.args[0], c.args[1], s), s, O))]

            def inrange(eng, st, e, s):
                lo, hi = sort_range(s)
                return band(le0(sub(e, I(hi))), le0(sub(I(lo), e)))

            def checked(eng, st, c, s=s, O=O):
                e = eng.arith(st, O, c.args[0], c.args[1], s)
                return [(g, some(e) if t else NONE) for t, g in fork(eng, st, inrange(eng, st, e, s))]

            def overflowing(eng, st, c, s=s, O=O):
                e = eng.arith(st, O, c.args[0], c.args[1], s)
                return [(g, tup(e if t else eng.wrap(g, e, s, O), FALSE if t else TRUE))
                        for t, g in fork(eng, st, inrange(eng, st, e, s))]

            def saturating(eng, st, c, s=s, O=O):
                e = eng.arith(st, O, c.args[0], c.args[1], s)
                lo, hi = sort_range(s)
                r = []
                for t, g in fork(eng, st, le0(sub(e, I(hi)))):
                    if not t:
                        r.append((g, I(hi)))
                        continue
                    for t2, g2 in fork(eng, g, le0(sub(I(lo), e))):
                        r.append((g2, e if t2 else I(lo)))
                return r
            M["%s::wrapping_%s" % (s, op)] = wrapping
            M["%s::checked_%s" % (s, op)] = checked
            M["%s::overflowing_%s" % (s, op)] = overflowing
            if op != "mul":
                M["%s::saturating_%s" % (s, op)] = saturating
        M["%s::min_value" % s] = lambda eng, st, c, s=s: [(st, I(sort_range(s)[0]))]
        M["%s::max_value" % s] = lambda eng, st, c, s=s: [(st, I(sort_range(s)[1]))]


_ints()


def cls(ivs):
    """boolean term: e in ivs"""
    def t(e):
        r = FALSE
        for lo, hi in ivs:
            r = bor(r, eq0(addc(e, -lo)) if lo == hi else band(le0(sub(I(lo), e)), le0(addc(e, -hi))))
        return r
    return t


UP, LO = (65, 90), (97, 122)
ASCII_CLASSES = {
    "is_ascii_digit": (DIGIT[0],), "is_ascii_alphabetic": (UP, LO), "is_ascii_alphanumeric": (DIGIT[0], UP, LO),
    "is_ascii_lowercase": (LO,), "is_ascii_uppercase": (UP,), "is_ascii": ((0, 127),),
    "is_ascii_hexdigit": (DIGIT[0], (65, 70), (97, 102)), "is_ascii_graphic": ((33, 126),),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)), "is_ascii_control": ((0, 31), (127, 127)),
}


def _classes():
    for n, ivs in ASCII_CLASSES.items():
        def m(eng, st, c, ivs=ivs):
            v = deref_val(eng, st, c.args[0])
            if v is None:
                return None
            return classify(eng, st, v, ivs)
        for t in ("u8", "char"):
            M["%s::%s" % (t, n)] = m
    # Unicode classes: decided on ASCII, unknown above
    for n, ivs in {"is_alphabetic": (UP, LO), "is_alphanumeric": (DIGIT[0], UP, LO), "is_numeric": DIGIT,
                   "is_lowercase": (LO,), "is_uppercase": (UP,), "is_control": ((0, 31), (127, 127)),
                   "is_whitespace": ((9, 13), (32, 32))}.items():
        def m2(eng, st, c, ivs=ivs, n=n):
            v = c.args[0]
            res = []
            for t, g in fork(eng, st, le0(addc(v, -127))):
                if t:
                    res += classify(eng, g, v, ivs)
                else:
                    res.append((g, mk("uni", n, v, "bool")))
            return res
        M["char::" + n] = m2


def classify(eng, st, v, ivs):
    """split on membership of a value in an interval set, one state per answer"""
    c, d = lin_parts(v)
    if not d:
        return [(st, TRUE if iv_has(ivs, c) else FALSE)]
    if len(d) == 1 and list(d.values()) == [1]:
        a = next(iter(d))
        sh = tuple((lo - c, hi - c) for lo, hi in ivs)
        res = []
        f = st.fact._setdom(a, sh)
        if f is not None:
            res.append((st.with_fact(f), TRUE))
        rest = iv_minus(st.fact.ivs(a), sh)
        if rest:
            f = st.fact._setdom(a, rest)
            if f is not None:
                res.append((st.with_fact(f), FALSE))
        return res
    return [(st, cls(ivs)(v))]


_classes()


@model("core::char::methods::<impl char>::len_utf8", "char::len_utf8")
def m_len_utf8(eng, st, c):
    res = []
    for t, g in fork(eng, st, le0(addc(c.args[0], -127))):
        if t:
            res.append((g, I(1)))
        else:
            w = mk("lenutf8", c.args[0], "usize")
            f = g.fact._setdom(w, ((2, 4),))
            res.append((g.with_fact(f), w))
    return res


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discriminant(eng, st, c):
    p = c.args[0]
    ty = eng.T[c.atys[0]].get("e")
    v = deref_val(eng, st, p, ty)
    if v is None:
        return None
    return [(st, eng.discr_of(st, v, ty))]


@model("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::must_use", "core::hint::black_box",
       "core::convert::identity")
def m_identity(eng, st, c):
    return [(st, c.args[0])]


@model("core::intrinsics::cold_path", "core::intrinsics::assume", "core::hint::assert_unchecked")
def m_unit(eng, st, c):
    return [(st, UNIT)]


@model("core::intrinsics::unreachable", "core::hint::unreachable_unchecked")
def m_unreachable(eng, st, c):
    st.emit(Ev("unchecked", c.name, (), None, c.span, c.frame.name, data=(None, False)))
    return []


@model("core::mem::swap")
def m_swap(eng, st, c):
    a, b = c.args
    if a.op != "ptr" or b.op != "ptr":
        return None
    e = eng.T[c.atys[0]].get("e")
    x, y = eng.load(st, a.args[0], a.args[1], e), eng.load(st, b.args[0], b.args[1], e)
    eng.store(st, a.args[0], a.args[1], y)
    eng.store(st, b.args[0], b.args[1], x)
    return [(st, UNIT)]


@model("core::mem::replace", "core::mem::take")
def m_replace(eng, st, c):
    a = c.args[0]
    if a.op != "ptr" or c.name.endswith("take"):
        return None
    e = eng.T[c.atys[0]].get("e")
    x = eng.load(st, a.args[0], a.args[1], e)
    watched_store(eng, st, c, a, e, c.args[1])
    return [(st, x)]


def watched_store(eng, st, c, p, ty, v):
    if eng.watch and p.args[1]:
        last = p.args[1][-1]
        if last.op == "pf":
            for a, i in eng.watch:
                if last.args[1] == i and ty is not None and eng.watch_ty.get((a, i)) == ty:
                    eng.on_write(st, c.frame, a, i, p, v, c.span)
    eng.store(st, p.args[0], p.args[1], v)


@model("core::mem::forget")
def m_forget(eng, st, c):
    v = c.args[0]
    st.emit(Ev("forget", "forget", (v,), None, c.span, c.frame.name))
    return [(st, UNIT)]


# ------------------------------------------------------------------ owned strings and paths
STRINGS = ("alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString")


def str_of(v):
    """str slice of an owned string value"""
    if v.op == "strof":
        return v.args[0]
    return slice_(mk("deref", v), (), I(0), mk("len", v))


def own(eng, st, s):
    """owned string with the content of a str slice"""
    return mk("strof", content(eng, st, s)) if s.op == "slice" else mk("strfrom", s)


@model("<alloc::string::String as core::ops::deref::Deref>::deref", "<alloc::string::String as core::convert::AsRef>::as_ref",
       "<std::path::PathBuf as core::ops::deref::Deref>::deref", "alloc::string::String::as_str",
       "<alloc::string::String as core::borrow::Borrow>::borrow", "alloc::string::String::as_bytes",
       "std::path::PathBuf::as_path", "<std::path::PathBuf as core::convert::AsRef>::as_ref",
       "<std::ffi::os_str::OsString as core::ops::deref::Deref>::deref")
def m_string_deref(eng, st, c):
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    if v is None or v.op == "moved":
        return None
    return [(st, str_of(v))]


@model("alloc::string::String::len", "alloc::string::String::is_empty")
def m_string_len(eng, st, c):
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    if v is None:
        return None
    n = str_of(v).args[3]
    return [(st, n if c.name.endswith("len") else eq0(n))]


@model("<alloc::string::String as core::clone::Clone>::clone", "<std::path::PathBuf as core::clone::Clone>::clone",
       "<alloc::rcs::arc::Arc as core::clone::Clone>::clone", "<alloc::rcs::rc::Rc as core::clone::Clone>::clone",
       "<alloc::vec::Vec as core::clone::Clone>::clone")
def m_clone_value(eng, st, c):
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    return [(st, v)] if v is not None else None


@model("<alloc::string::String as core::convert::From>::from", "<str as alloc::borrow::ToOwned>::to_owned",
       "<str as alloc::string::ToString>::to_string", "alloc::str::<impl str>::to_owned",
       "<std::path::PathBuf as core::convert::From>::from", "std::path::Path::to_path_buf",
       "<alloc::string::String as core::str::traits::FromStr>::from_str", "str::to_owned", "str::to_string")
def m_string_from(eng, st, c):
    v = c.args[0]
    if v.op == "slice":
        return [(st, own(eng, st, v))]
    if v.op == "ptr":
        w = deref_val(eng, st, v, eng.T[c.atys[0]].get("e"))
        if w is not None and w.op == "slice":
            return [(st, own(eng, st, w))]
        return None
    return [(st, mk("strfrom", v))]


@model("<T as alloc::string::ToString>::to_string", "<T as alloc::string::SpecToString>::spec_to_string")
def m_to_string(eng, st, c):
    v = c.args[0]
    ty = eng.T[c.atys[0]].get("e")
    if v.op == "slice":
        return [(st, own(eng, st, v))]
    if v.op == "ptr":
        w = deref_val(eng, st, v, ty)
        if w is not None and w.op == "slice":
            return [(st, own(eng, st, w))]
        # identifier types display as their text (property I02)
        return [(st, mk("tostring", w if w is not None else v))]
    return None


@model("<alloc::string::String as core::cmp::PartialEq>::eq")
def m_string_eq(eng, st, c):
    a = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    b = c.args[1]
    tb = eng.T[c.atys[1]].get("e")
    if b.op == "ptr":
        b = deref_val(eng, st, b, tb)
        if b is None or a is None:
            return None
        if b.op != "slice":
            if a is b:
                return [(st, TRUE)]
            b = str_of(b)
    return [(st, seq_eq(eng, st, str_of(a), b))]


@model("alloc::string::String::from_utf8_lossy", "std::path::Path::to_string_lossy")
def m_lossy(eng, st, c):
    return [(st, mk("lossy", content(eng, st, c.args[0])))]


# ------------------------------------------------------------------ Box, Arc
@model("alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Rc::new", "alloc::boxed::Box::pin")
def m_box_new(eng, st, c):
    st.n += 1
    root = mk("box", c.site, st.n)
    st.mem[root] = c.args[0]
    if c.atys[0] is not None:
        st.rty = dict(st.rty)
        st.rty[root] = c.atys[0]
    if c.name.startswith("alloc::boxed"):
        return [(st, ptr(root))]
    return [(st, agg("arc", 0, ptr(root)))]


@model("<alloc::rcs::arc::Arc as core::ops::deref::Deref>::deref", "<alloc::rcs::rc::Rc as core::ops::deref::Deref>::deref",
       "<alloc::rcs::arc::Arc as core::convert::AsRef>::as_ref")
def m_arc_deref(eng, st, c):
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    if v is None:
        return None
    if v.op == "agg" and v.args[0] == "arc":
        return [(st, v.args[2])]
    root = mk("deref", v)
    inner = eng.T[c.dty].get("e")
    if inner is not None and root not in st.rty:
        st.rty = dict(st.rty)
        st.rty[root] = inner
    return [(st, ptr(root))]


@model("<alloc::boxed::Box as core::ops::function::Fn>::call", "<alloc::boxed::Box as core::ops::function::FnMut>::call_mut",
       "<alloc::boxed::Box as core::ops::function::FnOnce>::call_once")
def m_box_call(eng, st, c):
    f, a = c.args[0], c.args[1]
    if f.op == "ptr":
        v = eng.load(st, f.args[0], f.args[1])
        if v.op == "ptr":
            f = v
        elif v.op not in ("agg", "fnval"):
            f = v
    args = list(a.args[2:]) if a.op == "agg" else ([] if a is UNIT else None)
    if args is None:
        return None
    return eng.call_value(c.frame, st, f, args, c.span, c.site, c.dty)


@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def m_fn_call(eng, st, c):
    a = c.args[1]
    args = list(a.args[2:]) if a.op == "agg" else ([] if a is UNIT else None)
    if args is None:
        return None
    f = c.args[0]
    if c.inst is not None and eng.F.insts[c.inst].get("local") and f.op not in ("agg", "ptr", "fnval"):
        return None
    r = eng.call_value(c.frame, st, f, args, c.span, c.site, c.dty)
    return r


# ------------------------------------------------------------------ Vec
def vec_parts(v):
    """(array, length) of a Vec value"""
    if v.op == "agg" and v.args[0] == VEC:
        return v.args[2], v.args[3]
    return mk("fld", v, 0, 0, ""), mk("len", v)


def concrete(a, n):
    """is a vector given by its elements?"""
    return a.op == "arrlit" and n.op == "int" and n.args[0] == len(a.args)


def vec_place(eng, st, p):
    """pointer to the elements of the Vec at p as (root, path), and its length; normalises the value"""
    v = eng.load(st, p.args[0], p.args[1])
    if not (v.op == "agg" and v.args[0] == VEC):
        a, n = vec_parts(v)
        nv = agg(VEC, 0, a, n)
        eng.store(st, p.args[0], p.args[1], nv)
        v = nv
    return v.args[2], v.args[3]


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "<alloc::vec::Vec as core::default::Default>::default")
def m_vec_new(eng, st, c):
    return [(st, agg(VEC, 0, mk("arrlit"), I(0)))]


@model("alloc::vec::from_elem")
def m_from_elem(eng, st, c):
    return [(st, agg(VEC, 0, mk("arrrep", c.args[0], 0), c.args[1]))]


@model("[T]::to_vec", "<[T] as alloc::borrow::ToOwned>::to_owned", "[T]::into_vec")
def m_to_vec(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    return [(st, agg(VEC, 0, from_zero(eng, st, s), s.args[3]))]


@model("alloc::vec::Vec::len", "alloc::vec::Vec::is_empty")
def m_vec_len(eng, st, c):
    a, n = vec_parts(deref_val(eng, st, c.args[0]))
    return [(st, n if c.name.endswith("len") else eq0(n))]


@model("<alloc::vec::Vec as core::ops::deref::Deref>::deref", "<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::vec::Vec as core::convert::AsMut>::as_mut", "<alloc::vec::Vec as core::convert::AsRef>::as_ref",
       "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice")
def m_vec_deref(eng, st, c):
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    return [(st, slice_(p.args[0], p.args[1] + (pf(0),), I(0), n))]


@model("<alloc::vec::Vec as core::ops::index::Index>::index", "<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut")
def m_vec_index(eng, st, c):
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    s = slice_(p.args[0], p.args[1] + (pf(0),), I(0), n)
    return index_common(eng, st, c, s, c.args[1], c.atys[1], elem_ty(eng, c.atys[0]), False)


@model("alloc::vec::Vec::push")
def m_vec_push(eng, st, c):
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    st.emit(Ev("vec", "push", (p, c.args[1]), None, c.span, c.frame.name))
    na = mk("arrlit", *(a.args + (c.args[1],))) if a.op == "arrlit" and n.op == "int" and n.args[0] == len(a.args) \
        else mk("store", a, n, c.args[1])
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, na, addc(n, 1)))
    return [(st, UNIT)]


@model("alloc::vec::Vec::pop")
def m_vec_pop(eng, st, c):
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    res = []
    for t, g in fork(eng, st, eq0(n)):
        if t:
            res.append((g, NONE))
        else:
            i = addc(n, -1)
            x = eng.select(g, a, i, elem_ty(eng, c.atys[0]))
            g.emit(Ev("vec", "pop", (p,), x, c.span, c.frame.name))
            eng.store(g, p.args[0], p.args[1], agg(VEC, 0, mk("arrlit", *a.args[:-1]) if concrete(a, n) else a, i))
            res.append((g, some(x)))
    return res


@model("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def m_vec_remove(eng, st, c):
    p, i = c.args
    a, n = vec_place(eng, st, p)
    good, outs = must(eng, st, c, le0(addc(sub(i, n), 1)), "Vec::remove index")
    for g in good:
        x = eng.select(g, a, i, elem_ty(eng, c.atys[0]))
        g.emit(Ev("vec", c.name.rsplit("::", 1)[1], (p, i), x, c.span, c.frame.name))
        if concrete(a, n) and i.op == "int":
            k = list(a.args)
            if c.name.endswith("::remove"):
                del k[i.args[0]]
            else:
                k[i.args[0]] = k[-1]
                del k[-1]
            na = mk("arrlit", *k)
        elif i.op == "int" and i.args[0] == 0 and c.name.endswith("::remove"):
            na = mk("tail", a)
        else:
            na = mk("removed", a, i)
        eng.store(g, p.args[0], p.args[1], agg(VEC, 0, na, addc(n, -1)))
        outs.append(Out("ret", g, x))
    return outs


@model("alloc::vec::Vec::insert")
def m_vec_insert(eng, st, c):
    p, i = c.args[0], c.args[1]
    a, n = vec_place(eng, st, p)
    good, outs = must(eng, st, c, le0(sub(i, n)), "Vec::insert index")
    for g in good:
        g.emit(Ev("vec", "insert", (p, i, c.args[2]), None, c.span, c.frame.name))
        if concrete(a, n) and i.op == "int":
            na = mk("arrlit", *(a.args[:i.args[0]] + (c.args[2],) + a.args[i.args[0]:]))
        else:
            na = mk("inserted", a, i, c.args[2])
        eng.store(g, p.args[0], p.args[1], agg(VEC, 0, na, addc(n, 1)))
        outs.append(Out("ret", g, UNIT))
    return outs


@model("alloc::vec::Vec::clear")
def m_vec_clear(eng, st, c):
    p = c.args[0]
    st.emit(Ev("vec", "clear", (p,), None, c.span, c.frame.name))
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, mk("arrlit"), I(0)))
    return [(st, UNIT)]


@model("alloc::vec::Vec::truncate")
def m_vec_truncate(eng, st, c):
    p, k = c.args
    a, n = vec_place(eng, st, p)
    res = []
    for t, g in fork(eng, st, le0(sub(k, n))):
        if t:
            eng.store(g, p.args[0], p.args[1], agg(VEC, 0, a, k))
        g.emit(Ev("vec", "truncate", (p, k), None, c.span, c.frame.name))
        res.append((g, UNIT))
    return res


@model("alloc::vec::Vec::extend_from_slice")
def m_vec_extend(eng, st, c):
    p, s = c.args
    a, n = vec_place(eng, st, p)
    s = content(eng, st, s)
    src = mk("bytes", s.args[0].args[0]) if s.args[0].op == "const" else s.args[0].args[0]
    st.emit(Ev("vec", "extend", (p, s), None, c.span, c.frame.name))
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, mk("copyrng", a, n, s.args[3], src, s.args[2]), add(n, s.args[3])))
    return [(st, UNIT)]


@model("<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter")
def m_vecref_into_iter(eng, st, c):
    p = c.args[0]
    if p.op != "ptr":
        return None
    a, n = vec_place(eng, st, p)
    return [(st, it_slice(slice_(p.args[0], p.args[1] + (pf(0),), I(0), n), eng.T[eng.T[c.atys[0]]["e"]]["args"][0]))]


@model("<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter")
def m_vec_into_iter(eng, st, c):
    a, n = vec_parts(c.args[0])
    st.emit(Ev("vec", "into_iter", (c.args[0],), None, c.span, c.frame.name))
    return [(st, agg("it:vecinto", 0, a, I(0), n, mk("ty", elem_ty(eng, c.atys[0]))))]


@model("alloc::vec::Vec::drain")
def m_vec_drain(eng, st, c):
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    t = eng.T[c.atys[1]]
    if not t.get("def", "").endswith("RangeFull"):
        return None
    st.emit(Ev("vec", "drain", (p,), None, c.span, c.frame.name))
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, mk("arrlit"), I(0)))
    return [(st, agg("it:vecinto", 0, a, I(0), n, mk("ty", elem_ty(eng, c.atys[0]))))]


def truth_of(eng, c, st, f, arg, k):
    """a predicate applied to a value behind a reference: [(truth, state)], or outcomes that end here"""
    st.n += 1
    root = mk("tmp", st.n, c.site)
    st.mem[root] = arg
    res, stop = [], []
    for o in eng.call_value(c.frame, st, f, [ptr(root)], c.span, mk("predsite", c.site, k), None):
        if o.kind != "ret":
            stop.append(o)
            continue
        res.extend(eng.branch(o.st, o.val))
    return res, stop


def retain_each(eng, st, c, p, elems):
    outs = []
    work = [(st, 0, ())]
    while work:
        s, k, kept = work.pop()
        if k == len(elems):
            eng.store(s, p.args[0], p.args[1], agg(VEC, 0, mk("arrlit", *kept), I(len(kept))))
            outs.append((s, UNIT))
            continue
        res, stop = truth_of(eng, c, s, c.args[1], elems[k], k)
        outs += stop
        work.extend((g, k + 1, kept + (elems[k],) if t else kept) for t, g in res)
    return outs


def pull(eng, st, c, p, ty, k):
    """the next item of the iterator at p: [(state, item or None)], outcomes that end here; None: not understood"""
    if it_value(eng, st, p) is not None:
        r = it_next(eng, st, p)
        return r and (r, [])
    t = eng.T[ty]
    d = t.get("def") or ""
    if d not in ("core::iter::adapters::filter::Filter", "core::iter::adapters::map::Map") or not t.get("v"):
        return None
    f = t["v"][0]
    inner = ptr(p.args[0], p.args[1] + (mk("pf", 0, 0, f[0]),))
    fun = ptr(p.args[0], p.args[1] + (mk("pf", 0, 1, f[1]),))
    done, stop = [], []
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        if n > 12:
            return None
        r = pull(eng, s, c, inner, f[0], (k, n))
        if r is None:
            return None
        stop += r[1]
        for g, item in r[0]:
            if item is None:
                done.append((g, None))
            elif d.endswith("Filter"):
                res, x = truth_of(eng, c, g, fun, item, mk("name", str((k, n))))
                stop += x
                for t, h in res:
                    if t:
                        done.append((h, item))
                    else:
                        work.append((h, n + 1))
            else:
                for o in eng.call_value(c.frame, g, fun, [item], c.span, mk("predsite", c.site, mk("name", str((k, n)))), None):
                    if o.kind != "ret":
                        stop.append(o)
                    else:
                        done.append((o.st, o.val))
    return done, stop


@model("core::iter::traits::iterator::Iterator::collect")
def m_collect(eng, st, c):
    """into a vector, from a container that is given by its elements"""
    if eng.T[c.dty].get("def") != "alloc::vec::Vec":
        return None
    v = c.args[0]
    base = v
    while base.op == "agg" and base.args[0] in ("core::iter::adapters::filter::Filter", "core::iter::adapters::map::Map"):
        base = base.args[2]
    if base.op != "agg" or base.args[0] not in ("it:vecinto", "it:slice", "it:maplit"):
        return None
    n = {"it:vecinto": lambda: sub(base.args[4], base.args[3]), "it:slice": lambda: base.args[2].args[3],
         "it:maplit": lambda: I(0)}[base.args[0]]()
    if n.op != "int" or n.args[0] > 8:
        return None
    if base.args[0] == "it:slice" and not v is base and not c.atys[0]:
        return None
    st = st.copy()
    st.n += 1
    root = mk("tmp", st.n, c.site)
    st.mem[root] = v
    p = ptr(root)
    outs, work = [], [(st, ())]
    while work:
        s, kept = work.pop()
        if len(kept) > 12:
            return None
        r = pull(eng, s, c, p, c.atys[0], len(kept))
        if r is None:
            return None
        outs += r[1]
        for g, item in r[0]:
            if item is None:
                outs.append((g, agg(VEC, 0, mk("arrlit", *kept), I(len(kept)))))
            else:
                work.append((g, kept + (item,)))
    return outs


@model("alloc::vec::Vec::retain")
def m_vec_retain(eng, st, c):
    """the predicate is analysed once for an arbitrary element"""
    p = c.args[0]
    a, n = vec_place(eng, st, p)
    if concrete(a, n):
        return retain_each(eng, st, c, p, a.args)
    st.emit(Ev("vec", "retain", (p, c.args[1]), None, c.span, c.frame.name))
    st.n += 1
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, mk("retained", a, st.n), mk("sym", "retained", st.n, "usize")))
    return [(st, UNIT)]


# ------------------------------------------------------------------ HashMap
HM = "std::collections::hash::map::"


def map_place(p):
    """a pointer without the types of the fields on its path"""
    if p.op != "ptr":
        return p
    return ptr(p.args[0], tuple(mk("pf", x.args[0], x.args[1], -1) if x.op == "pf" else x for x in p.args[1]))


def map_entry_root(p, key):
    return mk("entry", map_place(p), key)


def map_cont(eng, st, p):
    """identity of the current content of the map at p"""
    v = eng.load(st, p.args[0], p.args[1])
    return v


def key_of(eng, st, k):
    v = deref_val(eng, st, k) if k.op == "ptr" else k
    return v


@model(HM + "HashMap::new", "<std::collections::hash::map::HashMap as core::default::Default>::default",
       HM + "HashMap::with_capacity")
def m_map_new(eng, st, c):
    st.n += 1
    return [(st, mk("emptymap", c.site, st.n))]


def has_term(cont, key):
    if cont.op == "mapins":
        # mapins(base, key): contains key
        if cont.args[1] is key:
            return TRUE
        return has_term(cont.args[0], key)
    if cont.op == "mapdel":
        if cont.args[1] is key:
            return FALSE
        return has_term(cont.args[0], key)
    if cont.op == "emptymap":
        return FALSE
    return mk("has", cont, key, "bool")


def has_key(eng, st, cont, key):
    """[(is the key there, state, the key as the map names it)]"""
    if cont.op != "maplit":
        return [(t, g, key) for t, g in fork(eng, st, has_term(cont, key))]
    # a map given by its keys, which are pairwise distinct
    res = []
    for k in cont.args:
        if k is key or st.fact.eq(k, key):
            return res + [(True, st, k)]
        no = None
        for t, g in fork(eng, st, eq0(sub(k, key))):
            if t:
                res.append((True, g, k))
            else:
                no = g
        if no is None:
            return res
        st = no
    return res + [(False, st, key)]


def without(cont, key):
    return mk("maplit", *[k for k in cont.args if k is not key]) if cont.op == "maplit" else mk("mapdel", cont, key)


def map_args(eng, ty):
    t = eng.T[ty]
    while t["k"] == "ref":
        t = eng.T[t["e"]]
    a = [x for x in t["args"] if isinstance(x, int)]
    return a[0], a[1]


@model(HM + "HashMap::get", HM + "HashMap::get_mut", HM + "HashMap::contains_key")
def m_map_get(eng, st, c):
    p = c.args[0]
    cont = map_cont(eng, st, p)
    key = key_of(eng, st, c.args[1])
    kty, vty = map_args(eng, c.atys[0])
    res = []
    for t, g, key in has_key(eng, st, cont, key):
        g.emit(Ev("map", c.name.rsplit("::", 1)[1], (p, key), TRUE if t else FALSE, c.span, c.frame.name, data=cont))
        if c.name.endswith("contains_key"):
            res.append((g, TRUE if t else FALSE))
        elif t:
            r = entry_of(g, p, cont, key, vty)
            res.append((g, some(ptr(r))))
        else:
            res.append((g, NONE))
    return res


def entry_of(st, p, cont, key, vty):
    r = map_entry_root(p, key)
    if r not in st.rty:
        st.rty = dict(st.rty)
        st.rty[r] = vty
    if r not in st.mem:
        st.mem[r] = None
        del st.mem[r]
    return r


def forget_entries(st, p, key):
    """after insert/remove: entries of other, possibly equal keys are not known any more"""
    for r in [r for r in st.mem if r.op == "entry" and r.args[0] is map_place(p)]:
        if r.args[1] is not key:
            k2 = r.args[1]
            if st.fact.ne(k2, key) if (atom_sort(key) or key.op in ("int", "lin")) else False:
                continue
            st.n += 1
            st.mem[r] = mk("hv", st.n, r, "")
        else:
            del st.mem[r]


@model(HM + "HashMap::insert")
def m_map_insert(eng, st, c):
    p, key, val = c.args
    cont = map_cont(eng, st, p)
    kty, vty = map_args(eng, c.atys[0])
    res = []
    for t, g, key in has_key(eng, st, cont, key):
        r = entry_of(g, p, cont, key, vty)
        old = eng.load(g, r, (), vty) if t else None
        g.emit(Ev("map", "insert", (p, key, val), TRUE if t else FALSE, c.span, c.frame.name, data=cont))
        if cont.op != "maplit":
            forget_entries(g, p, key)
        g.mem[r] = val
        if cont.op != "maplit":
            eng.store(g, p.args[0], p.args[1], mk("mapins", cont, key))
        elif not t:
            eng.store(g, p.args[0], p.args[1], mk("maplit", *(cont.args + (key,))))
        res.append((g, some(old) if t else NONE))
    return res


@model(HM + "HashMap::remove")
def m_map_remove(eng, st, c):
    p = c.args[0]
    key = key_of(eng, st, c.args[1])
    cont = map_cont(eng, st, p)
    kty, vty = map_args(eng, c.atys[0])
    res = []
    for t, g, key in has_key(eng, st, cont, key):
        r = entry_of(g, p, cont, key, vty)
        old = eng.load(g, r, (), vty) if t else None
        g.emit(Ev("map", "remove", (p, key), TRUE if t else FALSE, c.span, c.frame.name, data=(cont, old)))
        if cont.op != "maplit":
            forget_entries(g, p, key)
        else:
            g.mem.pop(r, None)
        if t:
            eng.store(g, p.args[0], p.args[1], without(cont, key))
        res.append((g, some(old) if t else NONE))
    return res


@model(HM + "HashMap::is_empty")
def m_map_is_empty(eng, st, c):
    cont = map_cont(eng, st, c.args[0])
    if cont.op == "maplit":
        return [(st, FALSE if cont.args else TRUE)]
    return [(st, mk("mapempty", cont, "bool"))]


@model(HM + "HashMap::len")
def m_map_len(eng, st, c):
    cont = map_cont(eng, st, c.args[0])
    return [(st, I(len(cont.args)) if cont.op == "maplit" else mk("maplen", cont, "usize"))]


def map_iter(kind):
    def m(eng, st, c):
        p = c.args[0]
        cont = map_cont(eng, st, p)
        kty, vty = map_args(eng, c.atys[0])
        st.n += 1
        st.emit(Ev("map", kind, (p,), None, c.span, c.frame.name, data=cont))
        if cont.op == "maplit":
            return [(st, agg("it:maplit", 0, p, mk("name", "iter" if kind.startswith("iter") else "keys" if kind == "keys" else "values"),
                             cont, mk("ty", vty)))]
        return [(st, agg("it:map", 0, p, mk("name", "iter" if kind.startswith("iter") else "keys" if kind == "keys" else "values"),
                         mk("mapcnt0", st.n, ""), mk("ty", vty), mk("name", eng.sort(kty))))]
    return m


for _k in ("values", "values_mut", "iter", "iter_mut", "keys"):
    M[HM + "HashMap::" + _k] = map_iter(_k)
for _n in ("<&std::collections::hash::map::HashMap as core::iter::traits::collect::IntoIterator>::into_iter",
           "<&mut std::collections::hash::map::HashMap as core::iter::traits::collect::IntoIterator>::into_iter"):
    M[_n] = map_iter("iter")


# ------------------------------------------------------------------ locks
def lock_id(eng, p, ty):
    t = eng.T[ty]
    while t["k"] == "ref":
        t = eng.T[t["e"]]
    idx = -1
    if p.op == "ptr" and p.args[1] and p.args[1][-1].op == "pf":
        idx = p.args[1][-1].args[1]
    return mk("lock", t["s"], idx)


def acquire(eng, st, c, mode, p, how=""):
    lk = lock_id(eng, p, c.atys[0])
    st.n += 1
    ep = mk("epoch", st.n, c.site)
    held = st.aux.get("held", ())
    st.emit(Ev("acquire", how + mode, (lk, ep), None, c.span, c.frame.name, data=held))
    st.setaux("held", held + ((lk, mode, ep),))
    st.setaux(("lockty", lk), c.atys[0])
    return agg("guard", 0, lk, mk("name", mode), ep)


def acquired(eng, st):
    """the states in which a lock may be found"""
    h = eng.hooks.get("acquire")
    return h(eng, st, *st.aux["held"][-1]) if h else [st]


def lock_model(mode, tr):
    def m(eng, st, c):
        p = c.args[0]
        res = []
        if tr:
            at = mk("trylock", st.n, c.site, "bool")
            for t, g in fork(eng, st, at):
                if t:
                    if any(h[0] is lock_id(eng, p, c.atys[0]) for h in g.aux.get("held", ())):
                        continue          # held by this thread
                    v = ok(acquire(eng, g, c, mode, p, "try_"))
                    res += [(x, v) for x in acquired(eng, g)]
                else:
                    g.emit(Ev("tryfail", mode, (lock_id(eng, p, c.atys[0]),), None, c.span, c.frame.name,
                              data=g.aux.get("held", ())))
                    e = eng.T[c.dty]["args"][1]
                    v = eng.F.adts.get("std::sync::poison::TryLockError")
                    n = 1
                    if v:
                        for i, x in enumerate(v["v"]):
                            if x["name"] == "WouldBlock":
                                n = i
                    res.append((g, err(agg("std::sync::poison::TryLockError", n))))
            return res
        again = any(h[0] is lock_id(eng, p, c.atys[0]) for h in st.aux.get("held", ()))
        g = ok(acquire(eng, st, c, mode, p))
        return [Out("endless", st)] if again else [(x, g) for x in acquired(eng, st)]
    return m


for _l, _mth, _mode in (("rwlock::RwLock", "write", "write"), ("rwlock::RwLock", "read", "read"),
                        ("mutex::Mutex", "lock", "lock")):
    M["std::sync::poison::%s::%s" % (_l, _mth)] = lock_model(_mode, False)
    M["std::sync::poison::%s::try_%s" % (_l, _mth)] = lock_model(_mode, True)


@model(*["<std::sync::poison::%s as core::ops::deref::%s>::%s" % (g, t, m)
         for g in ("rwlock::RwLockWriteGuard", "rwlock::RwLockReadGuard", "mutex::MutexGuard")
         for t, m in (("Deref", "deref"), ("DerefMut", "deref_mut"))])
def m_guard_deref(eng, st, c):
    gt = eng.T[c.atys[0]].get("e")
    g = deref_val(eng, st, c.args[0], gt)
    if g is None:
        return None
    if g.op == "agg" and g.args[0] == "guard":
        root = mk("lockdata", g.args[2], g.args[4])
    else:
        root = mk("lockdata", g, I(0))
    inner = eng.T[c.dty].get("e")
    if root not in st.rty:
        st.rty = dict(st.rty)
        st.rty[root] = inner
    return [(st, ptr(root))]


@model("std::sync::poison::rwlock::RwLock::new", "std::sync::poison::mutex::Mutex::new")
def m_lock_new(eng, st, c):
    st.n += 1
    return [(st, agg("newlock", 0, c.args[0]))]


# ------------------------------------------------------------------ futures
@model("core::future::future::Future::poll")
def m_poll(eng, st, c):
    """an await point: the value a future resolves to"""
    p = c.args[0]
    # Pin<&mut F>
    pin = p
    v = eng.proj(st, pin, pf(0)) if pin.op == "agg" else pin
    fut = deref_val(eng, st, v) if v.op == "ptr" else v
    ft = eng.T[c.atys[0]]
    fty = None
    if ft["k"] == "adt" and ft.get("args"):
        a = eng.T[ft["args"][0]]
        fty = a.get("e")
    out = eng.T[c.dty]
    oty = out["args"][0] if out.get("args") else None
    if fut is not None and fut.op == "agg" and fut.args[0] == "coroutine":
        t = eng.T[fut.args[1]]
        inst = t.get("inst")
        if inst is not None and eng.F.insts[inst].get("body") and eng.F.insts[inst].get("local"):
            res = []
            for o in eng.call_inst(st, inst, [fut, mk("ctx")], mk("frame", c.site, 3, inst), c.span):
                if o.kind == "ret":
                    o = Out("ret", o.st, agg("core::task::poll::Poll", 0, o.val))
                res.append(o)
            return res
    res = eng.mksym(st, oty, "await", c.site, st.n)
    name = eng.T[fty]["s"] if fty is not None else c.name
    st.emit(Ev("await", name, (fut if fut is not None else v, mk("ty", oty)), res, c.span, c.frame.name,
               data=st.aux.get("held", ())))
    # the awaited operation may have written through the mutable references it holds
    if fut is not None and fut.op == "agg" and fut.args[0] == "future":
        kind = fut.args[2].args[0]
        h = AWAIT.get(kind)
        if h:
            return h(eng, st, c, fut, res, oty)
    return [(st, agg("core::task::poll::Poll", 0, res))]


AWAIT = {}


def ready(v):
    return agg("core::task::poll::Poll", 0, v)


def future(kind):
    def m(eng, st, c):
        return [(st, mk("agg", "future", 0, mk("name", kind), *c.args))]
    return m


M["tokio::io::util::async_read_ext::AsyncReadExt::read_buf"] = future("read_buf")
M["tokio::io::util::async_read_ext::AsyncReadExt::read"] = future("read")
M["tokio::io::util::async_write_ext::AsyncWriteExt::write_all"] = future("write_all")
M["tokio::io::util::async_write_ext::AsyncWriteExt::write"] = future("write")
M["tokio::sync::notify::Notify::notified"] = future("notified")
M["tokio::net::unix::listener::UnixListener::accept"] = future("accept")


def aw_read_buf(eng, st, c, fut, res, oty):
    """appends received bytes to the buffer"""
    buf = fut.args[4]
    if buf.op == "ptr":
        st.n += 1
        old = eng.load(st, buf.args[0], buf.args[1])
        eng.store(st, buf.args[0], buf.args[1], mk("hv", st.n, "rx", ""))
    return [(st, ready(res))]


AWAIT["read_buf"] = aw_read_buf


@model("core::future::get_context", "core::future::ResumeTy")
def m_ctx(eng, st, c):
    return [(st, mk("ctx"))]


@model("tokio::task::spawn::spawn")
def m_spawn(eng, st, c):
    st.emit(Ev("spawn", "tokio::spawn", (c.args[0],), None, c.span, c.frame.name, data={"ty": c.atys[0]}))
    st.n += 1
    return [(st, mk("joinhandle", st.n))]


def plain(kind):
    """library call without influence on analysed state: an event with a fresh result"""
    def m(eng, st, c):
        st.n += 1
        res = eng.mksym(st, c.dty, "lib", kind, c.site, st.n)
        st.emit(Ev("lib", c.name, tuple(c.args), res, c.span, c.frame.name, data=st.aux.get("held", ())))
        return [(st, res)]
    return m


for _n in ("futures_util::abortable::AbortHandle::abort", "tokio::sync::notify::Notify::new",
           "tokio::sync::notify::Notify::notify_one", "tokio::sync::notify::Notify::notify_waiters",
           "std::fs::remove_file", "std::fs::create_dir_all", "tokio::net::unix::listener::UnixListener::bind",
           "tokio::net::unix::stream::UnixStream::into_split", "getrandom::getrandom", "base64::encode::encode_config",
           "std::env::var_os", "std::path::Path::is_dir", "std::path::Path::join", "std::path::PathBuf::push",
           "std::process::id", "alloc::fmt::format", "std::path::Path::exists", "core::io::error::Error::new",
           "std::io::error::Error::new", "core::time::Duration::new", "tokio::time::sleep::sleep",
           "std::thread::sleep", "core::io::error::Error::kind", "std::io::error::Error::kind"):
    M[_n] = plain(_n.rsplit("::", 1)[1])


@model("futures_util::abortable::AbortHandle::new_pair")
def m_new_pair(eng, st, c):
    st.n += 1
    h, r = mk("aborthandle", c.site, st.n), mk("abortreg", c.site, st.n)
    return [(st, tup(h, r))]


@model("futures_util::abortable::Abortable::new")
def m_abortable(eng, st, c):
    st.emit(Ev("lib", c.name, tuple(c.args), None, c.span, c.frame.name))
    return [(st, mk("agg", "future", 0, mk("name", "abortable"), *c.args))]


@model("<futures_util::abortable::AbortHandle as core::clone::Clone>::clone",
       "<tokio::sync::notify::Notify as core::clone::Clone>::clone")
def m_clone_same(eng, st, c):
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    return [(st, v)] if v is not None else None


@model("std::io::error::Error::raw_os_error", "core::io::error::Error::raw_os_error")
def m_raw_os_error(eng, st, c):
    v = deref_val(eng, st, c.args[0])
    st.n += 1
    at = mk("oserr", v if v is not None else c.args[0], "i32")
    has = mk("hasos", v if v is not None else c.args[0], "bool")
    return [(g, some(at) if t else NONE) for t, g in fork(eng, st, has)]


# ------------------------------------------------------------------ files
@model("<std::fs::File as std::os::fd::raw::FromRawFd>::from_raw_fd")
def m_from_raw_fd(eng, st, c):
    st.emit(Ev("lib", c.name, tuple(c.args), None, c.span, c.frame.name))
    return [(st, mk("file", c.args[0]))]


@model("<std::fs::File as alloc::io::read::Read>::read", "<std::fs::File as std::io::Read>::read")
def m_file_read(eng, st, c):
    f = deref_val(eng, st, c.args[0])
    s = c.args[1]
    if s.op != "slice":
        return None
    st.n += 1
    n = mk("sym", "read", c.site, st.n, "usize")
    res = []
    g = st.copy()
    fa = g.fact.add_le(sub(n, s.args[3]))
    if fa is not None:
        g.fact = fa
        g.emit(Ev("read", "read", (f if f is not None else c.args[0], s), n, c.span, c.frame.name))
        old = eng.load(g, s.args[0], s.args[1])
        src = mk("hv", g.n, "filedata", "")
        eng.store(g, s.args[0], s.args[1], mk("copyrng", old, s.args[2], n, src, I(0)))
        res.append((g, ok(n)))
    h = st.copy()
    e = mk("sym", "ioerr", c.site, h.n, "")
    h.emit(Ev("read", "read", (f if f is not None else c.args[0], s), e, c.span, c.frame.name, data="error"))
    res.append((h, err(e)))
    return res


# ------------------------------------------------------------------ BytesMut
BM = "bytes::bytes_mut::BytesMut::"


def bm_parts(v):
    if v.op == "agg" and v.args[0] == "bytesmut":
        return v.args[2], v.args[3], v.args[4]
    return mk("fld", v, 0, 0, ""), I(0), mk("len", v)


@model(BM + "with_capacity", BM + "new")
def m_bm_new(eng, st, c):
    return [(st, agg("bytesmut", 0, mk("arrlit"), I(0), I(0)))]


@model(BM + "len", BM + "is_empty")
def m_bm_len(eng, st, c):
    n = bm_parts(deref_val(eng, st, c.args[0]))[2]
    return [(st, n if c.name.endswith("len") else eq0(n))]


def bm_norm(eng, st, p):
    v = eng.load(st, p.args[0], p.args[1])
    a, s, n = bm_parts(v)
    nv = agg("bytesmut", 0, a, s, n)
    if nv is not v:
        eng.store(st, p.args[0], p.args[1], nv)
    return a, s, n


@model("<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref",
       "<bytes::bytes_mut::BytesMut as core::ops::deref::DerefMut>::deref_mut",
       "<bytes::bytes_mut::BytesMut as core::convert::AsRef>::as_ref")
def m_bm_deref(eng, st, c):
    p = c.args[0]
    a, s, n = bm_norm(eng, st, p)
    return [(st, slice_(p.args[0], p.args[1] + (pf(0),), s, n))]


@model(BM + "truncate", BM + "clear")
def m_bm_truncate(eng, st, c):
    p = c.args[0]
    a, s, n = bm_norm(eng, st, p)
    k = c.args[1] if len(c.args) > 1 else I(0)
    res = []
    for t, g in fork(eng, st, le0(sub(k, n))):
        if t:
            eng.store(g, p.args[0], p.args[1], agg("bytesmut", 0, a, s, k))
        res.append((g, UNIT))
    return res


@model("bytes::buf::buf_impl::Buf::advance", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::advance",
       BM + "split_to")
def m_bm_advance(eng, st, c):
    p, k = c.args
    if p.op != "ptr":
        return None
    a, s, n = bm_norm(eng, st, p)
    good, outs = must(eng, st, c, le0(sub(k, n)), "advance past the end")
    for g in good:
        eng.store(g, p.args[0], p.args[1], agg("bytesmut", 0, a, add(s, k), sub(n, k)))
        outs.append(Out("ret", g, UNIT if c.name.endswith("advance") else agg("bytesmut", 0, a, s, k)))
    return outs


@model("[T]::copy_within")
def m_copy_within(eng, st, c):
    d = c.args[0]
    if d.op != "slice":
        return None
    kind, lo, hi = range_parts(eng, st, c, c.args[1], c.atys[1], d.args[3])
    dst = c.args[2]
    good, outs = must(eng, st, c, band(le0(sub(lo, hi)), le0(sub(hi, d.args[3]))), "copy_within source")
    for g in good:
        g2, o2 = must(eng, g, c, le0(sub(add(dst, sub(hi, lo)), d.args[3])), "copy_within destination")
        outs += o2
        for h in g2:
            old = eng.load(h, d.args[0], d.args[1])
            eng.store(h, d.args[0], d.args[1], mk("copyrng", old, add(d.args[2], dst), sub(hi, lo), old,
                                                  add(d.args[2], lo)))
            outs.append(Out("ret", h, UNIT))
    return outs


# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug")
def m_fmt_arg(eng, st, c):
    return [(st, agg("fmtarg", 0, mk("name", c.name.rsplit("_", 1)[1]), c.args[0], mk("ty", c.atys[0])))]


@model("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const")
def m_fmt_args(eng, st, c):
    t = const_bytes(eng, st, c.args[0]) if c.args[0].op == "slice" else None
    if t is None and c.args[0].op == "ptr":
        v = deref_val(eng, st, c.args[0])
        if v is not None and v.op == "bytes":
            t = v.args[0]
    rest = ()
    if len(c.args) > 1:
        v = deref_val(eng, st, c.args[1]) if c.args[1].op == "ptr" else None
        if v is not None and v.op == "arrlit":
            rest = v.args
        else:
            rest = (c.args[1],)
    return [(st, mk("agg", "fmtargs", 0, mk("tmpl", t, c.name.rsplit("::", 1)[1]), *rest))]


def fmt_values(eng, st, a):
    """the values behind the arguments of a format string, read when they are printed: (type, pointer or slice, value)"""
    res = []
    for x in a.args[3:] if a.op == "agg" and a.args[0] == "fmtargs" else ():
        if x.op != "agg" or x.args[0] != "fmtarg":
            return None
        ty, p = eng.T[x.args[4].args[0]].get("e"), x.args[3]
        while ty is not None and eng.T[ty]["k"] == "ref" and p.op == "ptr":
            p, ty = deref_val(eng, st, p, ty), eng.T[ty].get("e")
        v = None
        if p is not None and p.op == "ptr":
            v = deref_val(eng, st, p, ty)
        elif p is not None and p.op == "slice":
            v = content(eng, st, p)
        res.append((x.args[2].args[0], ty, p, v))
    return res


@model("core::fmt::Formatter::write_str", "core::fmt::Formatter::write_fmt", "core::fmt::Write::write_str",
       "core::fmt::Write::write_fmt", "core::fmt::Write::write_char", "core::fmt::Formatter::write_char", "core::fmt::Formatter::pad")
def m_write(eng, st, c):
    a = c.args[1]
    if a.op == "slice":
        a = content(eng, st, a)
    at = mk("fmtok", st.n, c.site, "bool")
    res = []
    st.emit(Ev("out", c.name.rsplit("::", 1)[1], (c.args[0], a), None, c.span, c.frame.name,
               data={"arg": c.args[1], "vals": fmt_values(eng, st, a)}))
    for t, g in fork(eng, st, at):
        res.append((g, ok(UNIT) if t else err(agg("core::fmt::Error", 0))))
    return res


def _fmt_display(eng, st, c):
    """Display of a primitive: one piece of output"""
    v = c.args[0]
    if v.op == "ptr":
        v = deref_val(eng, st, v, eng.T[c.atys[0]].get("e"))
    if v is not None and v.op == "slice":
        v = content(eng, st, v)
    st.emit(Ev("out", "display", (c.args[1], v if v is not None else c.args[0]), None, c.span, c.frame.name,
               data={"arg": c.args[0]}))
    at = mk("fmtok", st.n, c.site, "bool")
    return [(g, ok(UNIT) if t else err(agg("core::fmt::Error", 0))) for t, g in fork(eng, st, at)]


for _t in ("str", "char", "u8", "u16", "u32", "u64", "usize", "i32", "alloc::string::String"):
    M["<%s as core::fmt::Display>::fmt" % _t] = _fmt_display


ESC_PLAIN = ((0x20, 0x21), (0x23, 0x26), (0x28, 0x5b), (0x5d, 0x7e))      # printed as they are
ESC_SHORT = ((9, 10), (13, 13), (0x22, 0x22), (0x27, 0x27), (0x5c, 0x5c))    # backslash and one character


@model("core::ascii::escape_default")
def m_escape(eng, st, c):
    """the characters of an escaped byte: one, two or four"""
    b = c.args[0]
    res = []
    for cl, n in ((ESC_PLAIN, 1), (ESC_SHORT, 2), (iv_minus(((0, 255),), ESC_PLAIN + ESC_SHORT), 4)):
        f = restrict(st.fact, b, cl)
        if f is not None:
            res.append((st.with_fact(f) if len(res) else st.copy().with_fact(f), mk("agg", "it:esc", 0, b, I(0), I(n), I(n))))
    return res


@model("<core::ascii::EscapeDefault as core::iter::traits::iterator::Iterator>::next")
def m_escape_next(eng, st, c):
    r = it_next(eng, st, c.args[0]) if c.args[0].op == "ptr" else None
    return None if r is None else opt_outs(r)


# ------------------------------------------------------------------ collect
def _collect():
    def b_body(eng, fr, st):
        c = _ctx[fr.fid]
        nt = c.ty["next"]
        out = []
        oty = eng.T[nt].get("out")
        for o in eng.call_value(fr, st, mk("fnval", nt), [ptr(loc(fr, 1))], c.span, mk("cbsite", fr.fid), oty):
            if o.kind != "ret":
                out.append(o)
                continue
            d = eng.discr_of(o.st, o.val, oty)
            for t, g in eng.branch(o.st, eq0(addc(d, -1))):
                acc = eng.load(g, loc(fr, 2), ())
                if t:
                    x = eng.proj(g, o.val, pf(0, eng.T[c.dty]["args"][0], 1))
                    a, n = vec_parts(acc)
                    a = mk("arrlit", *(a.args + (x,))) if concrete(a, n) and x is not None else mk("store", a, n, x)
                    g.mem[loc(fr, 2)] = agg(VEC, 0, a, addc(n, 1))
                    out.append(go(g, 0))
                else:
                    out.append(ret(eng, fr, g, acc))
        return out
    blocks = [(b_body, [0, 1]), (b_return, [])]

    def m(eng, st, c):
        if eng.T[c.dty].get("def") != "alloc::vec::Vec" or "next" not in c.ty:
            return None
        return synth(eng, st, c, "collect", blocks, [c.args[0], agg(VEC, 0, mk("arrlit"), I(0))])
    return m


M[IT + "collect"] = _collect()


@model("core::intrinsics::raw_eq")
def m_raw_eq(eng, st, c):
    a, b = c.args
    n = eng.arr_len(eng.T[c.atys[0]]["e"])
    def view(p):
        if p.op == "slice":
            return p
        return slice_(p.args[0], p.args[1], I(0), I(n)) if p.op == "ptr" else None
    sa, sb = view(a), view(b)
    if sa is None or sb is None:
        raise Unsupported("raw_eq of %s %s" % (show(a), show(b)))
    return [(st, seq_eq(eng, st, sa, sb))]


def minmax(ismin):
    def m(eng, st, c):
        a, b = c.args
        res = []
        for t, g in fork(eng, st, le0(sub(a, b))):
            res.append((g, a if t == ismin else b))
        return res
    return m


M["core::intrinsics::integer_min"] = minmax(True)
M["core::intrinsics::integer_max"] = minmax(False)


@model("core::clone::Clone::clone")
def m_generic_clone(eng, st, c):
    if c.ty.get("rk") != "unresolved":
        return None
    v = deref_val(eng, st, c.args[0], eng.T[c.atys[0]].get("e"))
    return None if v is None else [(st, v)]


@model("core::default::Default::default")
def m_generic_default(eng, st, c):
    if c.ty.get("rk") != "unresolved":
        return None
    st.n += 1
    return [(st, eng.mksym(st, c.dty, "default", c.site, st.n))]


@model("core::convert::Into::into", "core::convert::From::from")
def m_generic_into(eng, st, c):
    if c.ty.get("rk") != "unresolved":
        return None
    st.n += 1
    res = eng.mksym(st, c.dty, "into", c.args[0], st.n)
    return [(st, res)]


@model("<alloc::boxed::Box as core::convert::From>::from")
def m_box_from(eng, st, c):
    st.n += 1
    return [(st, eng.mksym(st, c.dty, "boxfrom", c.args[0], st.n))]


@model("<str as core::cmp::Ord>::cmp")
def m_str_cmp(eng, st, c):
    st.n += 1
    return [(st, mk("strcmp", c.args[0], c.args[1], "i8"))]


@model("<alloc::boxed::Box as core::default::Default>::default")
def m_box_default(eng, st, c):
    """Box::<T>::default() == Box::new(T::default())"""
    st.n += 1
    root = mk("heap", c.site, st.n)
    t = eng.T[c.dty]["args"][0]
    inst = eng.find_impl("<%s as core::default::Default>::default" % eng.T[t].get("def", "?"))
    if inst is None:
        return None
    outs = []
    for o in eng.call_inst(st, inst, [], mk("frame", c.site, 5, inst), c.span):
        if o.kind == "ret":
            o.st.mem[root] = o.val
            o.st.rty = dict(o.st.rty)
            o.st.rty[root] = t
            o = Out("ret", o.st, ptr(root))
        outs.append(o)
    return outs


# ------------------------------------------------------------------ less common library functions
@model("alloc::boxed::Box::new_uninit")
def m_box_uninit(eng, st, c):
    st.n += 1
    return [(st, ptr(mk("box", c.site, st.n)))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(eng, st, c):
    p = c.args[0]
    if p.op != "ptr" or p.args[1]:
        return None
    v = eng.load(st, p.args[0], ())
    for _ in range(3):
        # MaybeUninit<[T; N]> wraps the array
        if v.op in ("arrlit", "bytes", "arrrep"):
            break
        if v.op == "agg" and len(v.args) == 3:
            v = v.args[2]
        elif v.op == "upd":
            v = v.args[-1]
        else:
            return None
    if v.op == "arrlit":
        n = len(v.args)
    elif v.op == "bytes":
        n = len(v.args[0])
    else:
        return None
    return [(st, agg(VEC, 0, v, I(n)))]


@model("alloc::vec::Vec::append")
def m_vec_append(eng, st, c):
    p, q = c.args
    if p.op != "ptr" or q.op != "ptr":
        return None
    a, n = vec_place(eng, st, p)
    b, m = vec_place(eng, st, q)
    st.emit(Ev("vec", "append", (p, q), None, c.span, c.frame.name))
    if concrete(a, n) and concrete(b, m):
        na = mk("arrlit", *(a.args + b.args))
    elif n.op == "int" and n.args[0] == 0:
        na = b
    else:
        na = mk("copyrng", a, n, m, b, I(0))
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, na, add(n, m)))
    eng.store(st, q.args[0], q.args[1], agg(VEC, 0, mk("arrlit"), I(0)))
    return [(st, UNIT)]


@model("<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend")
def m_vec_extend_iter(eng, st, c):
    """extension by a whole sequence"""
    p, v = c.args
    t = eng.T[c.atys[1]]
    if v.op == "slice":
        s = v
    elif v.op == "agg" and v.args[0] == "it:slice":
        s = v.args[2]
    elif v.op == "ptr" and t["k"] == "ref" and eng.T[t["e"]].get("def") == "alloc::vec::Vec":
        a, n = vec_place(eng, st, v)
        s = slice_(v.args[0], v.args[1] + (pf(0),), I(0), n)
    elif v.op == "agg" and v.args[0] == VEC:
        a, n = vec_place(eng, st, p)
        b, m = vec_parts(v)
        st.emit(Ev("vec", "append", (p, v), None, c.span, c.frame.name))
        na = mk("arrlit", *(a.args + b.args)) if concrete(a, n) and concrete(b, m) else \
            b if n.op == "int" and n.args[0] == 0 else mk("copyrng", a, n, m, b, I(0))
        eng.store(st, p.args[0], p.args[1], agg(VEC, 0, na, add(n, m)))
        return [(st, UNIT)]
    else:
        return None
    if not eng.sort(elem_ty(eng, c.atys[0])):
        return None
    c2 = c
    a, n = vec_place(eng, st, p)
    s = content(eng, st, s)
    src = mk("bytes", s.args[0].args[0]) if s.args[0].op == "const" else s.args[0].args[0]
    st.emit(Ev("vec", "extend", (p, s), None, c2.span, c2.frame.name))
    eng.store(st, p.args[0], p.args[1], agg(VEC, 0, mk("copyrng", a, n, s.args[3], src, s.args[2]), add(n, s.args[3])))
    return [(st, UNIT)]


@model("alloc::vec::Vec::resize")
def m_vec_resize(eng, st, c):
    p, k, x = c.args
    a, n = vec_place(eng, st, p)
    res = []
    for t, g in fork(eng, st, le0(sub(k, n))):
        g.emit(Ev("vec", "resize", (p, k), None, c.span, c.frame.name))
        na = a if t else mk("arrrep", x, 0) if n.op == "int" and n.args[0] == 0 else \
            mk("copyrng", a, n, sub(k, n), mk("arrrep", x, 0), I(0))
        eng.store(g, p.args[0], p.args[1], agg(VEC, 0, na, k))
        res.append((g, UNIT))
    return res


@model("[T]::swap")
def m_slice_swap(eng, st, c):
    s, i, j = c.args
    if s.op != "slice":
        return None
    ety = elem_ty(eng, c.atys[0])
    good, outs = must(eng, st, c, band(le0(addc(sub(i, s.args[3]), 1)), le0(addc(sub(j, s.args[3]), 1))), "swap index")
    for g in good:
        pi = (mk("pi", add(s.args[2], i), ety),)
        pj = (mk("pi", add(s.args[2], j), ety),)
        x = eng.load(g, s.args[0], s.args[1] + pi, ety)
        y = eng.load(g, s.args[0], s.args[1] + pj, ety)
        eng.store(g, s.args[0], s.args[1] + pi, y)
        eng.store(g, s.args[0], s.args[1] + pj, x)
        outs.append(Out("ret", g, UNIT))
    return outs


@model("<std::collections::hash::map::HashMap as core::ops::index::Index>::index")
def m_map_index(eng, st, c):
    p = c.args[0]
    cont = map_cont(eng, st, p)
    key = key_of(eng, st, c.args[1])
    kty, vty = map_args(eng, c.atys[0])
    good, outs = must(eng, st, c, has_term(cont, key), "no such key in the map")
    for g in good:
        g.emit(Ev("map", "get", (p, key), TRUE, c.span, c.frame.name, data=cont))
        outs.append(Out("ret", g, ptr(entry_of(g, p, cont, key, vty))))
    return outs


@model("<char as core::convert::From>::from")
def m_char_from(eng, st, c):
    return [(st, c.args[0])]


@model("str::ends_with")
def m_str_ends_with(eng, st, c):
    p = pat_bytes(eng, st, c.args[1], c.atys[1])
    if c.args[0].op != "slice" or p is None:
        return None
    if p[0] == "char":
        a = c.args[0]
        if p[1].op == "int" and p[1].args[0] < 128:
            return [(st, band(bnot(eq0(a.args[3])), eq0(sub(byte(eng, st, a, addc(a.args[3], -1)), p[1]))))]
        return None
    return m_starts_with(eng, st, c)


@model("core::intrinsics::is_val_statically_known")
def m_static(eng, st, c):
    return [(st, FALSE)]


@model("core::intrinsics::assert_inhabited", "core::intrinsics::assert_zero_valid")
def m_inhabited(eng, st, c):
    return [(st, UNIT)]


# ------------------------------------------------------------------ text that is built or changed
def from_zero(eng, st, s):
    """an array whose beginning is the content of the slice"""
    s = content(eng, st, s)
    a = arr_of(eng, st, s)
    if s.args[2].op == "int" and s.args[2].args[0] == 0:
        return a
    return mk("copyrng", mk("arrlit"), I(0), s.args[3], a, s.args[2])


def joined(eng, st, s, t):
    """the text s followed by the text t"""
    if st.fact.decide(eq0(s.args[3])) is True:
        return content(eng, st, t)
    ks, kt = const_bytes(eng, st, s), const_bytes(eng, st, t)
    if ks is not None and kt is not None:
        return slice_(mk("const", ks + kt), (), I(0), I(len(ks) + len(kt)))
    t = content(eng, st, t)
    n = s.args[3]
    return slice_(mk("cv", mk("copyrng", from_zero(eng, st, s), n, t.args[3], arr_of(eng, st, t), t.args[2])), (), I(0), add(n, t.args[3]))


@model("alloc::string::String::new", "alloc::string::String::with_capacity", "<alloc::string::String as core::default::Default>::default")
def m_string_new(eng, st, c):
    return [(st, mk("strof", slice_(mk("const", b""), (), I(0), I(0))))]


def string_place(eng, st, p, ty):
    if p.op != "ptr":
        return None
    v = deref_val(eng, st, p, eng.T[ty].get("e"))
    return None if v is None or v.op == "moved" else str_of(v)


@model("alloc::string::String::push_str", "<alloc::string::String as core::ops::arith::AddAssign>::add_assign")
def m_push_str(eng, st, c):
    s = string_place(eng, st, c.args[0], c.atys[0])
    if s is None or c.args[1].op != "slice":
        return None
    eng.store(st, c.args[0].args[0], c.args[0].args[1], mk("strof", joined(eng, st, s, c.args[1])))
    return [(st, UNIT)]


@model("<alloc::string::String as core::ops::arith::Add>::add")
def m_string_add(eng, st, c):
    if c.args[1].op != "slice":
        return None
    return [(st, mk("strof", joined(eng, st, str_of(c.args[0]), c.args[1])))]


@model("alloc::string::String::push")
def m_string_push(eng, st, c):
    s = string_place(eng, st, c.args[0], c.atys[0])
    if s is None or not iv_subset(st.fact.range_of(c.args[1]), ASCII):
        return None
    x = c.args[1]
    one = slice_(mk("const", bytes([x.args[0]])) if x.op == "int" else mk("cv", mk("arrlit", x)), (), I(0), I(1))
    eng.store(st, c.args[0].args[0], c.args[0].args[1], mk("strof", joined(eng, st, s, one)))
    return [(st, UNIT)]


@model("alloc::string::String::clear")
def m_string_clear(eng, st, c):
    eng.store(st, c.args[0].args[0], c.args[0].args[1], mk("strof", slice_(mk("const", b""), (), I(0), I(0))))
    return [(st, UNIT)]


@model("alloc::string::String::truncate")
def m_string_truncate(eng, st, c):
    s = string_place(eng, st, c.args[0], c.atys[0])
    if s is None:
        return None
    outs = []
    for t, g in fork(eng, st, le0(addc(sub(c.args[1], s.args[3]), 1))):
        if not t:
            outs.append(Out("ret", g, UNIT))
            continue
        good, o = must(eng, g, c, is_boundary(eng, g, s, c.args[1]), "truncate: not a char boundary")
        outs += o
        for h in good:
            eng.store(h, c.args[0].args[0], c.args[0].args[1],
                      mk("strof", content(eng, h, slice_(s.args[0], s.args[1], s.args[2], c.args[1]))))
            outs.append(Out("ret", h, UNIT))
    return outs


def changed_text(eng, st, c, s, same_length):
    """[(state, slice)]: the text as it was, and another text"""
    s = content(eng, st, s)
    res = [(st.copy(), s)]
    st.n += 1
    n = s.args[3] if same_length else mk("fresh", c.site, st.n, "usize")
    f = st.fact if same_length else st.fact.add_le(sub(I(0), n))
    f = f and f.add_le(addc(sub(I(0), s.args[3]), 1))
    if f is not None:
        st.fact = f
        new = slice_(mk("cv", mk("fresharr", c.site, st.n)), (), I(0), n)
        for t, g in fork(eng, st, seq_eq(eng, st, s, new)):
            if not t:
                res.append((g, new))
    return res


UPPER, LOWER = ((65, 90),), ((97, 122),)


@model("str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::to_lowercase", "str::to_uppercase",
       "alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase",
       "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_ascii_uppercase",
       "[u8]::to_ascii_lowercase", "[u8]::to_ascii_uppercase")
def m_case(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    a = arr_of(eng, st, s)
    lo, hi = s.args[2], add(s.args[2], s.args[3])
    cl = ((0, 64), (91, 127)) if c.name.endswith("lowercase") else ((0, 96), (123, 127))
    if "ascii" in c.name:
        cl = cl[:1] + ((cl[1][0], 255),)
    vec = "[u8]" in c.name
    wrap = (lambda x, g: agg(VEC, 0, from_zero(eng, g, x), x.args[3])) if vec else (lambda x, g: mk("strof", x))
    if eng.all_in(st, a, lo, hi, cl):
        return [(st, wrap(content(eng, st, s), st))]
    return [(g, wrap(x, g)) for x, g in [(x, g) for g, x in changed_text(eng, st, c, s, "ascii" in c.name)]]


@model("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches",
       "[u8]::trim_ascii", "[u8]::trim_ascii_start", "[u8]::trim_ascii_end")
def m_trim(eng, st, c):
    s = c.args[0]
    if s.op != "slice":
        return None
    away = (9, 10, 11, 12, 13, 32)
    name = c.name.replace("trim_ascii", "trim")
    if name.endswith("_matches"):
        p = pat_bytes(eng, st, c.args[1], c.atys[1])
        if p is None or p[0] != "char" or p[1].op != "int" or p[1].args[0] > 127:
            return None
        away, name = (p[1].args[0],), name[:-8]
        if eng.all_in(st, arr_of(eng, st, s), s.args[2], add(s.args[2], s.args[3]), ((0, away[0] - 1), (away[0] + 1, 255))):
            return [(st, s)]
    a = arr_of(eng, st, s)
    lo, hi = s.args[2], add(s.args[2], s.args[3])
    if eng.all_in(st, a, lo, hi, ((0, 8), (14, 31), (33, 127))):
        return [(st, s)]
    res = [(st.copy(), s)]
    # something is trimmed at one end, a single space for example
    for end in ("start", "end"):
        if name.endswith("trim") or name.endswith(end):
            g = st.copy()
            f = g.fact.add_le(addc(sub(I(0), s.args[3]), 1))
            if f is None:
                continue
            g.fact = f
            b = byte(eng, g, s, I(0) if end == "start" else addc(s.args[3], -1))
            f = restrict(g.fact, b, ((away[0], away[0]),) if len(away) == 1 else ((9, 13), (32, 32)))
            for h in ([g.with_fact(f)] if f is not None else []):
                    h.n += 1
                    k = mk("fresh", c.site, h.n, "usize")
                    f = h.fact.add_le(addc(sub(I(0), k), 1))
                    f = f and f.add_le(sub(k, s.args[3]))
                    if f is None:
                        continue
                    h.fact = f
                    n = sub(s.args[3], k)
                    if name.endswith("trim"):
                        m = mk("fresh", c.site, h.n, "len", "usize")
                        f = h.fact.add_le(sub(m, n))
                        f = f and f.add_le(sub(I(0), m))
                        if f is None:
                            continue
                        h.fact = f
                        n = m
                    res.append((h, slice_(s.args[0], s.args[1], add(s.args[2], k) if end == "start" else s.args[2], n)))
    return res


@model("str::eq_ignore_ascii_case", "[u8]::eq_ignore_ascii_case", "[T]::eq_ignore_ascii_case",
       "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case")
def m_nocase(eng, st, c):
    """equal texts are equal; others of the same length may be"""
    a, b = c.args[0], c.args[1]
    if a.op != "slice" or b.op != "slice":
        return None
    letters = ((0, 64), (91, 96), (123, 255))
    res = []
    for t, g in fork(eng, st, seq_eq(eng, st, a, b)):
        if t:
            res.append((g, TRUE))
            continue
        fixed = any(eng.all_in(g, arr_of(eng, g, x), x.args[2], add(x.args[2], x.args[3]), letters) for x in (a, b))
        for same, h in fork(eng, g, eq0(sub(a.args[3], b.args[3]))):
            if not same or fixed:
                res.append((h, FALSE))
                continue
            h.n += 1
            res += [(k, TRUE if u else FALSE) for u, k in fork(eng, h, mk("nocase", c.site, h.n, "bool"))]
    return res


def contains_text(eng, st, c):
    p = pat_bytes(eng, st, c.args[1], c.atys[1])
    a = c.args[0]
    if a.op != "slice" or p is None or p[0] != "seq":
        return None
    res = []
    for g, v in with_prefix_facts(eng, st, a, p[1]):
        for t, h in fork(eng, g, v):
            if t:
                res.append((h, TRUE))
                continue
            res.append((h.copy(), FALSE))
            h.n += 1
            at = mk("fresh", c.site, h.n, "usize")
            f = h.fact.add_le(addc(sub(I(0), at), 1))
            f = f and f.add_le(sub(add(at, p[1].args[3]), a.args[3]))
            if f is None:
                continue
            h.fact = f
            w = slice_(a.args[0], a.args[1], add(a.args[2], at), p[1].args[3])
            res += [(k, TRUE) for u, k in fork(eng, h, seq_eq(eng, h, w, p[1])) if u]
    return res


@model("alloc::string::String::into_bytes")
def m_into_bytes(eng, st, c):
    s = str_of(c.args[0])
    return [(st, agg(VEC, 0, from_zero(eng, st, s), s.args[3]))]


@model("alloc::string::String::pop")
def m_string_pop(eng, st, c):
    s = string_place(eng, st, c.args[0], c.atys[0])
    if s is None:
        return None
    res = []
    for t, g in fork(eng, st, eq0(s.args[3])):
        if t:
            res.append((g, NONE))
            continue
        b = byte(eng, g, s, addc(s.args[3], -1))
        for u, h in fork(eng, g, le0(addc(b, -127))):
            k = addc(s.args[3], -1)
            if not u:
                h.taint = h.taint + (("unmodelled", c.name, "not ASCII"),)
            eng.store(h, c.args[0].args[0], c.args[0].args[1], mk("strof", content(eng, h, slice_(s.args[0], s.args[1], s.args[2], k))))
            res.append((h, some(b)))
    return res


@model("str::replace")
def m_replace(eng, st, c):
    s = c.args[0]
    p = pat_bytes(eng, st, c.args[1], c.atys[1])
    if s.op != "slice" or p is None:
        return None
    if p[0] == "char" and p[1].op == "int" and p[1].args[0] < 128 and \
            eng.all_in(st, arr_of(eng, st, s), s.args[2], add(s.args[2], s.args[3]), ((0, p[1].args[0] - 1), (p[1].args[0] + 1, 255))):
        return [(st, own(eng, st, s))]
    return None


@model("alloc::borrow::Cow::into_owned", "<alloc::borrow::Cow as alloc::string::ToString>::to_string")
def m_cow_owned(eng, st, c):
    v = c.args[0]
    if v.op == "ptr":
        v = deref_val(eng, st, v, eng.T[c.atys[0]].get("e"))
    return [(st, mk("strfrom", v))] if v is not None and v.op == "lossy" else None


# ------------------------------------------------------------------ searches with a predicate on single bytes
SKIP = "core::iter::adapters::skip::Skip"


def byte_sets(eng, st, c, f, by_value):
    """(values for which a predicate on one byte holds, values for which it does not), or None if it depends on more"""
    g0 = st.copy()
    g0.n += 1
    root = mk("predarr", g0.n, c.site)
    g0.mem[root] = mk("cv", mk("predbytes", g0.n, c.site))
    before = set(g0.mem)
    p = ptr(root, (mk("pi", I(0), next(i for i, t in enumerate(eng.T) if t["s"] == "u8")),))
    x = select_u8(eng, g0, g0.mem[root], I(0))
    if x.op != "sel":
        return None
    quiet, eng.quiet = eng.quiet, True
    try:
        outs = eng.call_value(c.frame, g0.copy(), f, [x if by_value else p], c.span, mk("predsite", c.site, mk("name", "sets")), None)
    finally:
        eng.quiet = quiet
    T, N = (), ()
    for o in outs:
        if o.kind != "ret" or o.st.taint != st.taint or o.st.trace() != st.trace():
            return None
        if any(o.st.mem.get(k) is not st.mem[k] for k in st.mem):
            return None
        for t, g in eng.branch(o.st, o.val):
            a, b = g.fact, st.fact
            if (a.les, a.eqs, a.neqs, a.alls, a.strv, a.strn) != (b.les, b.eqs, b.neqs, b.alls, b.strv, b.strn):
                return None
            if any(k is not x and v != b.dom.get(k) for k, v in a.dom.items()):
                return None
            iv = iv_inter(a.dom.get(x, ((0, 255),)), ((0, 255),))
            if t:
                T = iv_union(T, iv)
            else:
                N = iv_union(N, iv)
    return (T, N) if not iv_inter(T, N) and iv_size(iv_union(T, N)) == 256 else None


def byte_source(eng, st, p, ty):
    """(slice, set the iterator to a rest of it, items are values?) of an iterator over bytes at p"""
    t = eng.T[ty]
    v = it_value(eng, st, p)
    if v is not None and v.args[0] in ("it:slice", "it:bytes") and v.args[2].op == "slice":
        if v.args[0] == "it:slice" and eng.T[v.args[3].args[0]]["s"] != "u8":
            return None
        return v.args[2], lambda g, ns: eng.store(g, p.args[0], p.args[1], mk("agg", v.args[0], 0, ns, *v.args[3:])), v.args[0] == "it:bytes"
    if t.get("def") == SKIP and t.get("v"):
        f = t["v"][0]
        inner, cnt = [ptr(p.args[0], p.args[1] + (mk("pf", 0, i, f[i]),)) for i in (0, 1)]
        r = byte_source(eng, st, inner, f[0])
        if r is None:
            return None
        s, put, byval = r
        n = eng.load(st, cnt.args[0], cnt.args[1], f[1])
        if not st.fact.le(n, s.args[3]):
            return None

        def set_(g, ns):
            put(g, ns)
            eng.store(g, cnt.args[0], cnt.args[1], I(0))
        return adv(s, n), set_, byval
    return None


def m_position(eng, st, c):
    return find_byte(eng, st, c) or position_by_item(eng, st, c)


position_by_item = M[IT + "position"]
M[IT + "position"] = m_position


def find_byte(eng, st, c):
    p = c.args[0]
    if p.op != "ptr" or c.atys[0] is None:
        return None
    src = byte_source(eng, st, p, eng.T[c.atys[0]]["e"])
    if src is None:
        return None
    s, put, byval = src
    sets = byte_sets(eng, st, c, c.args[1], byval)
    if sets is None:
        return None
    T, N = sets
    n, lo = s.args[3], s.args[2]
    arr = arr_of(eng, st, s)
    res = []
    g = st.copy()
    f = g.fact if g.fact.decide(eq0(n)) is True else g.fact.add_all(arr, lo, add(lo, n), N)
    if f is not None and not (g.fact.le(I(1), n) and not N):
        g.fact = f
        put(g, slice_(s.args[0], s.args[1], add(lo, n), I(0)))
        res.append((g, NONE))
    g = st.copy()
    g.n += 1
    i = mk("found", c.site, g.n, "usize")
    f = g.fact.add_le(sub(I(0), i))
    f = f and f.add_le(addc(sub(i, n), 1))
    f = f and f.add_all(arr, lo, add(lo, i), N)
    f = f and restrict(f, select_u8(eng, g.with_fact(f), arr, add(lo, i)), T)
    if f is not None:
        g.fact = f
        put(g, slice_(s.args[0], s.args[1], add(add(lo, i), I(1)), addc(sub(n, i), -1)))
        res.append((g, some(i)))
    return res
