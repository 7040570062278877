"""Announced sizes and encodings of arguments (W09), derived client IDs (I03)"""
from . import check
from .common import *
from .. import lang
from ..engine import slice_, UNIT, St
from ..models import arr_of, const_bytes, content, select_u8, seq_eq
from ..terms import iv_norm, iv_show, iv_subset, replace
from ..run import ToolError

ARG = "vt6::common::core::encode_argument::EncodeArgument"
ENCODED = "vt6::common::core::encode_argument::EncodedArgument::encoded"


def encoded(eng, st, c):
    """EncodedArgument::encoded of an unknown type: the same bytes for the same value"""
    if c.name != c.gname:
        return None
    x = arg_identity(eng, st, c)
    root = mk("encodedbytes", x)
    return [(st, slice_(root, (), I(0), mk("encodedlen", x, "usize")))]


def contracts(F):
    return dict(encode_contract(F), **{ENCODED: encoded})


def unknown_only(F):
    """the contract only for argument types that are not known"""
    a = contracts(F)

    def f(h):
        def g(eng, st, c):
            return h(eng, st, c) if c.name == c.gname else None
        return g
    return {k: f(h) for k, h in a.items()}


class Sized:
    """one implementation of EncodeArgument: get_size, then encode into a buffer of that size"""

    def __init__(self, ctx, F, name, size, enc, budget=100):
        self.ctx, self.F, self.name, self.size, self.enc, self.budget = ctx, F, name, size, enc, budget

    def run(self, unroll, peel=0):
        """[(engine, outcome)], or None without an answer"""
        e = engine(self.F, self.budget, anchors=unknown_only(self.F))
        e.merge = False
        e.unroll = unroll
        e.peel = peel
        out = []
        self.cut = 0
        try:
            for o in e.run_root(self.size):
                if o.kind != "ret":
                    out.append((e, o))
                    continue
                st = o.st
                self_ = e.root_args[0]
                bty = self.F.insts[self.enc]["body"]["locals"][2]
                buf = e.mksym(st, bty, "buf")
                f = st.fact.add_eq(sub(buf.args[3], o.val))
                if f is None:
                    continue
                st.fact = f
                st.frames = ()
                first = e.root_args
                for p in e.run_root(self.enc, [self_, buf], st):
                    p.val = (buf, arr_before(e, buf), p.val)
                    out.append((e, p))
                e.root_args = first
        except (Budget, Unsupported) as x:
            self.why = str(x) or type(x).__name__
            return None
        finally:
            self.cut = e.cut_loops
            self.ctx.funcs |= {f for f in e.seen_fns if H not in f}
        return out


def arr_before(eng, buf):
    s = St()
    return arr_of(eng, s, buf)


def filled(eng, st, buf, before):
    """is every byte of the buffer written?"""
    f = st.fact
    arr = arr_of(eng, st, buf)
    lo, hi = buf.args[2], add(buf.args[2], buf.args[3])
    if f.le(hi, lo):
        return True
    w = writes_of(st, arr, before)
    if w is None:
        return lang.all_in(f, arr, lo, hi, ((0, 127),)) or None
    p = lo
    todo = list(w)
    while not f.le(hi, p):
        for x in todo:
            if f.le(x[0], p) and f.le(p, add(x[0], x[1])) and (not f.eq(p, add(x[0], x[1])) or f.eq(x[1], I(0))):
                p = add(x[0], x[1])
                todo.remove(x)
                break
        else:
            return False
    return True


def verdicts(s, outs):
    """[(key, text, outcome)] of broken obligations; number of obligations"""
    n = 0
    bad = []
    for e, o in outs:
        n += 1
        if o.kind == "panic":
            bad.append(("panic: %s" % o.why, "panics (%s) at %s" % (o.why, o.span), o, False))
        elif o.kind != "ret":
            bad.append(("no answer", "a path could not be followed to its end (%s)" % o.kind, o, None))
        else:
            buf, before, _ = o.val
            g = filled(e, o.st, buf, before)
            if not g:
                bad.append(("filled", "not all of the announced size is written", o, g))
    return n, bad


@check("W09")
def w09(ctx):
    """Abstract interpretation of get_size followed by encode into a buffer of that length, for every implementation of
    EncodeArgument in the crate and arbitrary values: nothing panics (index out of bounds, arithmetic, assertions), and
    the writes into the buffer cover it completely. Loops are widened; where this is not precise enough (digits of
    integers) they are peeled until no path is left (at most 40 digits)."""
    F = ctx.facts()
    n = 0
    fs = {f["def"]: f for f in F.fns}
    for d, f in sorted(fs.items()):
        if not d.endswith("EncodeArgument>::get_size"):
            continue
        g = fs.get(d.replace("::get_size", "::encode"))
        if g is None:
            raise ToolError("%s has no encode" % d)
        n += 1
        decide_size(ctx, F, d[1:].split(" as ")[0], f["inst"], g["inst"])
    ctx.floor("implementations of EncodeArgument", n, 17)


def decide_size(ctx, F, name, size, enc):
    s = Sized(ctx, F, name, size, enc)
    last = None
    for unroll in (None, 3, 45):
        outs = s.run(unroll)
        if outs is None:
            last = s.why
            continue
        k, bad = verdicts(s, outs)
        open_ = [b for b in bad if b[0] == "no answer"]
        sure = [b for b in bad if b[3] is False and not b[2].st.taint and not widened(b[2])]
        if sure:
            for key in sorted({b[0] for b in sure}):
                b = [b for b in sure if b[0] == key][0]
                ctx.oblige(False, "%s: %s" % (name, key), "%s: %s" % (name, b[1]),
                           facts=[x[:200] for x in show_facts(b[2].st.fact)][:40])
            return
        if not bad and not s.cut:
            if not any(o.kind == "ret" for e, o in outs):
                raise ToolError("%s never returns" % name)
            for i in range(k):
                ctx.oblige(True, "%s" % name, "")
            return
        last = bad[0][1] if bad else "loops run more often than they were followed (%d)" % unroll
    ctx.oblige(None, name, "%s: %s" % (name, last))




# ---- derived client IDs
class Derived:
    """an outcome of building a derived client ID: the written bytes and what is known about the suffix"""

    def __init__(self, e, o):
        st = o.st
        self.e, self.o, self.st = e, o, st
        obs = [(ev.name, ev.args[0]) for ev in st.trace() if ev.kind == "observe"]
        d = dict(obs)
        self.kind = [k for k in ("own", "local", "job", "child") if k in d][0]
        self.nums = [v for k, v in obs if k in ("local", "job", "child")]
        self.base, self.text = d["base"], d["text"]
        self.arr = arr_of(e, st, self.text)
        self.lo = self.text.args[2]
        self.mid = add(self.lo, self.base.args[3])
        self.hi = add(self.lo, self.text.args[3])
        n = sub(self.hi, self.mid)
        self.len = next((k for k in range(12) if st.fact.eq(n, I(k))), None)

    def byte(self, k):
        return select_u8(self.e, self.st, self.arr, addc(self.mid, k))

    def ivs(self, b):
        t = table(b)
        if t:
            return iv_norm([(t[0][k],) * 2 for k in self.reach(b)])
        return iv_of(self.st.fact, b)

    def reach(self, b):
        """the entries of the table that a lookup can use"""
        f = self.st.fact
        t, e = table(b)
        return [k for k in range(len(t)) if not f.infeasible_with([addc(e, -k), scale(addc(e, -k), -1)])]

    def shown(self, b, cl):
        """is there an index for which the byte is outside of the class?"""
        f = self.st.fact
        t = table(b)
        if t is None:
            return b.op == "int" or not any(x.op == "sel" for x in atoms_of(b))
        for k in self.reach(b):
            if not lang_has(cl, t[0][k]):
                g = f.add_eq(addc(t[1], -k))
                if g is not None and pin(g, self.nums) is not None:
                    return True
        return False

    def has_base(self):
        f = self.st.fact
        src = arr_of(self.e, self.st, self.base)
        for a in {self.arr}:
            while a.op in ("store", "copyrng"):
                if a.op == "store":
                    if not f.le(self.mid, a.args[1]):
                        break
                else:
                    t, s, n, b, bs = a.args
                    if f.eq(s, self.lo) and f.eq(n, self.base.args[3]):
                        return b is src and f.eq(bs, self.base.args[2])
                    if not f.le(self.mid, s):
                        break
                a = a.args[0]
        x = slice_(self.text.args[0], self.text.args[1], self.lo, self.base.args[3])
        return f.decide(seq_eq(self.e, self.st, x, self.base))

    def show(self, vals=None):
        return "%s(%s)" % (self.kind, ", ".join(str(v) for v in (vals or ["_"] * len(self.nums))))


def iv_of(f, b):
    if b.op == "int":
        return ((b.args[0], b.args[0]),)
    if b.op == "lin":
        lo, hi = f.bounds(b)
        return ((lo, hi),) if lo is not None and hi is not None else ((0, 255),)
    return f.ivs(b)


def table(b):
    """(bytes of the constant table, index) of a table lookup"""
    if b.op != "sel":
        return None
    a = b.args[0]
    if a.op == "bytes":
        return bytes(a.args[0]), b.args[1]
    if a.op == "arrlit" and all(x.op == "int" for x in a.args):
        return bytes(x.args[0] for x in a.args), b.args[1]
    return None


def derived_run(ctx, F, fn, unroll, peel, budget):
    e = engine(F, budget)
    e.merge = False
    e.unroll, e.peel = unroll, peel
    try:
        outs = e.run_root(fn)
    finally:
        ctx.funcs |= {f for f in e.seen_fns if H not in f}
    return e, outs


def judge_derived(d):
    """[(key, text, True/False/None)]"""
    f = d.st.fact
    r = [("base", "the base is not in front of the suffix", d.has_base() or (None if d.len is None else False))]
    if d.len is not None:
        cls = [d.ivs(d.byte(k)) for k in range(d.len)]
        ok = all(iv_subset(c, lang.ALNUM) for c in cls)
        if not ok and not any(d.shown(d.byte(k), lang.ALNUM) for k in range(d.len)):
            ok = None
        r.append(("alnum", "the suffix contains other characters than letters and digits (%s)"
                  % "; ".join(iv_show(c) for c in cls if not iv_subset(c, lang.ALNUM)), ok))
    else:
        r.append(("alnum", "the suffix may contain other characters than letters and digits",
                  d.e.all_in(d.st, d.arr, d.mid, d.hi, lang.ALNUM) or None))
    zero = ((48, 48),)
    if d.kind != "own":
        if not f.lt(d.mid, d.hi):
            r.append(("empty", "the suffix may be empty", False if d.len == 0 else None))
        else:
            c = d.ivs(d.byte(0))
            if d.kind == "local":
                ok = iv_subset(c, zero)
            else:
                ok = not lang_has(c, 48)
            if not ok and (d.len is None or not d.shown(d.byte(0), zero if d.kind == "local" else ((0, 47), (49, 255)))):
                ok = None
            r.append(("first", "the suffix starts with %s, like one of another kind" % iv_show(c), ok))
    return [(k, "%s: %s" % (d.show(), t), v) for k, t, v in r]


def lang_has(c, n):
    return any(a <= n <= b for a, b in c)


class Renamed:
    """a copy of an outcome with its own suffix"""

    def __init__(self, d):
        m = {v: mk("sym", mk("name", "other"), i, atom_sort(v) or "u32") for i, v in enumerate(d.nums)
             if v.op != "int"}
        f = d.st.fact
        c = {}
        self.nums = [replace(v, m, c) for v in d.nums]
        self.dom = {replace(k, m, c): v for k, v in f.dom.items()}
        self.les = [replace(x, m, c) for x in f.les]
        self.eqs = [replace(x, m, c) for x in f.eqs]
        self.bytes = [replace(d.byte(k), m, c) for k in range(d.len)]


def places(t, n):
    return [k for k, x in enumerate(t) if x == n]


def same_bytes(f, xs, ys):
    """all facts under which the bytes are the same; None: not understood"""
    fs = [f]
    for x, y in zip(xs, ys):
        tx, ty = table(x), table(y)
        if tx and ty:
            if tx[0] != ty[0]:
                return None
            alt = [[sub(tx[1], ty[1])]]
            for i, c in enumerate(tx[0]):
                alt.extend([addc(tx[1], -i), addc(ty[1], -k)] for k in places(tx[0], c) if k != i)
        elif tx or ty:
            t, o = (tx, y) if tx else (ty, x)
            if o.op != "int":
                return None
            alt = [[addc(t[1], -k)] for k in places(t[0], o.args[0])]
        elif "sel" not in (x.op, y.op):
            alt = [[sub(x, y)]]
        else:
            return None
        new = []
        for f in fs:
            for a in alt:
                g = f
                for e in a:
                    g = g and g.add_eq(e)
                if g is not None:
                    new.append(g)
        fs = new
    return fs


def pin(f, vs):
    """values for the variables that agree with everything known"""
    r = []
    for v in vs:
        lo, hi = f.bounds(v)
        if lo is None:
            return None
        g = None
        for x in (lo, hi, lo + 1):
            if x is None or (hi is not None and x > hi):
                continue
            g = f.add_eq(addc(v, -x))
            if g is not None and not g.infeasible_with([]):
                break
            g = None
        if g is None:
            return None
        f = g
        r.append(x)
    return r


def collision(p, q, same):
    """two different suffixes with the same bytes: (answer, example)"""
    r = Renamed(q)
    f = p.st.fact
    for k, v in r.dom.items():
        f = f and f._setdom(k, iv_inter(f.ivs(k), v))
    for x in r.les:
        f = f and f.add_le(x)
    for x in r.eqs:
        f = f and f.add_eq(x)
    if f is None:
        return True, ""
    fs = same_bytes(f, [p.byte(k) for k in range(p.len)], r.bytes)
    if fs is None:
        return None, "bytes that are not understood"
    cases = [None] if p.kind != q.kind else [(i, s) for i in range(len(p.nums)) for s in (1, -1)]
    if p is q:
        cases = [c for c in cases if c[1] == 1]
    worst = True
    for f, c in ((f, c) for f in fs for c in cases):
        g = f
        if c:
            g = f.add_le(addc(scale(sub(p.nums[c[0]], r.nums[c[0]]), c[1]), 1))
        if g is None or g.infeasible_with([]):
            continue
        vs = pin(g, p.nums + r.nums)
        if vs is not None:
            return False, "%s and %s" % (p.show(vs[:len(p.nums)]), q.show(vs[len(p.nums):]))
        worst = None
    return worst, "%s and %s" % (p.show(), q.show())


@check("I03")
def i03(ctx):
    """Abstract interpretation of building and encoding a derived client ID, for an arbitrary base and suffix: (a) with
    the loops widened after their first iteration, that nothing panics, that the base comes first, that everything
    behind it is a letter or digit and that the first character tells process-local suffixes from the others; (b) by
    self-composition over all encodings with at most four characters per index, that no two suffixes have the same
    encoding (in particular, that the characters of the code are distinct)."""
    F = ctx.facts()
    fn = harness_fn(F, "i03_below")
    name = "ClientIDSuffix::below"
    sure = {}
    # (b) first: its paths are exact
    e, outs = derived_run(ctx, F, fn, 4, 0, 200)
    ps = []
    for o in outs:
        if o.kind == "panic":
            if not o.st.taint:
                sure["panic %s" % o.why] = "panics (%s) at %s" % (o.why, o.span)
            continue
        if o.kind != "ret" or not any(ev.kind == "observe" for ev in o.st.trace()):
            continue
        d = Derived(e, o)
        for k, t, v in judge_derived(d):
            if v is False and not o.st.taint:
                sure[k] = t
        if d.len is None or o.st.taint:
            ctx.oblige(None, "path", "%s: an encoding without a fixed length" % d.show())
            continue
        ps.append(d)
    ctx.floor("encodings with at most four characters per index", len(ps), 4)
    n = 0
    for i, p in enumerate(ps):
        for q in ps[i:]:
            if p.len != q.len:
                continue
            n += 1
            v, t = collision(p, q, i)
            if v is False:
                sure["collision"] = "%s give the same client ID" % t
            else:
                ctx.oblige(v, "collision", t)
    ctx.cov["pairs of encodings"] = n
    for k, t in sure.items():
        ctx.violation("%s: %s" % (name, k), "%s: %s" % (name, t))
    # (a) every length
    try:
        e, outs = derived_run(ctx, F, fn, None, 1, 200)
    except (Budget, Unsupported) as x:
        ctx.oblige(None, "every length", "%s" % (x or type(x).__name__))
        return
    rets = 0
    for o in outs:
        if o.kind == "panic":
            if sure:
                continue
            if widened(o) or o.st.taint:
                ctx.oblige(None, "panic", "%s: may panic (%s) at %s" % (name, o.why, o.span))
            else:
                ctx.oblige(False, "%s: panic %s" % (name, o.why), "%s panics (%s) at %s" % (name, o.why, o.span))
        elif o.kind != "ret":
            ctx.oblige(None, "path", "%s: a path could not be followed to its end (%s)" % (name, o.kind))
        elif any(ev.kind == "observe" for ev in o.st.trace()):
            d = Derived(e, o)
            rets += 1
            for k, t, v in judge_derived(d):
                if not sure:
                    ctx.oblige(v or None, k, t)
    ctx.floor("kinds of encodings", rets, 4)
