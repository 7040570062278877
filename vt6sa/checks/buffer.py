"""The send buffers of the Tokio dispatch (T10)"""
from . import check
from .common import *
from .tokio import Tokio, Queues
from .graph import Graph
from .server import variants
from ..models import content, seq_eq, select_u8, arr_of
from ..engine import agg, slice_, ptr, ok, err
from ..run import ToolError

RESULT = "core::result::Result"


def same_bytes(eng, st, arr, start, src, soff, n):
    """are n bytes of arr from start on those of src from soff on?  True, False or None (cannot be told)"""
    if st.fact.eq(n, I(0)):
        return True
    a, b = mk("name", "t10a"), mk("name", "t10b")
    st.mem[a], st.mem[b] = arr, src
    x, y = content(eng, st, slice_(a, (), start, n)), content(eng, st, slice_(b, (), soff, n))
    del st.mem[a], st.mem[b]
    if x is y:
        return True
    if x.op == "slice" and y.op == "slice" and x.args[0] is y.args[0]:
        if st.fact.eq(x.args[2], y.args[2]):
            return True
        return False
    for k in range(1, 5):
        if st.fact.eq(n, I(k)):
            res = True
            for i in range(k):
                p, q = select_u8(eng, st, arr, addc(start, i)), select_u8(eng, st, src, addc(soff, i))
                if not st.fact.eq(p, q):
                    res = False if res is True and p.op in ("sel", "int") and q.op in ("sel", "int") else None
            return res
    # some byte of them
    j = mk("sym", "some byte", "usize")
    h = st.copy()
    h.fact = h.fact.add_le(sub(addc(j, 1), n))
    if h.fact is None:
        return True
    res = True
    for f1, a1, i1 in bytes_at(h.fact, arr, add(start, j)):
        for f2, a2, i2 in bytes_at(f1, src, add(soff, j)):
            if a1 is a2 and f2.eq(i1, i2):
                continue
            if a1.op not in ("sym", "val") or a2.op not in ("sym", "val"):
                res = None
            elif res is not None:
                res = False
    return res


def bytes_at(f, arr, i):
    """where the byte at an index of an array comes from: (facts, array, index)"""
    if arr.op == "copyrng":
        base, cs, cn, src, ss = arr.args
        end = add(cs, cn)
        lo = f.add_le(sub(addc(i, 1), cs))
        if lo is not None:
            yield from bytes_at(lo, base, i)
        hi = f.add_le(sub(end, i))
        if hi is not None:
            yield from bytes_at(hi, base, i)
        mid = f.add_le(sub(cs, i))
        mid = mid.add_le(sub(addc(i, 1), end)) if mid is not None else None
        if mid is not None:
            yield from bytes_at(mid, src, add(ss, sub(i, cs)))
    elif arr.op == "store":
        base, k, x = arr.args
        for g in (f.add_le(sub(addc(i, 1), k)), f.add_le(sub(addc(k, 1), i))):
            if g is not None:
                yield from bytes_at(g, base, i)
        g = f.add_eq(sub(i, k))
        if g is not None:
            yield (g, mk("byte", x), I(0)) if x.op != "sel" else (g, x.args[0], x.args[1])
    else:
        yield f, arr, i


def callers(F, bdef):
    """the methods of the type that other code calls"""
    g = Graph(F)
    own = lambda i: bdef + "::" in F.insts[i]["def"] or "<" + bdef + " as" in F.insts[i]["def"]
    out = set()
    for i, es in g.edges.items():
        if own(i):
            continue
        for (j, span, how) in es:
            if own(j):
                out.add(F.insts[j]["def"])
    return out


class Buf:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = F = ctx.facts()
        self.q = Queues(Tokio(ctx), 1)
        self.ty = self.q.bty
        self.seen = {}

    def is_self(self, i):
        t = self.F.types[i]
        return t["k"] == "ref" and t["e"] == self.ty

    def bytes_ref(self, i):
        t = self.F.types[i]
        return t["k"] == "ref" and self.F.types[t["e"]]["s"] == "[u8]"

    def kind(self, f):
        F = self.F
        loc = F.insts[f["inst"]]["body"]["locals"]
        n = F.insts[f["inst"]]["body"]["argc"]
        a, r = loc[1:1 + n], loc[0]
        rs = F.types[r]["s"]
        if n == 0:
            return "new" if r == self.ty else None
        if not self.is_self(a[0]):
            return None
        mut = F.types[a[0]].get("mut")
        if not mut and n == 1:
            return "data" if self.bytes_ref(r) else "len" if rs == "usize" else "empty" if rs == "bool" else None
        if mut and n == 1 and rs == "()":
            return "clear"
        if mut and n == 2 and self.bytes_ref(a[1]):
            return "fill" if self.bytes_ref(r) else None
        if mut and n == 2 and F.types[a[1]]["k"] in ("param", "ref") and F.types[r].get("def") == RESULT:
            return "render"
        return None

    def fields(self, eng, st, root):
        return self.q.buffer(eng, st, root)

    def prep(self, eng, st, args):
        """self holds any data within its capacity"""
        if not args:
            return
        root = mk("name", "sendbuffer")
        ops = [None, None]
        self.arr0 = ops[self.q.arr] = mk("sym", "bufdata", "")
        self.n0 = ops[self.q.num] = mk("sym", "filled", "usize")
        st.mem[root] = agg(self.q.bdef, 0, *ops)
        st.rty = dict(st.rty)
        st.rty[root] = self.ty
        st.fact = st.fact.add_le(sub(self.n0, I(self.q.cap)))
        self.root = args[0] = ptr(root)
        self.args = args

    def setup(self, eng):
        eng.snap = True
        eng.hooks["callback"] = self.callback

    def callback(self, eng, fr, st, fv, args, span, site, dty):
        """the code that renders a message: it writes into the slice and may fail"""
        if len(args) != 1 or args[0].op != "slice":
            return None
        x = args[0]
        st.n += 1
        src = mk("sym", "rendered", st.n, "")
        n = mk("sym", "written", st.n, "usize")
        arr = arr_of(eng, st, x)
        eng.store(st, x.args[0], x.args[1], mk("copyrng", arr, x.args[2], x.args[3], src, I(0)))
        good = st.copy()
        good.fact = good.fact.add_le(sub(n, x.args[3]))
        good.emit(Ev("rendered", "ok", (x, n, src), None, span, fr.name))
        st.emit(Ev("rendered", "failed", (x,), None, span, fr.name))
        return [Out("ret", good, ok(n)), Out("ret", st, err(mk("sym", "renderr", st.n, "")))]

    def judge(self, name, kind):
        """(key, text, outcome) of what is wrong; `maybe` collects what cannot be told"""
        def f(eng, outs):
            for o in outs:
                if o.kind == "panic":
                    yield ("%s: %s in %s" % (name, o.why, where(o)),
                           "%s panics: %s (%s) at %s" % (name, o.why, where(o), o.span), o)
                if o.kind == "ret":
                    for key, text, good in self.rules(eng, o, kind):
                        self.n += 1
                        if good is None:
                            self.maybe.append((key, text))
                        elif not good:
                            yield ("%s: %s" % (name, key), "%s: %s" % (name, text), o)
        return f

    def rules(self, eng, o, kind):
        st = o.st
        f = st.fact
        cap = I(self.q.cap)
        if kind == "new":
            if o.val.op == "agg" and o.val.args[0] == self.q.bdef:
                yield "initial state", "a new buffer already holds data", f.eq(o.val.args[2 + self.q.num], I(0))
            else:
                yield "initial state", "the new buffer cannot be told", None
            return
        n, arr = self.fields(eng, st, self.root.args[0])
        yield "capacity", "the buffer may hold more than its capacity", f.le(n, cap)
        kept = same_bytes(eng, st, arr, I(0), self.arr0, I(0), self.n0)
        same = f.eq(n, self.n0)
        if kind in ("data", "len", "empty"):
            yield "reading", "reading changes the buffer", True if same and kept else kept if same else False
        if kind == "data":
            v = o.val
            if v.op != "slice":
                yield "data", "what is offered cannot be told", None
                return
            yield "data", "what is offered is not the number of bytes filled", f.eq(v.args[3], self.n0)
            yield "data", "what is offered is not the data of the buffer", \
                same_bytes(eng, st, arr_of(eng, st, v), v.args[2], self.arr0, I(0), self.n0)
        if kind == "len" and self.lens == 1:
            yield "length", "the length reported is not the number of bytes filled", f.eq(o.val, self.n0)
        if kind == "clear":
            yield "clear", "the buffer holds data after it was cleared", f.eq(n, I(0))
        if kind == "fill":
            yield "data kept", "filling changes the data already there", kept
            x, v = self.args[1], o.val
            ln = x.args[3]
            if v.op != "slice":
                yield "rest", "the rest returned cannot be told", None
                return
            took = sub(ln, v.args[3])
            yield "amount", "the buffer does not gain as many bytes as are missing in the rest returned", \
                f.eq(sub(n, self.n0), took)
            yield "amount", "there is input left although there is room in the buffer", \
                f.eq(v.args[3], I(0)) or f.eq(n, cap)
            src = eng.load(st, x.args[0], x.args[1])
            got = arr_of(eng, st, v)
            yield "rest", "what is returned is not the end of the input", \
                True if f.eq(v.args[3], I(0)) else \
                same_bytes(eng, st, got, v.args[2], src, add(x.args[2], took), v.args[3])
            yield "copy", "the buffer does not gain the beginning of the input", \
                same_bytes(eng, st, arr, self.n0, src, x.args[2], took)
        if kind == "render":
            yield "data kept", "rendering a message changes the data already there", kept
            evs = [e for e in st.trace() if e.kind == "rendered"]
            res = sorted(self.outcome(eng, o))
            if not evs:
                yield "failure", "the buffer changes without a message being rendered", same
                yield "failure", "success is reported although nothing was rendered", res == ["Err"] if res else None
                return
            for e in evs:
                x = e.args[0]
                yield "free part", "the message is rendered over data already in the buffer", \
                    x.args[0] is not self.root.args[0] or f.le(self.n0, x.args[2])
            if len(evs) > 1:
                yield "rendering", "the effect of rendering twice cannot be told", None
                return
            e = evs[0]
            if e.name == "failed":
                yield "failure", "a message that failed to render changes what the buffer holds", same
                yield "failure", "a failed message is reported as rendered", res == ["Err"] if res else None
                return
            x, w, src = e.args
            yield "success", "a rendered message is reported as failed", \
                None if not res else res == ["Ok"]
            yield "message", "the buffer does not gain exactly as many bytes as were rendered", f.eq(n, add(self.n0, w))
            yield "message", "the buffer does not gain the bytes that were rendered", \
                same_bytes(eng, st, arr, self.n0, src, I(0), w)

    def outcome(self, eng, o):
        v = o.val
        if v.op == "agg" and v.args[0] == RESULT:
            return {("Ok", "Err")[v.args[1]]}
        return set()


@check("T10")
def t10(ctx):
    """Abstract interpretation of the methods of the send buffer that other code calls, for any content, any input and any
    renderer, with linear facts about the number of bytes filled and a content-addressed view of the array. The methods
    are told apart by their signatures; the type is the one held in the connections' send queues."""
    b = Buf(ctx)
    F = ctx.facts()
    used = callers(F, b.q.bdef)
    todo = []
    for f in F.fns:
        d = f["def"]
        if not (d.startswith(b.q.bdef + "::") or d == "<%s as core::default::Default>::default" % b.q.bdef):
            continue
        if "{closure" in d or not F.insts[f["inst"]].get("body"):
            continue
        if d in used or d.startswith("<"):
            todo.append((d, f["inst"], b.kind(f)))
    kinds = [k for d, i, k in todo]
    b.lens = kinds.count("len")
    for d, i, k in sorted(todo):
        b.n, b.maybe = 0, []
        if k is None:
            ctx.undecided.append({"key": d, "what": "a method of the send buffer of unknown shape"})
        r = analyse(ctx, F, i, d.replace(b.q.bdef, "SendBuffer"), budget=60, merge=False, prep=b.prep, setup=b.setup,
                    fail=b.judge(d.replace(b.q.bdef, "SendBuffer"), k))
        bad = len(r.bad) if getattr(r, "bad", None) else 0
        for j in range(max(b.n - bad, 0)):
            ctx.obligations += 1
            ctx.discharged += 1
        for key, text in b.maybe:
            ctx.oblige(None, key, "%s: %s" % (d, text))
    for k in ("data", "fill", "render", "clear"):
        ctx.floor("methods of the send buffer of kind %s" % k, kinds.count(k), 1)
    # the fields are written by these methods only
    priv = [f["def"] for f in F.fns if f.get("inst") is not None and b.q.bdef not in f["def"] and writes_fields(F, f["inst"], b.ty)]
    for d in priv:
        ctx.undecided.append({"key": d, "what": "%s writes the fields of a send buffer directly" % d})
    ctx.assumptions.append("a renderer given the free part of the buffer writes only there (safe Rust) and reports at most the bytes it wrote")


def writes_fields(F, inst, ty):
    """does the function assign to a field of the type, or borrow one mutably?"""
    b = F.insts[inst].get("body")
    for blk in (b["blocks"] if b else ()):
        for x in blk["s"]:
            if x[0] != "=":
                continue
            pls = [x[1]]
            if x[2][0] == "ref" and x[2][1]:
                pls.append(x[2][2])
            for pl in pls:
                t = b["locals"][pl[0]]
                for e in pl[1]:
                    if e == "*":
                        t = F.types[t].get("e", (F.types[t].get("args") or [None])[0]) if t is not None else None
                    elif e[0] == "f":
                        if t == ty:
                            return True
                        t = e[2]
                    else:
                        t = None
    return False
