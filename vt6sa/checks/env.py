"""What a client learns about its environment (G03)"""
from . import check
from .common import *
from ..engine import ok, err, some, NONE, agg
from ..models import arr_of, deref_val
from ..run import ToolError
from .wire import Walk

MSG = "vt6::common::core::msg::"
PARSE = MSG + "Message::parse"
HELLO = "vt6::msg::posix::ParentHello"
EBADF, EINVAL = 9, 22


def message_parse(eng, st, c):
    """Message::parse by its contract (W02): a message, an incomplete message or another syntax error"""
    x = c.args[0]
    if x.op != "slice":
        return None
    okt, errt = (v[0] for v in eng.T[c.dty]["v"])
    adt, kinds = eng.F.adts.get(MSG + "ParseError"), eng.F.adts.get(MSG + "ParseErrorKind")
    if adt is None or kinds is None or eng.T[errt].get("def") != MSG + "ParseError":
        return None
    fields, kinds = [f[0] for f in adt["v"][0]["f"]], {v["name"]: v["d"] for v in kinds["v"]}
    if "kind" not in fields or "UnexpectedEOF" not in kinds:
        raise ToolError("ParseError is not what it was")
    st.n += 1
    n = st.n
    res = []
    text = (arr_of(eng, st, x), x.args[2], x.args[3])
    for what in ("message", "incomplete", "wrong"):
        g = st.copy()
        if what == "message":
            v = eng.mksym(g, okt, "parsed", I(n))
            g.emit(Ev("parse", what, text, v, c.span, c.frame.name))
            res.append((g, ok(v)))
            continue
        e = eng.mksym(g, errt, "parseerror", I(n))
        k = fields.index("kind")
        kty = eng.T[errt]["v"][0][k]
        d = eng.discr_of(g, eng.proj(g, e, mk("pf", 0, k, kty)), kty)
        eof = sub(d, I(kinds["UnexpectedEOF"]))
        f = g.fact.add_eq(eof) if what == "incomplete" else g.fact.add_ne(eof)
        if f is not None:
            g.fact = f
            g.emit(Ev("parse", what, text, e, c.span, c.frame.name))
            res.append((g, err(e)))
    return res


def file_read(eng, st, c):
    """one read: some bytes at the beginning of the buffer, or an error"""
    s = c.args[1]
    f = deref_val(eng, st, c.args[0])
    if s.op != "slice" or f is None:
        return None
    st.n += 1
    n = mk("sym", "read", I(st.n), "usize")
    src = mk("cv", mk("filedata", I(st.n)))
    g, h = st.copy(), st.copy()
    res = []
    fa = g.fact.add_le(sub(n, s.args[3]))
    if fa is not None:
        g.fact = fa
        eng.store(g, s.args[0], s.args[1], mk("copyrng", eng.load(g, s.args[0], s.args[1]), s.args[2], n, src, I(0)))
        g.emit(Ev("read", "ok", (f, s, n, src), n, c.span, c.frame.name))
        res.append((g, ok(n)))
    e = mk("sym", "ioerr", I(st.n), "")
    h.emit(Ev("read", "error", (f, s, e), e, c.span, c.frame.name))
    return res + [(h, err(e))]


def decode(eng, st, c):
    m = deref_val(eng, st, c.args[0])
    t = eng.T[c.dty]
    g = st.copy()
    st.emit(Ev("decode", "no", (m,), None, c.span, c.frame.name))
    v = eng.mksym(g, t["v"][1][0], "hello", I(g.n))
    g.emit(Ev("decode", "yes", (m,), v, c.span, c.frame.name))
    return [(st, NONE), (g, some(v))]


def holds_file(eng, ty, depth=0):
    t = eng.T[ty]
    if t.get("def") in ("std::fs::File", "std::os::fd::owned::OwnedFd"):
        return True
    kids = [a for a in t.get("args") or () if isinstance(a, int)] + [f for v in t.get("v") or () for f in v] + \
        (list(t.get("f") or ()) if t["k"] in ("tuple", "closure") else [])
    return depth < 4 and any(holds_file(eng, k, depth + 1) for k in kids if isinstance(k, int) and 0 <= k < len(eng.T))


def dropped(eng, fr, st, p, ty, span):
    if ty is not None and holds_file(eng, ty) and eng.load(st, p.args[0], p.args[1], ty).op not in ("moved", "uninit"):
        st.emit(Ev("close", "close", (p,), None, span, fr.name))
    return None


def whole(eng, st, ev, reads):
    """is the text that was parsed exactly the bytes of all reads so far, in order?"""
    arr, start, ln = ev.args
    w = Walk(eng, st.copy(), arr, start)
    total = I(0)
    for r in reads:
        n, src = r.args[2], r.args[3]
        total = add(total, n)
        if st.fact.eq(n, I(0)):
            continue
        w.piece(n, lambda c: c.op == "slice" and c.args[0] is mk("cv", src) and st.fact.eq(c.args[2], I(0)), "")
    return not w.bad and bool(st.fact.eq(ln, total))


def judge(eng, o):
    """the rules broken on one way through the discovery: (key, text)"""
    st, f = o.st, o.st.fact
    tr = [ev for ev in st.trace() if ev.kind in ("lib", "read", "parse", "decode", "close", "observe")]
    opens = [ev for ev in tr if ev.kind == "lib"]
    if len(opens) != 1 or opens[0].args[0] is not I(60):
        yield "descriptor", "the discovery uses another descriptor than 60"
    reads, parses, closed = [], [], 0
    code = o.val.args[0] if o.val.op == "int" else None
    for ev in tr:
        if ev.kind == "close":
            closed += 1
        elif ev.kind == "read":
            if closed or ev.args[0] is not mk("file", I(60)):
                yield "descriptor", "something else is read than the open descriptor 60"
            if reads:
                last = reads[-1]
                if last.name == "error":
                    yield "error", "the discovery goes on after an error"
                    return
                after = [p for p, k in parses if k == len(reads)]
                if not after or after[-1].name != "incomplete" or not whole(eng, st, after[-1], reads):
                    yield "reading on", "the discovery reads on although what it has is not known to be incomplete"
                if len(reads) > 1 and not f.le(I(1), last.args[2]):
                    yield "end of file", "the discovery reads on after the end of the file"
                if len(reads) > 1 and f.eq(reads[0].args[2], I(0)) and f.eq(last.args[2], I(0)):
                    yield "end of file", "the discovery reads on after the end of the file"
            reads.append(ev)
        elif ev.kind == "parse":
            parses.append((ev, len(reads)))
    if closed != 1:
        yield "closed", "descriptor 60 is not closed" if not closed else "descriptor 60 is closed more than once"
    if not reads:
        yield "reads", "nothing is read from descriptor 60"
        return
    last = reads[-1]
    if last.name == "error":
        e = last.args[2]
        has, no = mk("hasos", e, "bool"), mk("oserr", e, "i32")
        missing = f.decide(has) is True and iv_subset(f.ivs(no), ((EBADF, EBADF), (EINVAL, EINVAL)))
        other = f.decide(has) is False or not iv_inter(f.ivs(no), ((EBADF, EBADF), (EINVAL, EINVAL)))
        if code == 1 and not missing:
            yield "error", "an I/O error is reported as if there was no terminal"
        if code == 0:
            if len(reads) == 1 and not other:
                yield "error", "a missing descriptor is reported as an I/O error"
            obs = [ev for ev in tr if ev.kind == "observe"]
            if not obs or obs[-1].args[-1] is not e:
                yield "error", "another error is reported than the one that occurred"
        if code not in (0, 1):
            yield "error", "an I/O error is ignored"
        return
    if code in (0, 1):
        yield "result", "an error is reported although reading succeeded"
        return
    after = [p for p, k in parses if k == len(reads)]
    if not after:
        yield "result", "the result does not depend on what was read"
        return
    final = after[-1]
    if not whole(eng, st, final, reads):
        yield "bytes", "what is parsed in the end are not exactly the bytes that were read, in order"
    cap = add(reads[0].args[1].args[2], reads[0].args[1].args[3])
    total = I(0)
    for r in reads:
        total = add(total, r.args[2])
    if not f.eq(last.args[2], I(0)) and not f.le(cap, total) and not any(
            p.name != "incomplete" and whole(eng, st, p, reads) for p in after[:-1]):
        yield "too early", "the discovery stops reading before the message is complete, the file ends or the buffer is full"
    dec = [ev for ev in tr if ev.kind == "decode"]
    if final.name == "message":
        if not dec or dec[-1].args[0] is not message_of(eng, st, final):
            yield "result", "what is decoded is not the message that was read"
        elif code != (4 if dec[-1].name == "yes" else 3):
            yield "result", "the result is not what the message says"
        if code == 4 and dec:
            obs = [ev for ev in tr if ev.kind == "observe"]
            if not obs or obs[-1].args[-1] is not path_of(eng, st, dec[-1].res):
                yield "result", "another path is reported than the one in the message"
    elif code != 2:
        yield "result", "a syntax error is not reported as one"


def message_of(eng, st, ev):
    return mk("fld", ev.res, 0, 0, "")


def path_of(eng, st, v):
    """the path in a decoded message"""
    ty = next(i for i, t in enumerate(eng.T) if t.get("def") == HELLO and t.get("v"))
    k = [f[0] for f in eng.F.adts[HELLO]["v"][0]["f"]].index("server_socket_path")
    return eng.proj(st, v, mk("pf", 0, k, eng.T[ty]["v"][0][k]))


@check("G03")
def g03(ctx):
    """Abstract interpretation of Environment::discover followed by parse(), with every possible result of the reads from
    the descriptor and of Message::parse (by its contract), for histories of up to four reads; the bytes given to the
    parser are read back from the array terms and must be the bytes of all reads so far, in order. Once more with the
    loop widened: it does not panic for any history."""
    F = ctx.facts(config="harness")
    if HELLO not in F.adts or "server_socket_path" not in str(F.adts[HELLO]):
        raise ToolError("the parent-hello message is not what it was")
    root = harness_fn(F, "env::g03_discover")
    name = "<%s as %straits::DecodeMessage>::decode_message" % (HELLO, MSG)
    anchors = {PARSE: message_parse, name: decode, "<std::fs::File as alloc::io::read::Read>::read": file_read,
               "<std::fs::File as std::io::Read>::read": file_read}
    n, codes = 0, set()
    for depth in (4, None):
        e = engine(F, 100, anchors=anchors)
        e.hooks = dict(e.hooks or {}, drop=dropped)
        e.merge = False
        e.unroll = depth
        try:
            outs = e.run_root(root)
        except (Budget, Unsupported) as x:
            ctx.oblige(None, "discover", "no answer (%s)" % x)
            continue
        ctx.funcs |= {f for f in e.seen_fns if H not in f}
        for o in outs:
            if o.kind == "panic":
                ctx.oblige(None if o.st.taint or widened(o) else False, "panic: " + o.why, "discovery can panic: %s at %s" % (o.why, o.span))
            elif depth is None:
                ctx.oblige(True, "", "")
            if o.kind != "ret" or depth is None:
                continue
            n += 1
            codes.add(o.val.args[0])
            bad = list(judge(e, o))
            ctx.oblige(True if not bad else None if o.st.taint else False, bad[0][0] if bad else "", bad[0][1] if bad else "",
                       **({"facts": [x[:200] for x in show_facts(o.st.fact)][:30],
                           "history": ["%s %s" % (ev.kind, ev.name) for ev in o.st.trace()][:40]} if bad else {}))
        if e.unmodelled:
            ctx.undecided.append({"key": "unmodelled", "what": str(dict(e.unmodelled))})
    ctx.floor("ways through the discovery", n, 20)
    ctx.floor("results", len(codes), 5)
