"""Human-readable forms: messages (I04) and identifiers (I02)"""
from . import check
from .common import *
from ..engine import some, NONE, slice_
from ..models import seq_eq, content, arr_of, select_u8, deref_val, const_bytes, restrict, ESC_PLAIN, ESC_SHORT
from ..run import ToolError
from ..terms import atoms_of, subterms, T

MSG = "vt6::common::core::msg::"
NEXT = "<%sMessageIterator as core::iter::traits::iterator::Iterator>::next" % MSG
SAFE = ((0x2d, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a))
UNSAFE = iv_minus(((0, 255),), SAFE)


class Args:
    """MessageIterator::next by its contract (W04): the arguments one after the other, up to `most` of them with up to
    `longest` bytes"""

    def __init__(self, most, longest, fixed=None):
        self.most, self.longest, self.fixed = most, longest, fixed

    def __call__(self, eng, st, c):
        n = sum(ev.kind == "arg" for ev in st.trace())
        if any(ev.kind == "args end" for ev in st.trace()):
            return [(st, NONE)]
        if self.fixed:
            root, ln = mk("argbytes", I(0)), I(self.longest)
            st.mem[root] = mk("bytes", bytes([self.fixed]) * self.longest)
            if n < self.most:
                st.emit(Ev("arg", "arg", (root, ln), None, c.span, c.frame.name))
                return [(st, some(slice_(root, (), I(0), ln)))]
        g = st.copy()
        g.emit(Ev("args end", "end", (), None, c.span, c.frame.name))
        res = [(g, NONE)]
        if n < self.most:
            g = st.copy()
            root = mk("argbytes", I(n))
            g.mem[root] = mk("cv", root)
            ln = mk("arglen", I(n), "usize")
            f = g.fact.add_le(sub(ln, I(self.longest))).add_le(sub(I(0), ln))
            g = g.with_fact(f)
            g.emit(Ev("arg", "arg", (root, ln), None, c.span, c.frame.name))
            res.append((g, some(slice_(root, (), I(0), ln))))
        return res


class Unclear(Exception):
    pass


def template(t):
    """the pieces of a format string as the compiler lays them out: bytes, or None for an argument"""
    i = 0
    while i < len(t) and t[i]:
        n = t[i]
        i += 1
        if n < 0x80:
            yield t[i:i + n]
            i += n
        elif n == 0x80:
            n = t[i] + 256 * t[i + 1]
            yield t[i + 2:i + 2 + n]
            i += 2 + n
        elif n == 0xC0:
            yield None
        else:
            raise Unclear("format options")


def pieces(eng, st, ev):
    """what an output event prints: numbers of characters, terms of bytes or characters, ("text", slice), ("display", type, value)"""
    x = ev.args[1]
    orig = ev.data["arg"] if ev.data else x
    if x.op == "agg" and x.args[0] == "fmtargs":
        t = x.args[2].args
        if t[0] is None:
            raise Unclear("format string")
        if t[1] == "from_str":
            yield from t[0]
            return
        rest = list((ev.data or {}).get("vals") or ())
        for p in template(t[0]):
            if p is not None:
                yield from p
                continue
            if not rest or rest[0][0] != "display" or rest[0][2] is None:
                raise Unclear("format arguments")
            yield from shown(eng, st, *rest.pop(0)[1:])
        return
    b = const_bytes(eng, st, orig) if orig.op == "slice" else None
    if b is not None:
        yield from b
    elif orig.op == "slice":
        yield ("text", x)
    elif x.op == "int":
        yield x.args[0]
    elif x.op == "slice":
        b = const_bytes(eng, st, x)
        if b is not None:
            yield from b
        else:
            yield ("text", x)
    else:
        yield x


def shown(eng, st, ty, p, v):
    """Display of the value v (of the given type, behind the pointer p)"""
    if p.op == "slice":
        b = const_bytes(eng, st, p)
        if b is not None:
            yield from b
        else:
            yield ("text", v)
        return
    t = eng.T[ty] if ty is not None else {}
    if v is not None and v.op == "agg" and v.args[0] == "it:esc" and all(x.op == "int" for x in v.args[3:]):
        for i in range(v.args[3].args[0], v.args[4].args[0]):
            yield v.args[2] if v.args[5] is I(1) else mk("escitem", v.args[2], I(i), "u8")
    elif v is not None and t.get("s") == "char":
        yield v.args[0] if v.op == "int" else v
    else:
        yield ("display", t.get("s"), v if v is not None else p)


def output(eng, st):
    for ev in st.trace():
        if ev.kind == "out":
            yield from pieces(eng, st, ev)


def esc(f, x, i):
    """the i-th character of an escaped byte, as a number where the byte is known"""
    lo, hi = f.bounds(x)
    if lo is not None and lo == hi:
        b = lo
        t = ({9: b"\\t", 10: b"\\n", 13: b"\\r"}.get(b) or (b"\\" + bytes([b]) if b in b"\"'\\" else
             bytes([b]) if 0x20 <= b <= 0x7e else b"\\x%02x" % b))
        return t[i]
    return mk("escitem", x, I(i), "u8")


def norm(f, x):
    if isinstance(x, (int, tuple)):
        return x
    if x.op == "escitem":
        return esc(f, x.args[0], x.args[1].args[0])
    lo, hi = f.bounds(x)
    return lo if lo is not None and lo == hi else x


def understood(x):
    return isinstance(x, int) or not isinstance(x, tuple) and (
        x.op == "escitem" and x.args[0].op == "sel" and x.args[0].args[0].op == "cv" or x.op == "sel" and x.args[0].op == "cv")


def judge(eng, o):
    """(answer, key, text) for one way through the printing of a message"""
    st = o.st
    args = [ev.args for ev in st.trace() if ev.kind == "arg"]
    try:
        out = [norm(st.fact, x) for x in output(eng, st)]
    except Unclear as x:
        return None, "output", "what is printed is not understood (%s)" % x
    if len(out) < 2 or out[0] != 0x28 or isinstance(out[1], int):
        return None, "output", "the beginning of the output is not understood"
    i = 2
    # facts are split until every byte is in one of the classes
    clear = all(understood(x) for x in out[2:])
    wrong = False if clear and not st.taint else None

    def take():
        nonlocal i
        i += 1
        return out[i - 1] if i <= len(out) else None
    for k, (root, ln) in enumerate(args):
        lo, hi = st.fact.bounds(ln)
        arr = st.mem[root]
        if lo is None or lo != hi:
            m = len(out) - i
            # every byte takes at least one character
            if hi is None or m < hi:
                return wrong, "escaped", "not every byte of an argument is printed"
            return None, "length", "the length of an argument is not understood"
        if take() != 0x20:
            return wrong, "separator", "an argument is not separated by a space"
        n = lo
        xs = [select_u8(eng, st, arr, I(j)) for j in range(n)]
        ivs = [((x.args[0],) * 2,) if x.op == "int" else st.fact.ivs(x) if x in st.fact.dom else ((0, 255),) for x in xs]
        quoted = i < len(out) and out[i] == 0x22
        if quoted:
            i += 1
            if n and all(iv_subset(iv, SAFE) for iv in ivs):
                return wrong, "quotes", "an argument is quoted that does not need it"
            if n and not any(not iv_inter(iv, SAFE) for iv in ivs):
                return wrong, "quotes", "whether an argument is quoted does not depend on all of its bytes"
        else:
            if n == 0:
                return wrong, "quotes", "an empty argument is not quoted"
            if any(not iv_subset(iv, SAFE) for iv in ivs):
                return wrong, "quotes", "an argument is printed without quotes although it needs them"
        for x, iv in zip(xs, ivs):
            if iv_subset(iv, ESC_PLAIN):
                want = [norm(st.fact, x)]
            elif iv_subset(iv, ESC_SHORT):
                want = [esc(st.fact, x, j) for j in range(2)]
            elif not iv_inter(iv, ESC_PLAIN + ESC_SHORT):
                want = [esc(st.fact, x, j) for j in range(4)]
            else:
                return wrong, "escaped", "a byte is printed in the same way whether it is escaped or not"
            for w in want:
                g = take()
                if g is not w and g != w:
                    return wrong, "escaped", "a byte of an argument is not printed in its escaped form, or not in order"
        if quoted and take() != 0x22:
            return wrong, "quotes", "the quotes around an argument are not balanced"
    if take() != 0x29 or i != len(out):
        return wrong, "end", "the message does not end after its arguments"
    return True, "", ""


def unconditional(t):
    """a fact about the contents of arguments seen or about the formatter, not about their number"""
    return all(a.op in ("fmtok", "arglen") or a.op == "sel" and a.args[0].op in ("cv", "bytes")
               for a in (atoms_of(t) if isinstance(t, T) else ()))


@check("I04")
def i04(ctx):
    """Abstract interpretation of Display for Message with the output as an event recorder and the arguments given by their
    elements (arbitrary bytes; up to two arguments of one byte or one of two bytes; longer arguments where a path does not
    depend on all their bytes), loops peeled. On every path the characters printed must be the escaped form of every byte,
    in order, in balanced quotes exactly if the facts of the path say that a byte is outside of the safe class or the
    argument is empty."""
    F = ctx.facts()
    root = F.fn("<%sMessage as core::fmt::Display>::fmt" % MSG)
    if root is None or F.fn(NEXT) is None:
        raise ToolError("Display for Message, or the iterator over its arguments, is missing")
    n = 0
    for most, longest, depth, fixed in ((0, 0, 1, None), (1, 2, 9, None), (2, 1, 5, None), (1, 1 << 40, 2, None),
                                        (1, 300, 400, 0x61), (1, 100, 500, 1), (40, 1, 60, 0x61)):
        e = engine(F, 150, anchors={NEXT: Args(most, longest, fixed)})
        e.merge = False
        e.unroll = depth
        try:
            outs = e.run_root(root["inst"])
        except (Budget, Unsupported) as x:
            ctx.oblige(None, "output", "no answer (%s)" % x)
            continue
        ctx.funcs |= {f for f in e.seen_fns if H not in f}
        for o in outs:
            if o.kind == "panic":
                ctx.oblige(None if o.st.taint else False, "panic", "printing a message panics: %s at %s" % (o.why, o.span))
            if o.kind == "unknown":
                ctx.oblige(None, "output", "unknown: %s" % (o.st.taint[-1:],))
            if o.kind != "ret" or not (o.val.op == "agg" and o.val.args[1] == 0):
                continue
            if not any(ev.kind == "args end" for ev in o.st.trace()):
                own = all(unconditional(a) for a in [*o.st.fact.dom, *o.st.fact.les, *o.st.fact.eqs])
                ctx.oblige(False if own and not o.st.taint else None, "arguments",
                           "printing ends before all arguments were seen")
                continue
            n += 1
            good, key, text = judge(e, o)
            ctx.oblige(good, key, text, **({} if good else {"facts": [x[:200] for x in show_facts(o.st.fact)][:30]}))
        if e.unmodelled:
            ctx.undecided.append({"key": "unmodelled", "what": str(dict(e.unmodelled))})
    ctx.floor("ways to print a message", n, 20)


def shown_text(ctx, F):
    """what an identifier displays: its text; a module version its module, a dot and the minor version"""
    n = 0
    for name in ("client_id", "identifier", "module_identifier", "scoped_identifier", "message_type", "module_version"):
        root = harness_fn(F, "i02_show_" + name)
        e = engine(F, 60)
        e.merge = False
        try:
            outs = e.run_root(root)
        except (Budget, Unsupported) as x:
            ctx.oblige(None, "display", "no answer (%s)" % x)
            continue
        ctx.funcs |= {f for f in e.seen_fns if H not in f}
        for o in outs:
            if o.kind == "panic":
                ctx.oblige(None if o.st.taint else False, "display: panic", "displaying a %s panics: %s at %s" % (name, o.why, o.span))
            if o.kind != "ret" or o.val.op != "agg" or o.val.args[2] is not TRUE and not o.st.fact.eq(o.val.args[2], I(1)):
                continue
            n += 1
            good, text = shows(e, o, name == "module_version")
            ctx.oblige(good, "display " + name, "%s: %s" % (name, text))
        if e.unmodelled:
            ctx.undecided.append({"key": "unmodelled", "what": str(dict(e.unmodelled))})
    ctx.floor("ways to display an identifier", n, 6)


def shows(eng, o, version):
    """does it display the text that was parsed (and nothing else)?"""
    st = o.st
    try:
        out = [norm(st.fact, x) for x in output(eng, st)]
    except Unclear as x:
        return None, "what is displayed is not understood (%s)" % x
    text, minor = content(eng, st, o.val.args[3]), eng.root_args[1]
    b = const_bytes(eng, st, o.val.args[3])
    want = [("text",)] if b is None else list(b)
    if version:
        want += [0x2e, ("number",)]
    module = [v for ev in st.trace() if ev.kind == "observe" for v in ev.args[-1:]]
    module = module[0] if module else None
    clear = not st.taint
    got = []
    for x in out:
        if isinstance(x, int):
            got.append(x)
            continue
        kind, v = ("number", x) if not isinstance(x, tuple) else (x[0] if x[0] == "text" else "number", x[-1])
        if v is None:
            return None, "what is displayed is not understood"
        if kind == "text":
            same = seq_eq(eng, st, v, text)
            if same is TRUE:
                got.append(("text",))
            elif same is FALSE:
                got.append(("other text",))
            else:
                clear = False
                got.append(("?",))
        elif v is module and version:
            got.append(("text",))
        elif v.op == "agg" and v.args[0].endswith("Identifier") and v.args[2].op == "slice" and \
                seq_eq(eng, st, content(eng, st, v.args[2]), text) is FALSE:
            got.append(("other text",))
        elif minor in subterms(v) and (x[1] if isinstance(x, tuple) else "u16") in ("u8", "u16", "u32", "usize", "u64"):
            got.append(("number",) if st.fact.eq(v, minor) else ("another number",))
        else:
            clear = False
            got.append(("?",))
    if got == want:
        return True, ""
    return False if clear else None, "does not display exactly its text (%s)" % ", ".join(
        repr(chr(x)) if isinstance(x, int) else x[0] for x in got)[:80]
