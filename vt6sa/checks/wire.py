"""Wire format: parsing and formatting of messages"""
from . import check
from .common import *
from ..models import arr_of, select_u8, content, seq_eq
from ..engine import slice_
from ..run import ToolError


@check("W01")
def w01(ctx):
    """Abstract interpretation of Message::parse and MessageIterator for an arbitrary buffer."""
    F = ctx.facts()
    from .parse import MTYPE, mtype_parse
    analyse(ctx, F, harness_fn(F, "w01_parse"), "parse", confirm={"anchors": {MTYPE: mtype_parse}})


def decode_contract(F):
    """DecodeArgument of an unknown type: the same result for the same bytes"""
    def f(eng, st, c):
        if c.name != c.gname:
            return None
        x = content(eng, st, c.args[0])
        ok = mk("decodes", x, "bool")
        out = []
        for truth, s in eng.branch(st, eq0(addc(ok, -1))):
            if truth:
                out.append((s, mk("agg", "core::option::Option", 1, mk("decoded", x))))
            else:
                out.append((s, mk("agg", "core::option::Option", 0)))
        return out
    return {"vt6::common::core::decode_argument::DecodeArgument::decode_argument": f}


@check("W05")
def w05(ctx):
    """Abstract interpretation of a most general client of MessageFormatter (arbitrary buffer, any number of
    arguments of any type) with linear facts: writes stay in bounds, size and missing bytes are exact. Argument
    types are represented by the contract that W09 establishes."""
    F = ctx.facts()
    analyse(ctx, F, harness_fn(F, "w05_format"), "format", anchors=encode_contract(F))


@check("W11")
def w11(ctx):
    """Abstract interpretation of encoding into a buffer of the announced size and of decoding, for arbitrary
    values and bytes, against the documented encodings (the inner type of an optional value is unknown)."""
    F = ctx.facts()
    for n in ("w11_bool", "w11_bool_decode", "w11_bytes", "w11_str", "w11_str_decode", "w11_path"):
        analyse(ctx, F, harness_fn(F, n), n, merge=False)
    analyse(ctx, F, harness_fn(F, "w11_option"), "w11_option", merge=False, anchors=encode_contract(F))
    r = analyse(ctx, F, harness_fn(F, "w11_option_decode"), "w11_option_decode", merge=False, anchors=decode_contract(F))
    for o in r.outs:
        for ev in o.st.trace():
            if ev.kind == "observe":
                a, b = ev.args[0].args[2], ev.args[0].args[3]
                ctx.oblige(a.op == "agg" and a.args[1] == 1 and a.args[2] is b, "optional value",
                           "a present value is not what the inner type decodes")


class Walk:
    """reads a rendered message from a buffer, piece by piece"""

    def __init__(self, eng, st, arr, start):
        self.eng, self.st, self.arr, self.p = eng, st, arr, start
        self.bad = None

    def byte(self, b, what):
        x = select_u8(self.eng, self.st, self.arr, self.p)
        if not self.st.fact.eq(x, I(b)):
            self.bad = self.bad or "%s expected" % what
        self.p = addc(self.p, 1)

    def piece(self, ln, is_it, what):
        s = slice_(mk("name", "walk"), (), self.p, ln)
        old = self.st.mem.get(mk("name", "walk"))
        self.st.mem[mk("name", "walk")] = self.arr
        c = content(self.eng, self.st, s)
        if not is_it(c):
            self.bad = self.bad or "%s expected" % what
        self.p = add(self.p, ln)

    def number(self, x, what):
        if x.op == "int":
            b = str(x.args[0]).encode()
            for i in b:
                self.byte(i, what)
            return
        src = mk("encoded", x)
        self.piece(mk("encsize", x, "usize"),
                   lambda c: c.op == "slice" and c.args[0].op == "cv" and c.args[0].args[0] is src
                   and self.st.fact.eq(c.args[2], I(0)), what)


@check("W06")
def w06(ctx):
    """Abstract interpretation of the formatter for messages without and with arguments of arbitrary types
    (array terms record every write): in every outcome that reports success, the bytes of the buffer are
    read back symbolically and must be the framing that W02 requires of the parser."""
    F = ctx.facts()
    for name, nargs in (("w06_format0", 0), ("w06_format2", 2)):
        def fail(eng, outs, name=name, nargs=nargs):
            n = 0
            for o in outs:
                if o.kind == "panic":
                    yield ("%s: %s in %s" % (name, o.why, where(o)), "%s (%s) at %s" % (o.why, where(o), o.span), o)
                if o.kind != "ret" or o.val.op != "agg" or o.val.args[1] != 0:
                    continue
                n += 1
                a = eng.root_args
                st = o.st
                w = header(eng, st, a, I(1 + nargs))
                for k in range(nargs):
                    x = arg_of(eng, st, a[2 + k])
                    size = mk("encsize", x, "usize")
                    w.number(size, "length of argument %d" % k)
                    w.byte(0x3a, "':' after the length")
                    src = mk("encoded", x)
                    w.piece(size, lambda c, src=src: c.op == "slice" and c.args[0].op == "cv" and c.args[0].args[0] is src
                            and st.fact.eq(c.args[2], I(0)), "argument %d" % k)
                    w.byte(0x2c, "',' after argument %d" % k)
                w.byte(0x7d, "'}'")
                if not st.fact.eq(w.p, add(o.val.args[2], a[0].args[2])):
                    w.bad = w.bad or "end of the message expected at the reported size"
                if w.bad:
                    yield ("%s: %s" % (name, w.bad), "rendered message is not framed correctly: " + w.bad, o)
            if not n:
                raise ToolError("no successful outcome of %s" % name)
            ctx.obligations += 3 + 4 * nargs
            ctx.discharged += 3 + 4 * nargs
        analyse(ctx, F, harness_fn(F, name), name, merge=False, fail=fail, anchors=encode_contract(F))


    def begins(eng, outs):
        n = 0
        for o in outs:
            if o.kind == "panic":
                yield ("header: %s in %s" % (o.why, where(o)), "%s (%s) at %s" % (o.why, where(o), o.span), o)
            if o.kind != "ret":
                continue
            a = eng.root_args
            items, ln = addc(a[2], 1), a[1].args[3]
            fits = add(add(add(mk("encsize", items, "usize"), mk("encsize", ln, "usize")), ln), I(4))
            f = o.st.fact.add_le(sub(fits, a[0].args[3]))
            f = f and f.add_le(sub(fits, I(1024)))
            if f is None:
                continue
            n += 1
            w = header(eng, o.st.with_fact(f), a, items)
            if w.bad:
                yield ("header: " + w.bad, "a message does not begin correctly: " + w.bad, Out("ret", o.st.with_fact(f), o.val))
        ctx.floor("outcomes in which the beginning of a message fits", n, 1)
        ctx.obligations += 4
        ctx.discharged += 4
    analyse(ctx, F, harness_fn(F, "w06_header"), "w06_header", merge=False, fail=begins, anchors=encode_contract(F))
    for name, given in (("w06_none", 0), ("w06_one", 1)):
        def count(eng, outs, name=name, given=given):
            n = 0
            for o in outs:
                if o.kind == "ret":
                    n += 1
                    if not (o.val.op == "agg" and o.val.args[1] == 1) and not o.st.fact.eq(eng.root_args[2], I(given)):
                        yield ("%s: wrong count" % name, "a message is rendered with %d arguments although another number was announced" % given, o)
            ctx.floor("outcomes of " + name, n, 1)
            ctx.obligations += n - len(eng.obl_failed)       # that it refuses to is right
            ctx.discharged += n
        analyse(ctx, F, harness_fn(F, name), name, merge=False, fail=count, anchors=encode_contract(F))


def header(eng, st, a, items):
    """reads the beginning of a message, up to its type"""
    w = Walk(eng, st, arr_of(eng, st, a[0]), a[0].args[2])
    w.byte(0x7b, "'{'")
    w.number(items, "number of items, including the message type")
    w.byte(0x7c, "'|'")
    nm = content(eng, st, a[1])
    w.number(a[1].args[3], "length of the message type")
    w.byte(0x3a, "':' after the length")
    w.piece(a[1].args[3], lambda c: seq_eq(eng, st, c, nm) is TRUE, "the message type")
    w.byte(0x2c, "',' after the message type")
    return w


def arg_of(eng, st, v):
    """the object an argument reference stands for, as named by the encoding contract"""
    if v.op == "ptr":
        return eng.load(st, v.args[0], v.args[1], None)
    return v
