"""Typed messages: what they announce, encode and decode (W07, W08)"""
from . import check
from .common import *
from .. import lang
from ..dom import iv_inter, iv_union
from ..engine import agg, some, NONE, ok, err, slice_, ptr, UNIT
from ..models import content
from ..run import ToolError
from .server import ask, ref_to, possible, same_value, payload
from .handlers import Text

MSG = "vt6::common::core::msg::"
FMT = MSG + "format::MessageFormatter::"
ENCODE = " as " + MSG + "traits::EncodeMessage>::encode"
DECODE = " as " + MSG + "traits::DecodeMessage>::decode_message"
ITER = "<" + MSG + "MessageIterator as core::iter::traits::"
UNKNOWN_BOOL = ("contains", "eqv", "has", "hasbyte", "ptreq", "sliceeq", "opaque", "uni", "env", "ret")
DECARG = "vt6::common::core::decode_argument::DecodeArgument::decode_argument"


def short(T, ty):
    """the type of an argument, without references: str, [u8], Option<str>, ClientID, ..."""
    t = T[ty]
    while t["k"] in ("ref", "ptr"):
        t = T[t["e"]]
    if t.get("def") == "core::option::Option":
        return "Option<%s>" % short(T, t["v"][1][0])
    return (t.get("def") or t["s"]).split("::")[-1]


# ---------------------------------------------------------------- encoding
def f_new(eng, st, c):
    v = eng.mksym(st, c.dty, "formatter", c.site, st.n)
    st.emit(Ev("fnew", "new", (c.args[0], content(eng, st, c.args[1]), c.args[2]), v, c.span, c.frame.name))
    return [(st, v)]


def f_add(eng, st, c):
    f = c.args[0]
    who = eng.load(st, f.args[0], f.args[1]) if f.op == "ptr" else f
    a = c.args[1]
    ty = eng.T[c.atys[1]]["e"]
    v = a
    n = 0
    while v.op == "ptr" and n < 5:
        v = eng.load(st, v.args[0], v.args[1], ty)
        if eng.T[ty]["k"] not in ("ref", "ptr"):
            break
        ty = eng.T[ty]["e"]
        n += 1
    st.emit(Ev("fadd", short(eng.T, c.atys[1]), (who, v), None, c.span, c.frame.name))
    return [(st, UNIT)]


def f_fin(eng, st, c):
    who = c.args[0]
    out = []
    t = eng.T[c.dty]
    s = st.copy()
    v = ok(eng.mksym(s, t["v"][0][0], "rendered", who, st.n))
    s.emit(Ev("ffin", "finalize", (who,), v, c.span, c.frame.name))
    out.append((s, v))
    v = err(eng.mksym(st, t["v"][1][0], "missing", who, st.n))
    st.emit(Ev("ffin", "finalize", (who,), v, c.span, c.frame.name))
    out.append((st, v))
    return out


FORMATTER = {FMT + "new": f_new, FMT + "add_argument": f_add, FMT + "finalize": f_fin}


def impls(F, suffix):
    """type -> instance"""
    out = {}
    for f in F.fns:
        if f["def"].endswith(suffix) and f["def"].startswith("<"):
            out[f["def"][1:-len(suffix)]] = f["inst"]
    return out


def encodings(ctx, F, name, inst, keep):
    """runs an implementation of EncodeMessage::encode; yields (engine, outcome, its formatter events)"""
    e = engine(F, 60, anchors=FORMATTER)
    e.merge = False
    e.unroll = 3
    try:
        outs = e.run_root(inst)
    except (Budget, Unsupported) as x:
        ctx.oblige(None, name, "no answer (%s)" % x)
        return
    ctx.funcs |= {f for f in e.seen_fns if H not in f}
    for o in outs:
        if o.kind in keep:
            yield e, o, [x for x in o.st.trace() if x.kind in ("fnew", "fadd", "ffin")]
        elif o.kind not in ("ret", "panic"):
            ctx.undecided.append({"key": name, "what": "a path of encode could not be followed to its end (%s)" % o.kind})


@check("W08")
def w08(ctx):
    """Abstract interpretation of every implementation of EncodeMessage for arbitrary values and buffers, with the message
    formatter as an event recorder: on every path exactly one message is started, with a constant item count, exactly
    that many arguments are added to it, then it is finished, and that result is returned; nothing panics."""
    for cfg in ("harness", "nostd"):
        encoders(ctx, ctx.facts("vt6", cfg))


def encoders(ctx, F):
    ms = impls(F, ENCODE)
    ctx.floor("implementations of EncodeMessage", len(ms), 8)
    for name, inst in sorted(ms.items()):
        n = 0
        for e, o, evs in encodings(ctx, F, name, inst, ("ret", "panic")):
            unsure = bool(o.st.taint)

            def rule(good, key, text):
                ctx.oblige(None if unsure and not good else good, "%s: %s" % (name, key), "%s: %s" % (name, text))
            if o.kind == "panic":
                rule(False, "panic: " + o.why, "encode panics (%s) at %s" % (o.why, o.span))
                continue
            n += 1
            new = [x for x in evs if x.kind == "fnew"]
            fin = [x for x in evs if x.kind == "ffin"]
            add_ = [x for x in evs if x.kind == "fadd"]
            rule(len(new) == 1, "messages started", "%d messages are started instead of one" % len(new))
            if len(new) != 1:
                continue
            f = new[0].res
            rule(e.root_args[1] is new[0].args[0], "buffer", "the message is not rendered into the buffer given")
            mine = [x for x in add_ if x.args[0] is f]
            known = len(mine) == len(add_)
            rule(o.st.fact.eq(new[0].args[2], I(len(mine))) or (None if not known else False), "number of arguments",
                 "announces %s arguments but adds %d" % (show(new[0].args[2]), len(mine)))
            done = [x for x in fin if x.args[0] is f]
            rule(len(done) == 1 and len(fin) == 1 or (None if not known else False), "finished",
                 "the message is finished %d times" % len(fin))
            if done:
                rule(all(evs.index(x) < evs.index(done[0]) for x in mine), "order", "an argument is added after the end")
                rule(returns(e, o, done[0]), "result", "the result of encode is not the rendered size")
        ctx.floor("complete paths of %s::encode" % name, n, 2)


def returns(e, o, ev):
    """does the value returned say the same as the result of finalize?"""
    a, b = o.val, ev.res
    return a is b or a.op == b.op == "agg" and a.args[:2] == b.args[:2] and \
        (a.args[2:] == b.args[2:] or len(a.args) == 3 and a.args[1] == 0 and o.st.fact.eq(a.args[2], b.args[2]))


def show(t):
    return str(t.args[0]) if t.op == "int" else "an unknown number of"


# ---------------------------------------------------------------- decoding
def origin(v):
    """the value that an iterator is a (field by field) copy of"""
    if v.op == "agg" and len(v.args) > 2:
        b = None
        for i, x in enumerate(v.args[2:]):
            x = origin(x)
            if x.op == "fld" and x.args[1] == 0 and x.args[2] == i:
                p = x.args[0]
            elif x.op == "slice" and x.args[0].op in ("ref", "fldref", "fld", "deref"):
                p = x.args[0]
                while p.op != "fld" and p.args and hasattr(p.args[0], "op"):
                    p = p.args[0]
                p = p.args[0] if p.op == "fld" and p.args[2] == i else None
            else:
                return v
            if p is None or b is not None and p is not b:
                return v
            b = p
        return b
    return v


class Decoder:
    """decode_message with an abstract message: its type, the number and contents of its arguments are unknown"""

    def __init__(self, ctx, F, name, inst):
        self.ctx, self.F, self.name, self.inst = ctx, F, name, inst

    def anchors(self):
        return {ITER + "iterator::Iterator>::next": self.next, DECARG: self.decode}

    def count(self, eng, st, v):
        """how many arguments an iterator will still yield (as its len() says): [(number, state)]"""
        n = ITER + "exact_size::ExactSizeIterator>::len"
        s = st.copy()
        s.mem = dict(s.mem)
        r = ref_to(eng, s, v, self.ity, "iter")
        out = []
        for x, s2 in ask(eng, s, n, [r]):
            if x is None:
                raise Unsupported("length of an iterator")
            out.append((x, st.with_fact(s2.fact)))
        return out

    def next(self, eng, st, c):
        r = c.args[0]
        if r.op != "ptr":
            return None
        self.ity = eng.T[c.atys[0]]["e"]
        v = eng.load(st, r.args[0], r.args[1], self.ity)
        o = origin(v)
        if o.op == "sym" and o.args[0] == "iterator":
            base, k = o.args[1:3]
        else:
            base, k = o, 0
        out = []
        for n, s in self.count(eng, st, v):
            for empty, s2 in eng.branch(s, eq0(n)):
                if empty:
                    out.append((s2, NONE))
                    continue
                w = eng.mksym(s2, self.ity, "iterator", base, k + 1)
                eng.store(s2, r.args[0], r.args[1], w)
                for m, s3 in self.count(eng, s2, w):
                    f = s3.fact.add_eq(sub(m, addc(n, -1)))
                    if f is None:
                        continue
                    s3.fact = f
                    a = mk("argument", base, k)
                    s3.emit(Ev("arg", "next", (base, k), a, c.span, c.frame.name))
                    out.append((s3, some(slice_(a, (), I(0), mk("arglen", base, k, "usize")))))
        return out

    def decode(self, eng, st, c):
        x = content(eng, st, c.args[0])
        ty = eng.T[c.dty]["v"][1][0]
        T = short(eng.T, ty)
        if T == "[u8]":
            return [(st, some(c.args[0]))]
        known = st.aux.get(("decarg", T, x))
        out = []
        if known is not False:
            s = st.copy()
            s.setaux(("decarg", T, x), True)
            v = eng.mksym(s, ty, "decarg", T, x)
            s.emit(Ev("decarg", T, (x, c.args[0]), v, c.span, c.frame.name))
            out.append((s, some(v)))
        if known is not True:
            st.setaux(("decarg", T, x), False)
            st.emit(Ev("decarg", T, (x, c.args[0]), NONE, c.span, c.frame.name))
            out.append((st, NONE))
        return out

    def run(self):
        e = engine(self.F, 60, anchors=self.anchors())
        e.merge = False
        e.unroll = 3

        def prep(eng, st, args):
            self.msg = args[0]
            self.mem = dict(st.mem)
        self.eng = e
        try:
            outs = e.run_root(self.inst, prep=prep)
        except (Budget, Unsupported) as x:
            self.ctx.oblige(None, self.name, "no answer (%s)" % x)
            return []
        self.ctx.funcs |= {f for f in e.seen_fns if H not in f}
        return outs

    def text(self, st):
        """the message type on a path: Text"""
        e, F = self.eng, self.F
        s = st.copy()
        s.mem = dict(self.mem)
        ty = F.insts[F.fn(MSG + "Message::parsed_type")["inst"]]["body"]["locals"][0]
        alts = []
        for v, s2 in ask(e, s, MSG + "Message::parsed_type", [self.msg]):
            if v is None:
                continue
            s2.mem = dict(s2.mem)
            r = ref_to(e, s2, v, ty, "mt")
            for t, s3 in ask(e, s2, "vt6::common::core::identifiers::MessageType::as_str", [r]):
                if t is not None:
                    alts.append((t, s3, possible(e, s3, v, ty)))
        x = Text.__new__(Text)
        x.eng = e
        x.alts = [(t, s) for t, s, _ in alts]
        x.var = {id(s): p for _, s, p in alts}
        x.keep = alts
        return x

    def type_is(self, st, name):
        x = self.text(st)
        want = {"want": "Want", "have": "Have", "nope": "Nope"}.get(name, "Scoped")
        res = {x.is_(name, lambda s, a=a: s is a) for _, a in x.alts if want in x.var[id(a)]}
        if [a for _, a in x.alts if x.var[id(a)] - {want}]:
            res.add(False)
        if not res:
            return False
        return res.pop() if len(res) == 1 else None

    def type_shown(self, st, name):
        """True: shown to be of that type; False: may be of another; None: the facts about the type are not all understood"""
        r = self.type_is(st, name)
        if r is not None:
            return r
        for t, s, _ in self.text(st).keep:
            if t.op != "slice":
                return None
            mine = {t.args[0], content(self.eng, s, t)}
            facts = s.fact
            atoms = set(facts.dom)
            for e in list(facts.les) + list(facts.eqs) + list(facts.neqs):
                atoms |= set(subterms(e))
            for k in atoms:
                if k.op in UNKNOWN_BOOL and any(x in mine for x in subterms(k)):
                    return None
        return False

    def arguments(self, st):
        """the number of arguments of the message: (number, iterator)"""
        s = st.copy()
        s.mem = dict(self.mem)
        f = self.F.fn(MSG + "Message::arguments")
        self.ity = self.F.insts[f["inst"]]["body"]["locals"][0]
        for v, s2 in ask(self.eng, s, f["def"], [self.msg]):
            if v is not None:
                for n, s3 in self.count(self.eng, s2, v):
                    return n, origin(v)
        raise ToolError("the arguments of a message are not known")


def disjoint(a, b):
    """can no text be both?"""
    x, y = lang.LANGS.get(a), lang.LANGS.get(b)
    if not x or not y:
        return False

    def apart(p, q):
        chars = ()
        for segs, _ in q:
            for cl, lo, hi in segs:
                chars = iv_union(chars, cl)
        return all(any(lo and not iv_inter(cl, chars) for cl, lo, hi in segs) for segs, _ in p)
    return apart(x, y) or apart(y, x)


def fields(F, ty):
    """[(variant index, name, [field types])]"""
    t = F.types[ty]
    a = F.adts.get(t["def"])
    return [(i, v["name"], t["v"][i]) for i, v in enumerate(a["v"])]


def same_arg(eng, st, a, b):
    if a is b:
        return True
    if a.op == "slice" and b.op == "slice":
        return content(eng, st, a) is content(eng, st, b)
    return False


@check("W07")
def w07(ctx):
    """Abstract interpretation of encode_message and decode_message of every typed message, the formatter and the decoding
    of arguments as event recorders. Encoding gives, per variant, the type name and the list of (argument type, field).
    Decoding an arbitrary message must, on every path that succeeds, have established that type name and that number of
    arguments, and must put the value decoded, with the same argument type, from argument k into the field that was
    encoded as argument k. A path that fails must have established another type name, another number of arguments, or that
    an argument does not decode. An argument that is encoded as one kind of identifier is known not to decode as another
    when their languages (I01) are disjoint."""
    for cfg in ("harness", "nostd"):
        pairs(ctx, ctx.facts("vt6", cfg))


def pairs(ctx, F):
    enc, dec = impls(F, ENCODE), impls(F, DECODE)
    both = sorted(set(enc) & set(dec))
    ctx.floor("types that implement both EncodeMessage and DecodeMessage", len(both), 8)
    for name in both:
        forms = encoded_forms(ctx, F, name, enc[name])
        if forms:
            decoding(ctx, F, name, dec[name], forms)


def encoded_forms(ctx, F, name, inst):
    """variant -> (type name, [(argument type, field)])"""
    body = F.insts[inst]["body"]
    sty = F.types[body["locals"][1]]["e"]
    forms = {}
    vs = fields(F, sty)
    sure = True
    for e, o, evs in encodings(ctx, F, name, inst, ("ret",)):
        st = o.st
        me = e.root_args[0]
        v = e.load(st, me.args[0], me.args[1], sty)
        poss = possible(e, st, v, sty)
        new = [x for x in evs if x.kind == "fnew"]
        if len(new) != 1 or o.st.taint:
            sure = False
            continue
        c = new[0].args[1]
        nm = c.args[0].decode() if c.op == "bytes" else None
        if nm is None and c.op == "slice" and c.args[0].op == "const":
            nm = c.args[0].args[0].decode()
        args = []
        for x in evs:
            if x.kind != "fadd" or x.args[0] is not new[0].res:
                continue
            hit = []
            for i, vn, fs in vs:
                if vn in poss:
                    for k, fty in enumerate(fs):
                        y = e.proj(st, v, mk("pf", i, k, fty))
                        if same_arg(e, st, x.args[1], y):
                            hit.append(k)
            args.append((x.name, hit[0] if len(hit) == 1 else None))
        for i, vn, fs in vs:
            if vn in poss:
                forms.setdefault(vn, set()).add((nm, tuple(args)))
    out = {}
    for i, vn, fs in vs:
        fm = forms.get(vn, set())
        if len(fm) != 1:
            ctx.oblige(None if not sure or not fm else False, "%s: form of %s" % (name, vn),
                       "%s is encoded in %d different forms" % (name, len(fm)))
            continue
        nm, args = next(iter(fm))
        idx = [k for _, k in args]
        unknown = any(k is None for k in idx)
        ctx.oblige(sorted(k for k in idx if k is not None) == list(range(len(fs))) or (None if unknown else False),
                   "%s: fields of %s" % (name, vn), "%s: not every field is encoded exactly once" % name)
        if nm is None or unknown:
            ctx.oblige(None, "%s: form of %s" % (name, vn), "the encoded form of %s is not known" % name)
            continue
        out[vn] = (nm, args)
    return out


def decoding(ctx, F, name, inst, forms):
    d = Decoder(ctx, F, name, inst)
    outs = d.run()
    body = F.insts[inst]["body"]
    rty = body["locals"][0]
    sty = F.types[rty]["v"][1][0]
    vs = fields(F, sty)
    success = {vn: 0 for vn in forms}
    for o in outs:
        if o.kind not in ("ret", "panic"):
            ctx.undecided.append({"key": name, "what": "a path of decode_message could not be followed to its end (%s)" % o.kind})
            continue
        st, e = o.st, d.eng

        def rule(good, key, text):
            ctx.oblige(None if st.taint and not good else good, "%s: %s" % (name, key), "%s: %s" % (name, text))
        if o.kind == "panic":
            rule(False, "panic: " + o.why, "decode_message panics (%s) at %s" % (o.why, o.span))
            continue
        n, base = d.arguments(st)
        decs = [x for x in st.trace() if x.kind == "decarg"]
        poss = possible(e, st, o.val, rty)
        if len(poss) != 1:
            rule(None, "result", "the result of decode_message is not known")
            continue
        for vn, (tname, args) in sorted(forms.items()):
            is_type = d.type_is(st, tname)
            same_n = st.fact.decide(eq0(sub(n, I(len(args)))))
            # can this path be taken by the encoded form of this variant?
            fits = True
            for x in decs:
                k = argument(x.args[0], base)
                if k is None or k >= len(args):
                    continue
                if x.name == args[k][0]:
                    fits = fits and x.res is not NONE
                elif x.res is not NONE and disjoint(x.name, args[k][0]):
                    fits = False
                elif x.res is NONE and x.name in ("str",) and args[k][0] in lang.LANGS:
                    fits = False
            for x, d_ in st.fact.dom.items():
                if x.op == "utf8" and d_ == ((0, 0),):
                    k = argument(x, base)
                    if k is not None and k < len(args) and (args[k][0] == "str" or args[k][0] in lang.LANGS):
                        fits = False
            if poss == {"None"}:
                if fits and is_type is not False and same_n is not False:
                    # something else was refused, or it was not looked at
                    other = [x for x in decs if x.res is NONE]
                    rule(None if other or is_type is None or same_n is None and decs else False, "refused",
                         "a message of type %s with %d arguments is refused although all of them decode" % (tname, len(args)))
                else:
                    rule(True, "refused", "")
        if poss == {"Some"}:
            v = e.proj(st, o.val, mk("pf", 1, 0, sty))
            pv = possible(e, st, v, sty)
            if len(pv) != 1 or not pv <= set(forms):
                rule(None, "variant", "the variant that is decoded is not known")
                continue
            vn = pv.pop()
            tname, args = forms[vn]
            i, fs = [(i, fs) for i, x, fs in vs if x == vn][0]
            is_type = d.type_shown(st, tname)
            rule(is_type, "type name", "a message is decoded whose type is not known to be %s" % tname)
            rule(st.fact.eq(n, I(len(args))), "argument count", "a message is decoded that may have another number of arguments than %d" % len(args))
            for k, (T, j) in enumerate(args):
                fv = e.proj(st, v, mk("pf", i, j, fs[j]))
                good, what = decoded_from(e, st, fv, fs[j], T, base, k)
                rule(good, "field %d of %s" % (j, vn), what)
            success[vn] += 1
            # a message encoded from another variant must not take this path
            for un, (uname, uargs) in forms.items():
                if un == vn or uname != tname or len(uargs) != len(args):
                    continue
                fits = True
                for x in decs:
                    k = argument(x.args[0], base)
                    if k is None or k >= len(uargs):
                        continue
                    if x.name == uargs[k][0]:
                        fits = fits and x.res is not NONE
                    elif x.res is not NONE and disjoint(x.name, uargs[k][0]):
                        fits = False
                rule(not fits, "variant %s" % un, "what was encoded as %s may be decoded as %s" % (un, vn))
    for vn, k in success.items():
        ctx.oblige(k > 0 or (None if any(o.st.taint for o in outs) or not outs else False), "%s: %s" % (name, vn),
                   "%s: no message is ever decoded as %s" % (name, vn))


def argument(x, base):
    """the number of the argument that these bytes are"""
    for s in subterms(x):
        if s.op == "argument" and s.args[0] is base:
            return s.args[1]
    return None


def decoded_from(e, st, v, ty, T, base, k):
    """(verdict, text): is the value what argument k decodes to, as a T?"""
    src = {(x.args[1] if x.op == "sym" else None, argument(x, base)) for x in subterms(v)
           if x.op == "sym" and x.args[0] == "decarg" or x.op == "argument"}
    typed = {s for s in src if s[0] is not None}
    if typed:
        if len(typed) > 1:
            return None, "the origin of a field is not known"
        t, j = typed.pop()
        if j != k:
            return False, "the field encoded as argument %d is decoded from argument %s" % (k + 1, j + 1 if j is not None else "?")
        if t != T:
            return None, "argument %d is encoded as %s and decoded as %s" % (k + 1, T, t)
        w = e.mksym(st.copy(), ty, "decarg", T, [x.args[2] for x in subterms(v) if x.op == "sym" and x.args[0] == "decarg"][0])
        if v is w or same_value(e, st, v, w, ty):
            return True, ""
        return None, "what becomes of argument %d is not known" % (k + 1)
    if src:
        j = src.pop()[1]
        if j != k:
            return False, "the field encoded as argument %d is decoded from argument %s" % (k + 1, j + 1)
        if v.op == "slice" and T in ("str", "[u8]", "Path") and st.fact.eq(v.args[2], I(0)):
            x = content(e, st, v)
            if st.fact.eq(v.args[3], mk("arglen", base, k, "usize")):
                return True, ""
        return None, "what becomes of argument %d is not known" % (k + 1)
    return False, "the field encoded as argument %d is not decoded from it" % (k + 1)
