"""Identifiers: accepted languages, construction, derived client IDs"""
from . import check
from .common import *
from .. import lang
from ..lang import matches, assume, contradiction
from ..models import arr_of, content, seq_eq
from .graph import Graph, rval_consts
from ..run import ToolError

ID = "vt6::common::core::identifiers::"


def option(o):
    """(is_some, payload) of an outcome's value, None if it is not known"""
    v = o.val
    if v is None or v.op != "agg" or not str(v.args[0]).endswith("Option"):
        return None
    return (v.args[1] == 1, v.args[2] if v.args[1] == 1 else None)


def runs(ctx, F, inst, name, budget=60, depths=(2, 3, 5), **kw):
    """widened analysis, then peeled ones: yields (mode, engine, outcomes)"""
    eng = engine(F, budget, **kw)
    eng.merge = False
    try:
        outs = eng.run_root(inst)
    except (Budget, Unsupported) as e:
        ctx.oblige(None, name, "%s: no answer (%s)" % (name, e))
        return
    ctx.funcs |= {f for f in eng.seen_fns if H not in f}
    yield 0, eng, outs
    for n in depths:
        e2 = engine(F, budget, **kw)
        e2.merge = False
        e2.unroll = n
        try:
            yield n, e2, e2.run_root(inst)
        except (Budget, Unsupported):
            return


def decide(ctx, F, inst, name, judge, budget=60, depths=(2, 3, 5), **kw):
    """judge(eng, outcome) -> list of (key, text) of obligations that could not be discharged, plus the
    number of obligations. A failure in a state without widened or unknown parts is a violation; others
    must be confirmed with peeled loops."""
    first = None
    left = {}
    for mode, eng, outs in runs(ctx, F, inst, name, budget, depths, **kw):
        bad = {}
        n = 0
        for o in outs:
            if o.kind not in ("ret", "panic"):
                if o.kind == "unknown" and mode == 0:
                    ctx.undecided.append({"key": name, "what": "path cut short: %s" % (o.st.taint,)})
                continue
            k, fails = judge(eng, o)
            n += k
            for key, text in fails:
                bad.setdefault(key, []).append((text, o))
        if mode == 0:
            first = outs
            ctx.obligations += n
            ctx.discharged += n - sum(len(v) for v in bad.values())
            left = dict(bad)
        for key in list(left):
            for text, o in bad.get(key, ()):
                if not o.st.taint and (mode > 0 or not widened2(o)):
                    ctx.violation(key, text, state=[x[:300] for x in show_facts(o.st.fact)][:40])
                    del left[key]
                    break
        if not left:
            break
    for key, v in left.items():
        ctx.undecided.append({"key": key, "what": v[0][0] + " (not confirmed without widening)"})
    return first


def widened2(o):
    f = o.st.fact
    for e in list(f.les) + list(f.eqs) + list(f.dom):
        for x in subterms(e):
            if x.op == "lv":
                return True
    return False


def arg_array(eng, o, k=0):
    """(array, start, end) of the k-th root argument (a slice)"""
    fr = eng.root_args[k]
    return arr_of(eng, o.st, fr), fr.args[2], add(fr.args[2], fr.args[3])


def refuted(eng, o, arr, lo, hi, alt):
    """no string of the language can reach this outcome"""
    segs, numbers = alt
    f, bs = assume(o.st.fact, arr, lo, hi, segs)
    if contradiction(f, arr, bs, 4, segs):
        return True
    # a failed conversion of exactly one of the decimals means that it is out of range
    for ev in o.st.trace():
        if ev.kind == "parseint" and ev.data == "error":
            r = lang.utf8_range(ev.args[0], arr)
            if r is None:
                continue
            for a, b in numbers:
                g = [f]
                for x, y in ((r[0], bs[a]), (r[1], bs[b])):
                    g = [h for k in g for h in (k.add_le(sub(addc(x, 1), y)), k.add_le(sub(addc(y, 1), x))) if h] \
                        if not lang.same(f, x, y) else []
                    if any(not contradiction(h, arr, bs, 4, segs) for h in g):
                        break
                    g = [f]
                else:
                    return True
    return False


def judge_parse(name):
    alts = lang.LANGS[name]

    def judge(eng, o):
        if o.kind == "panic":
            return 1, [("%s::parse panics: %s" % (name, o.why), "%s at %s" % (o.why, o.span))]
        v = option(o)
        if v is None:
            return 1, [("%s::parse: result" % name, "result of %s::parse is not known" % name)]
        arr, lo, hi = arg_array(eng, o)
        if v[0]:
            for segs, numbers in alts:
                if matches(o.st.fact, arr, lo, hi, segs):
                    return 1, []
            return 1, [("%s accepts too much" % name, "%s::parse accepts a text that is not a valid %s" % (name, name))]
        for alt in alts:
            if not refuted(eng, o, arr, lo, hi, alt):
                return 1, [("%s rejects too much" % name, "%s::parse rejects a text that is a valid %s" % (name, name))]
        return 1, []
    return judge


@check("I01")
def i01(ctx):
    F = ctx.facts("vt6", "full")
    for name in ("ClientID", "Identifier", "ModuleIdentifier"):
        f = F.fn(ID + name + "::parse")
        if f is None:
            raise ToolError("%s::parse is missing" % name)
        decide(ctx, F, f["inst"], name, judge_parse(name))
    ctx.floor("parse outcomes judged", ctx.obligations, 20)


DEC = "vt6::common::core::decode_argument::DecodeArgument"


def judge_int(ty):
    alts = lang.SINT if ty.startswith("i") else lang.UINT

    def judge(eng, o):
        if o.kind == "panic":
            return 1, [("%s panics: %s" % (ty, o.why), "decoding a %s panics: %s at %s" % (ty, o.why, o.span))]
        v = option(o)
        if v is None:
            return 1, [(ty + ": result", "result of decoding a %s is not known" % ty)]
        arr, lo, hi = arg_array(eng, o)
        if v[0]:
            if not any(matches(o.st.fact, arr, lo, hi, segs) for segs, _ in alts):
                return 2, [("%s from a non-canonical form" % ty,
                            "a %s argument is decoded from a text that is not the canonical form of a number" % ty)]
            x = v[1]
            r = x is not None and x.op == "parseint" and lang.utf8_range(x.args[0], arr)
            if x is not None and x.op == "int" and arr_is(o.st.fact, arr, lo, hi, str(x.args[0]).encode()):
                return 2, []
            if not r or x.args[1] != ty or not lang.same(o.st.fact, r[0], lo) or not lang.same(o.st.fact, r[1], hi):
                return 2, [("%s value" % ty, "the value decoded for a %s is not the number that was written" % ty)]
            return 2, []
        for alt in alts:
            if not refuted(eng, o, arr, lo, hi, alt):
                return 1, [("%s rejects canonical form" % ty,
                            "a %s argument in canonical form and within the range is not decoded" % ty)]
        return 1, []
    return judge


def arr_is(f, arr, lo, hi, b):
    return bool(matches(f, arr, lo, hi, lang.text(b)))


@check("W10")
def w10(ctx):
    """Abstract interpretation of DecodeArgument for every integer type on an arbitrary byte string: in each
    outcome that yields a value, the quantified facts about the bytes must imply the canonical grammar and the
    value must be the standard conversion of all the bytes; in each outcome that yields none, these facts
    together with the grammar must be contradictory (or the conversion was out of range). The same for the
    version numbers of module identifiers and module versions."""
    F = ctx.facts("vt6", "full")
    n = 0
    for ty in INTS:
        f = F.fn("<%s as %s>::decode_argument" % (ty, DEC))
        if f is None:
            raise ToolError("no DecodeArgument for " + ty)
        decide(ctx, F, f["inst"], ty, judge_int(ty))
        n += 1
    for name in ("ModuleIdentifier", "ModuleVersion"):
        decide(ctx, F, F.fn(ID + name + "::parse")["inst"], name, judge_parse(name), depths=(2, 3))
    ctx.floor("integer types", n, 12)


TYPES = ("ClientID", "OwnedClientID", "Identifier", "ModuleIdentifier", "ModuleVersion", "ScopedIdentifier")


def constructs(F, i, names):
    b = F.insts[i]["body"]
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and F.types[s[2][2][0]]["def"] in names:
                return True
            if "ctor" in str(s):
                for c in rval_consts(s):
                    t = F.types[c["t"]] if c.get("t") is not None else None
                    if t and t["k"] == "fndef" and t.get("rk") == "ctor" and t.get("adt") in names:
                        return True
        t = bb["t"]
        for c in rval_consts(t):
            ty = F.types[c["t"]] if c.get("t") is not None else None
            if ty and ty["k"] == "fndef" and ty.get("rk") == "ctor" and ty.get("adt") in names:
                return True
    return False


def from_identifier(F, eng, body, v, names):
    """is this text exactly the text of an identifier that was given?"""
    if v.op not in ("slice", "strof", "fld", "val"):
        return False
    if v.op == "slice" and not (v.args[2].op == "int" and v.args[2].args[0] == 0 and v.args[3].op == "len"):
        return False
    for x in subterms(v):
        if x.op == "sym" and len(x.args) >= 2 and x.args[0] == "arg" and isinstance(x.args[1], int):
            t = F.types[body["locals"][x.args[1]]]
            while t["k"] in ("ref", "ptr"):
                t = F.types[t["e"]]
            if t.get("def") in names:
                return True
    return False


def judge_construct(ctx, F, inst, names):
    """(n, unproven [(text, sure)])"""
    body = F.insts[inst]["body"]
    res = None
    for mode in (0, 2, 4):
        eng = engine(F, 60)
        eng.merge = False
        eng.unroll = mode or None
        seen = {}

        def hook(e, st, d, variant, ops, fr):
            if d not in names or e.quiet:
                return
            nm = d.rsplit("::", 1)[-1]
            v = ops[0]
            if nm == "ModuleVersion":
                return          # consists of a module identifier and a number
            segs = lang.LANGS["ClientID" if nm == "OwnedClientID" else nm]
            good = from_identifier(F, e, body, v, names)
            x = v
            if x.op == "strof":
                x = x.args[0]
            if not good and x.op == "slice":
                arr = arr_of(e, st, x)
                if x.args[0].op == "cv":
                    arr = x.args[0].args[0]
                good = any(matches(st.fact, arr, x.args[2], add(x.args[2], x.args[3]), sg) for sg, _ in segs)
            wid = any(y.op == "lv" for t in list(st.fact.les) + list(st.fact.eqs) + list(st.fact.dom) + [v] for y in subterms(t))
            sure = not st.taint and v.op in ("slice", "strof") and (mode > 0 or not wid)
            k = (d, fr.name)
            a = seen.setdefault(k, [0, 0, 0])
            a[0] += 1
            if not good:
                a[1] += 1
                if sure:
                    a[2] += 1
        eng.hooks["construct"] = hook
        try:
            eng.run_root(inst)
        except (Budget, Unsupported):
            return res
        if mode == 0:
            res = seen
            if not any(a[1] for a in seen.values()) or any(a[2] for a in seen.values()):
                return res
        else:
            for k, a in seen.items():
                if a[2] and k in res:
                    res[k][2] += a[2]
            if any(a[2] for a in res.values()):
                return res
    return res


def lift(ctx, F, start, judge):
    """judge functions, moving to their callers while something is not proven"""
    G = Graph(F)
    rev = {}
    for i in G.local:
        for e in G.edges[i]:
            rev.setdefault(e[0], set()).add(i)
    todo, seen = list(start), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        d = F.insts[i]["def"]
        r = judge(i)
        if r is None:
            ctx.oblige(None, d, "no answer for " + d)
            continue
        f = G.fninfo.get(i) or {}
        callers = [c for c in rev.get(i, ()) if c != i]
        top = f.get("pub") or f.get("trait") or not callers
        for k, (n, bad, sure) in r.items():
            if not bad:
                ctx.oblige(True, "%s from %s" % (k, d), "")
            elif top:
                ctx.oblige(False if sure else None, "%s made in %s" % k,
                           "a %s that was not validated can be made in %s (called from %s)" % (k[0], k[1], d))
            else:
                todo.extend(callers)


@check("I02")
def i02(ctx):
    """Every construction of an identifier value (MIR aggregates and constructors, fields being private) is
    analysed in its function, or in all callers up to public functions: the facts about the bytes must imply
    the grammar of the type, or the text must be that of an identifier that was given. A client of the public
    API shows that the text and the parts of every parsed identifier are those of the parsed text."""
    F = ctx.facts("vt6", "harness")
    names = {ID + n for n in TYPES}
    for n in sorted(names):
        a = F.adts.get(n)
        if a is None:
            if n.endswith("OwnedClientID"):
                continue
            raise ToolError("type %s is missing" % n)
        for v in a["v"]:
            for fname, pub in v["f"]:
                ctx.oblige(not pub, "public field of " + n, "field %s of %s is public: any text can be stored" % (fname, n))
    start = [i for i, x in enumerate(F.insts) if x.get("local") and "body" in x and constructs(F, i, names)]
    ctx.floor("functions that construct identifiers", len(start), 6)
    ctx.funcs |= {F.insts[i]["def"] for i in start}
    lift(ctx, F, start, lambda i: judge_construct(ctx, F, i, names))
    from .display import shown_text
    shown_text(ctx, F)
    for n in ("i02_client_id", "i02_identifier", "i02_module_identifier", "i02_module_version",
              "i02_scoped_identifier", "i02_message_type", "i02_owned"):
        analyse(ctx, F, harness_fn(F, n), n, merge=False)
        numbers(ctx, F, harness_fn(F, n), n)
    version_text(ctx, F)


def version_text(ctx, F):
    """a module version is encoded as the text of the module, a dot and the minor version"""
    from .wire import Walk

    def fail(eng, outs):
        n = 0
        for o in outs:
            if o.kind == "panic":
                yield ("encoded version: %s in %s" % (o.why, where(o)), "%s (%s) at %s" % (o.why, where(o), o.span), o)
            if o.kind != "ret" or o.val.op != "slice":
                continue
            n += 1
            st, a = o.st, eng.root_args
            w = Walk(eng, st, arr_of(eng, st, a[2]), a[2].args[2])
            text = content(eng, st, o.val)
            w.piece(o.val.args[3], lambda c: seq_eq(eng, st, c, text) is TRUE, "the module")
            w.byte(0x2e, "'.' after the module")
            w.number(a[1], "the minor version")
            if not st.fact.eq(w.p, add(a[2].args[2], a[2].args[3])):
                w.bad = w.bad or "nothing else expected after the minor version"
            if w.bad:
                yield ("encoded version: " + w.bad, "a module version is not encoded as module, dot and minor version: " + w.bad, o)
        ctx.floor("outcomes of encoding a module version", n, 1)
        ctx.obligations += 4
        ctx.discharged += 4
    analyse(ctx, F, harness_fn(F, "i02_encoded_version"), "i02_encoded_version", merge=False, fail=fail, anchors=encode_contract(F))


def numbers(ctx, F, inst, name):
    """the version numbers are the numbers in the text"""
    def judge(eng, o):
        bad = []
        n = 0
        for ev in o.st.trace():
            if ev.kind == "observe" and ev.name in ("major", "minor", "major2"):
                n += 1
                v = ev.args[0]
                text, at, num = v.args[2], v.args[3], v.args[4]
                arr = arr_of(eng, o.st, text)
                r = num.op == "parseint" and lang.utf8_range(num.args[0], arr)
                if num.op == "int" and matches(o.st.fact, arr, add(text.args[2], at), add(text.args[2], text.args[3]),
                                               lang.text(str(num.args[0]).encode())):
                    continue
                if not r or not lang.same(o.st.fact, r[0], add(text.args[2], at)) or \
                        not lang.same(o.st.fact, r[1], add(text.args[2], text.args[3])):
                    bad.append(("%s: version number" % name, "a version number is not the number in the text (%s)" % name))
        return n, bad
    decide(ctx, F, inst, name, judge)
