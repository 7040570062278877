"""Shared parts of the checks that use the abstract interpreter."""
import time
from ..engine import Engine, Budget, Ev, UNIT, Out, Unsupported, imprecise
from ..terms import *
from ..dom import show_facts
from ..models import M, content

H = "::vt6_harness::"


def lit(eng, st, v):
    """a string literal argument"""
    if v.op == "slice" and v.args[0].op == "const":
        return v.args[0].args[0].decode()
    c = content(eng, st, v)
    if c.op == "bytes":
        return c.args[0].decode()
    return str(c)


def h_check(eng, st, c):
    name = lit(eng, st, c.args[0])
    key = (c.frame.name, c.span, "check: " + name)
    if not eng.quiet:
        eng.obl_total[key] = eng.obl_total.get(key, 0) + 1
    out = []
    for truth, s in eng.branch(st, c.args[1]):
        if truth:
            out.append((s, UNIT))
        else:
            if not eng.quiet:
                eng.obl_failed[key] = eng.obl_failed.get(key, 0) + 1
            out.append(Out("panic", s, why="check: " + name, span=c.span, stack=s.frames))
    return out


def h_any(eng, st, c):
    st.emit(Ev("any", c.name, (), None, c.span, c.frame.name))
    return [(st, eng.mksym(st, c.dty, "any", c.site, st.n))]


def h_observe(eng, st, c):
    st.emit(Ev("observe", lit(eng, st, c.args[0]), (c.args[1],), None, c.span, c.frame.name))
    return [(st, UNIT)]


def anchors(F, extra=None):
    p = F.crate + H
    a = {p + "check": h_check, p + "any": h_any, p + "observe": h_observe,
         p + "assume": h_assume}
    a.update(extra or {})
    return a


def engine(F, budget=120, **kw):
    extra = kw.pop("anchors", None)
    return Engine(F, M, anchors=anchors(F, extra), max_time=budget, **kw)


def harness_fn(F, name):
    from ..run import ToolError
    f = F.fn(F.crate + H + name) or F.fn(F.crate + H + "server_entries::" + name)
    if f is None:
        raise ToolError("analysis entry point %s is missing" % name)
    return f["inst"]


def where(o):
    st = [f[0] for f in (o.stack or ()) if f[2]]
    return st[-1] if st else "?"


def widened(o):
    """does the state at this outcome depend on a widened loop or merge, or on arithmetic that is not exact?"""
    for e in list(o.st.fact.les) + list(o.st.fact.eqs):
        for x in subterms(e):
            if x.op in ("lv", "bit", "mul"):
                return True
    return any(x.op in ("bit", "mul") for k in o.st.fact.dom for x in subterms(k))


def made_up(o):
    """does the state at this outcome depend on a loop whose invariant is not known to be exact?"""
    f = o.st.fact
    return any(imprecise(x) for e in list(f.les) + list(f.eqs) + list(f.dom) for x in subterms(e))


class Result:
    pass


def analyse(ctx, F, inst, name, budget=120, fail=None, unroll=(1, 2, 3), unroll_budget=90, merge=True, prep=None, setup=None, confirm=None, **kw):
    """Run the interpreter on an entry point.  `fail(eng, outs)` yields (key, text, outcome) for broken
    obligations; by default these are the feasible panics (among them failed checks).

    A failure found in a state that depends on a widened loop is reported only if it is confirmed
    with the loops peeled; otherwise it counts as undecided.  `confirm`: other contracts to try this with first."""
    def panics(eng, outs):
        for o in outs:
            if o.kind == "panic":
                yield ("%s: %s in %s" % (name, o.why, where(o)), "%s (%s) at %s" % (o.why, where(o), o.span), o)
    fail = fail or panics
    r = Result()
    r.outs, r.eng = [], None
    eng = engine(F, budget, **kw)
    eng.merge = merge
    if setup:
        setup(eng)
    r.eng = eng
    t0 = time.time()
    try:
        outs = eng.run_root(inst, prep=prep)
    except Budget:
        ctx.oblige(None, name, "%s: analysis budget exceeded" % name)
        r.budget = True
        return r
    except Unsupported as e:
        ctx.oblige(None, name, "%s: unsupported: %s" % (name, e))
        return r
    r.outs = outs
    ctx.funcs |= {f for f in eng.seen_fns if H not in f}
    bad = {}
    seen = {}
    for key, text, o in fail(eng, outs):
        bad.setdefault(key, []).append((text, o))
    for k in eng.obl_total:
        seen.setdefault("%s: %s in %s" % (name, k[2], k[0]), k)
    ctx.obligations += len(eng.obl_total)
    ctx.discharged += len(eng.obl_total) - len(eng.obl_failed)
    for o in outs:
        if o.kind == "unknown" or (o.st.taint and o.kind != "panic"):
            pass
    unk = [o for o in outs if o.kind == "unknown"]
    if unk:
        ctx.undecided.append({"key": name, "what": "paths cut short: %s" % sorted({str(o.st.taint[-1]) for o in unk})[:5]})
    if eng.unmodelled:
        ctx.undecided.append({"key": name, "what": "unmodelled: %s" % dict(eng.unmodelled)})
    r.bad = bad
    if bad:
        sure = {}
        for key, lst in bad.items():
            for text, o in lst:
                if not o.st.taint and not widened(o):
                    sure[key] = (text, o)
                    break
        rest = [k for k in bad if k not in sure]
        if rest:
            rounds = [(n, False, kw) for n in unroll] + [(1, True, kw)] * bool(unroll)
            if confirm:
                rounds[:0] = [(1, False, confirm), (2, False, confirm), (1, True, confirm)]
            for n, acc, kw2 in rounds:
                e2 = engine(F, 40 if acc else unroll_budget, **kw2)
                e2.merge = False
                e2.unroll, e2.accelerate = n, acc
                if setup:
                    setup(e2)
                try:
                    outs2 = e2.run_root(inst, prep=prep)
                except (Budget, Unsupported):
                    if kw2 is confirm:
                        continue
                    break
                for key, text, o in fail(e2, outs2):
                    if key in rest and key not in sure and not o.st.taint and not made_up(o):
                        sure[key] = (text, o)
                if all(k in sure for k in rest):
                    break
        for key, lst in bad.items():
            if key in sure:
                text, o = sure[key]
                ctx.violation(key, text, path=[f[0] for f in (o.stack or ())],
                              state=[x[:300] for x in show_facts(o.st.fact)][:40])
            else:
                ctx.undecided.append({"key": key, "what": lst[0][0] + " (not confirmed without widening)"})
    r.wall = time.time() - t0
    return r


def h_assume(eng, st, c):
    return [(s, UNIT) for s in eng.assume(st, c.args[0])]


EA = "::common::core::encode_argument::EncodeArgument"
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def arg_identity(eng, st, c):
    """what is encoded: the number, or the object behind the reference"""
    v = c.args[0]
    ty = eng.T[c.atys[0]].get("e") if c.atys[0] is not None else None
    if v.op == "ptr":
        x = eng.load(st, v.args[0], v.args[1], ty)
        return x
    return v


def contract_get_size(eng, st, c):
    """an announced size: the same for the same value, between 1 and 40 for integers"""
    if c.name != c.gname and not any(c.name.startswith("<%s as " % t) for t in INTS):
        return None
    x = arg_identity(eng, st, c)
    if c.name != c.gname:
        if x.op == "int":
            return [(st, I(len(str(x.args[0]))))]
        a = mk("encsize", x, "usize")
        f = st.fact._setdom(a, ((1, 40),))
        if f is None:
            return []
        # one digit more at most per power of ten (only the first steps matter to anyone)
        st.fact = f
        return [(st, a)]
    return [(st, mk("encsize", x, "usize"))]


def contract_encode(eng, st, c):
    """fills a buffer of exactly the announced size with the encoding"""
    if c.name != c.gname and not any(c.name.startswith("<%s as " % t) for t in INTS):
        return None
    x = arg_identity(eng, st, c)
    d = c.args[1]
    size = I(len(str(x.args[0]))) if x.op == "int" and c.name != c.gname else mk("encsize", x, "usize")
    outs = []
    key = (c.frame.name, c.span, "encode into exactly the announced size")
    if not eng.quiet:
        eng.obl_total[key] = eng.obl_total.get(key, 0) + 1
    for truth, s in eng.branch(st, eq0(sub(d.args[3], size))):
        if truth:
            old = eng.load(s, d.args[0], d.args[1])
            if x.op == "int" and c.name != c.gname:
                src = mk("bytes", str(x.args[0]).encode())
            else:
                src = mk("encoded", x)
            eng.store(s, d.args[0], d.args[1], mk("copyrng", old, d.args[2], d.args[3], src, I(0)))
            s.emit(Ev("copy", "encode", (d, src), None, c.span, c.frame.name))
            outs.append(Out("ret", s, UNIT))
        else:
            outs.append(eng.panic(s, c.frame, "encode into a buffer of another than the announced size", c.span))
    return outs


def encode_contract(F):
    p = "vt6" + EA
    a = {p + "::get_size": contract_get_size, p + "::encode": contract_encode}
    return a


def writes_of(st, v, base):
    """the writes that lead from array term `base` to `v`, oldest first: (start, length, source, source start);
    None if the history is not a plain sequence of writes"""
    out = []
    while v is not base:
        if v.op == "store":
            out.append((v.args[1], I(1), v.args[2], None))
            v = v.args[0]
        elif v.op == "copyrng":
            out.append((v.args[1], v.args[2], v.args[3], v.args[4]))
            v = v.args[0]
        else:
            return None
    out.reverse()
    return out
