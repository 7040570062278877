"""Properties decided on the call graph and the type-checked items: G01, G02, K02"""
import re
from . import check
from .common import *
from .graph import Graph, rval_consts
from ..run import ToolError, facts_dir


@check("K02")
def k02(ctx):
    """Call graph of every local function, closure and coroutine body of the library and the example
    server (MIR, including drop glue, closures handed to library functions and calls through library
    bodies; a call of a trait method may reach every implementation in the crate unless it descends into
    a component of the caller's own type). The graph must have no cycle: then no stack depth depends on
    the input."""
    total = edges = 0
    for crate in ("vt6", "vt6_example_server"):
        F = ctx.facts(crate, "full")
        G = Graph(F)
        total += len(G.local)
        edges += sum(len(v) for v in G.edges.values())
        ctx.funcs |= {F.insts[i]["def"] for i in G.local}
        bad = G.sccs()
        ctx.obligations += len(G.local)
        ctx.discharged += len(G.local) - sum(len(c) for c in bad)
        for comp in bad:
            names = sorted({F.insts[i]["def"] for i in comp})
            sites = sorted({"%s -> %s at %s (%s)" % (F.insts[i]["def"], F.insts[e[0]]["def"], e[1], e[2])
                            for i in comp for e in G.edges[i] if e[0] in comp})
            ctx.violation("recursion: " + ", ".join(names), "recursive call cycle: " + "; ".join(sites[:6]),
                          cycle=sites)
    ctx.cov["call_edges"] = edges
    ctx.floor("functions", total, 200)


def norm_sig(s):
    s = re.sub(r"DefId\([^)]*\)", "", s)
    s = re.sub(r"bound_vars: \[.*", "", s)
    s = re.sub(r"\b(std|alloc)::", "core::", s)
    return re.sub(r"\s+", " ", s)


ALLOC = ("std", "alloc")


@check("G01")
def g01(ctx):
    """Type check of the library with default features disabled: it must build, the crate graph of that
    build must contain neither std nor alloc, and every public function of common::core that needs neither
    has the same signature as in the full build."""
    d, err = facts_dir("nostd")
    if d is None:
        ctx.facts("vt6", "full")     # a tool error if the crate does not build at all
        ctx.obligations += 1
        ctx.violation("no_std build", "the library does not build without default features: " + err[-600:])
        return
    N = ctx.facts("vt6", "nostd")
    F = ctx.facts("vt6", "full")
    for c in N.crates:
        ctx.oblige(c not in ALLOC, "links " + c, "with default features disabled the library links crate `%s`" % c)
    ctx.floor("crates in the no_std build", len(N.crates), 1)
    have = {f["def"]: f for f in N.fns}
    n = 0
    for f in F.fns:
        if not f.get("pub") or "::common::" not in f["def"] or f["kind"] != "fn":
            continue
        sig = norm_sig(f["sig"])
        if re.search(r"\b(Vec|String|Path|PathBuf|Box|OsStr|OsString|Owned\w+)\b", sig + f["def"]) \
                or re.search(r"core::io::|core::error::", sig + f["def"]):
            continue
        if f.get("trait") and re.search(r"error::Error", f["trait"]):
            continue
        g = have.get(f["def"])
        n += 1
        if g is None:
            ctx.oblige(False, "missing " + f["def"],
                       "%s needs neither std nor alloc but is missing with default features disabled" % f["def"])
        else:
            ctx.oblige(norm_sig(g["sig"]) == sig, "signature " + f["def"],
                       "%s has another signature with default features disabled: %s" % (f["def"], norm_sig(g["sig"])))
    ctx.funcs |= {f["def"] for f in N.fns}
    ctx.floor("public functions compared", n, 60)


COMPILER_MADE = ("core::fmt::Arguments::new", "core::pin::Pin::new_unchecked", "core::future::get_context",
                 "core::intrinsics::unreachable")


def unsafe_calls(F, inst):
    x = F.insts[inst]
    for b in [x["body"]] + list(x.get("promoted") or []):
        for bb in b["blocks"]:
            for s in bb["s"] + [bb["t"]]:
                for c in rval_consts(s):
                    if c.get("t") is None:
                        continue
                    t = F.types[c["t"]]
                    if t["k"] == "fndef" and t.get("unsafe"):
                        yield t, (bb["t"], bb["t"][5]) if bb["t"][0] == "call" else (None, None)


def raw_derefs(F, inst):
    """dereferences of raw pointers in the body (places)"""
    b = F.insts[inst]["body"]

    def places(x):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, list):
                if len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], list):
                    yield y
                st.extend(y)
    for bb in b["blocks"]:
        for s in bb["s"] + [bb["t"]]:
            for p in places(s):
                if p[0] < len(b["locals"]) and "*" in p[1]:
                    if p[1][0] == "*" and F.types[b["locals"][p[0]]]["k"] == "ptr":
                        yield p


@check("G02")
def g02(ctx):
    """Inventory of unsafe operations in the type-checked program (calls of unsafe functions, raw pointer
    dereferences, unsafe implementations, user-written unsafe blocks) against the two permitted ones. For
    every from_utf8_unchecked, an abstract interpretation of the function with quantified facts about
    buffer elements must show that every byte converted is an ASCII digit; from_raw_fd must be given the
    constant 60."""
    nblocks = ncalls = 0
    for crate in ("vt6", "vt6_example_server"):
        F = ctx.facts(crate, "full")
        user = {}
        for u in F.d["unsafe_blocks"]:
            if not u["expansion"]:
                user.setdefault(u["def"], []).append(u["span"])
                nblocks += 1
        for im in F.impls:
            if im.get("unsafe") and not im.get("derived") and not str(im.get("trait")).startswith("core::"):
                ctx.oblige(False, "unsafe impl " + str(im["trait"]), "unsafe impl of %s at %s" % (im["trait"], im["span"]))
        local = [i for i, x in enumerate(F.insts) if x.get("local") and "body" in x]
        ctx.funcs |= {F.insts[i]["def"] for i in local}
        todo = {}
        used = set()
        for i in local:
            d = F.insts[i]["def"]
            base = d
            while base not in user and base.endswith("}") and "::{" in base:
                base = base.rsplit("::{", 1)[0]
            for t, (call, span) in unsafe_calls(F, i):
                n = t.get("rdef") or t["def"]
                g = t["def"]
                ncalls += 1
                key = "%s in %s" % (g, d)
                if g in COMPILER_MADE and base not in user:
                    continue
                if g.endswith("from_utf8_unchecked") and "str" in g:
                    todo.setdefault(i, []).append(span)
                    used.add(base)
                elif g.endswith("FromRawFd::from_raw_fd"):
                    used.add(base)
                    arg = call[2][0] if call else None
                    ok = arg is not None and arg[0] == "k" and str(arg[1].get("v", arg[1].get("i", ""))) == "60"
                    if arg is not None and arg[0] == "k" and not ok:
                        ok = re.search(r"\b60(_i32)?\b", str(arg[1])) is not None
                    if arg is not None and arg[0] != "k":
                        ok = fd_arg(ctx, F, i, span)
                    ctx.oblige(ok, key, "from_raw_fd takes over something else than descriptor 60 at %s" % span)
                elif t.get("local"):
                    used.add(base)
                elif g in COMPILER_MADE:
                    continue
                else:
                    ctx.oblige(False, key, "unsafe operation: call of %s in %s at %s" % (n, d, span))
            if base in user:
                for p in raw_derefs(F, i):
                    ctx.oblige(False, "raw pointer in " + d, "raw pointer dereference in " + d)
        for i, spans in todo.items():
            converted_bytes(ctx, F, i, spans)
    ctx.cov["unsafe_blocks"] = nblocks
    ctx.cov["unsafe_calls"] = ncalls
    ctx.floor("unsafe operations examined", ncalls, 2)


def fd_arg(ctx, F, inst, span):
    eng = engine(F, 60)
    seen = []

    def hook(eng, st, c):
        seen.append(c.args[0])
        return None
    eng.anchors["<std::fs::File as std::os::fd::raw::FromRawFd>::from_raw_fd"] = hook
    try:
        eng.run_root(inst)
    except (Budget, Unsupported):
        return None
    if not seen:
        return None
    return all(x.op == "int" and x.args[0] == 60 for x in seen)


def converted_bytes(ctx, F, inst, spans):
    """bytes given to from_utf8_unchecked are ASCII, in every state in which the call is reached"""
    G = Graph(F)
    rev = {}
    for i in G.local:
        for e in G.edges[i]:
            rev.setdefault(e[0], set()).add(i)
    d0 = F.insts[inst]["def"]
    todo, seen = [inst], set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        d = F.insts[i]["def"]
        res = states_at(F, i, d0)
        if res is None:
            ctx.oblige(None, "unchecked " + d0, "analysis of %s gave no answer" % d)
            continue
        n, bad, sure = res
        if not bad:
            if n:
                ctx.oblige(True, "unchecked %s from %s" % (d0, d), "")
            continue
        callers = rev.get(i, ())
        f = G.fninfo.get(i) or {}
        if f.get("pub") and public_path(F, d) or not callers:
            ctx.oblige(False if sure else None, "unchecked " + d0,
                       "bytes that were not checked are treated as text in %s (%s), reached from %s: %s" % (
                           d0, ", ".join(str(s) for s in spans), d, bad[0]))
        else:
            todo.extend(callers)


def public_path(F, d):
    return True


def states_at(F, i, d0):
    """(events, bad events, confirmed without widening)"""
    out = None
    for n in (0, 3):
        eng = engine(F, 60)
        eng.merge = False
        eng.unroll = n or None
        ev = []
        from .. import models
        old = models.ascii_known

        def probe(eng2, st, v, old=old):
            r = old(eng2, st, v)
            if not eng2.quiet:
                ev.append((bool(r), not st.taint and (n > 0 or not any(
                    x.op == "lv" for e in list(st.fact.les) + list(st.fact.eqs) for x in subterms(e))), show(v)))
            return r
        models.ascii_known = probe
        try:
            eng.run_root(i)
        except (Budget, Unsupported):
            return out if n else None
        finally:
            models.ascii_known = old
        bad = [x for x in ev if not x[0]]
        sure = [x for x in bad if x[1]]
        if not bad:
            return (len(ev), [], True) if n == 0 else out
        if n == 0:
            out = (len(ev), [x[2] for x in bad], bool(sure))
            if sure:
                return out
        elif sure:
            return (out[0], [x[2] for x in sure], True)
    return out
