"""Checks of the Tokio dispatch: locks, teardown, I/O jobs, broadcasts, send queues."""
from . import check
from .common import *
from .server import (need, variants, ty_of, possible, payload, at, ConnView, Piece, pieces, ask, CONN, CS, NOTIFY, NOTIF)
from .graph import Graph
from ..models import map_entry_root, map_place
from ..engine import agg, some, NONE, ok, err, slice_, ptr, UNIT, St, Out
from ..run import ToolError
from ..terms import subterms

MOD = "vt6::server::tokio"
IMPL = " as vt6::server::dispatch::Dispatch>::"
INCOMING = CONN + "::handle_incoming"
POOL_T = CONN
TX_T = "tokio::sync::notify::Notify"


def havoced(eng, st, c):
    """a call into code that is judged by other properties: anything reachable mutably may change"""
    res = eng.mksym(st, c.dty, "env", c.site, st.n)
    st.emit(Ev("env", c.name, tuple(c.args), res, c.span, c.frame.name,
               data={"atys": c.atys, "self": c.selfty, "targs": c.targs, "site": c.site, "held": st.aux.get("held", ())},
               mem=dict(st.mem) if eng.snap else None))
    for a, t in zip(c.args, c.atys):
        e = eng.T[t].get("e")
        if a.op == "ptr" and e is not None and eng.T[e].get("def") == CONN:
            for i, f in enumerate(eng.T[e]["v"][0]):
                if eng.T[f].get("def") == CS:       # of a connection its state may change, but not its ID
                    st.n += 1
                    eng.store(st, a.args[0], a.args[1] + (mk("pf", 0, i, f),), mk("sym", "state", st.n, c.site, ""))
            continue
        eng.havoc_arg(st, a, t)
    return [(st, res)]


def contains(F, ty, adt, seen=None):
    """does a type own a value of another type?"""
    seen = seen if seen is not None else set()
    if ty is None or ty in seen or not isinstance(ty, int):
        return False
    seen.add(ty)
    t = F.types[ty]
    if t.get("def") == adt:
        return True
    k = t["k"]
    if k in ("ref", "ptr"):
        return False
    if k == "adt":
        subs = [f for v in (t.get("v") or []) for f in v] + [a for a in (t.get("args") or [])]
    elif k in ("tuple", "closure", "coroutine"):
        subs = t["f"]
    elif k in ("array", "slice"):
        subs = [t["e"]]
    else:
        subs = []
    return any(contains(F, x, adt, seen) for x in subs)


class Tokio:
    """entry points of the dispatch and what its locks protect"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.F = F = ctx.facts()
        self.locks = {}          # lock id -> "pool" / "tx" / type
        if not any(x["def"].startswith(MOD) and x.get("local") for x in F.insts):
            raise ToolError("module %s is missing" % MOD)
        self.jobs = {}           # coroutine def -> inst
        for t in F.types:
            if t["k"] == "coroutine" and t["def"].startswith(MOD) and t.get("inst") is not None:
                if F.insts[t["inst"]].get("body"):
                    self.jobs.setdefault(t["def"], t["inst"])
        self.methods = {f["def"]: f["inst"] for f in F.fns if IMPL in f["def"] and f["def"].startswith("<" + MOD)}
        self.drops = {f["def"]: f["inst"] for f in F.fns
                      if f["def"].startswith("<" + MOD) and f["def"].endswith("ops::drop::Drop>::drop")}
        selfs = {F.types[f["self"]].get("def") if isinstance(f.get("self"), int) else None
                 for f in F.fns if f["def"] in self.methods}
        ty = {d[1:].split(" as ")[0] for d in self.methods}
        self.public = {f["def"]: f["inst"] for f in F.fns if f.get("kind") == "fn" and f.get("pub", True)
                       and any(f["def"].startswith(x + "::") for x in ty)}
        self.cb = need(F, self.one("enqueue_broadcast"))
        self.dropset = {i for i, x in enumerate(F.insts) if x["def"] in self.drops}

    def one(self, item):
        hit = [d for d in self.methods if d.endswith("::" + item)]
        if len(hit) != 1:
            raise ToolError("%d implementations of Dispatch::%s in %s" % (len(hit), item, MOD))
        return hit[0]

    def kind(self, lk, ty=None):
        """what a lock protects"""
        if lk not in self.locks:
            F = self.F
            s = lk.args[0]
            k = s
            for i, t in enumerate(F.types):
                if t["s"] == s:
                    if contains(F, i, POOL_T):
                        k = "pool"
                    elif contains(F, i, TX_T):
                        k = "tx"
                    elif any("dyn " in F.types[a]["s"] for a in (t.get("args") or []) if isinstance(a, int)):
                        k = "broadcasts"
                    break
            self.locks[lk] = k
        return self.locks[lk]

    def engine(self, budget=120, anchors=None, inline_drop=False, unroll=None):
        a = {INCOMING: havoced}
        a.update(anchors or {})
        e = engine(self.F, budget, anchors=a)
        e.merge = False
        e.snap = True
        e.unroll = unroll
        e.iters = True
        if not inline_drop:
            e.drop_events = self.dropset
        St.snapkinds = SNAP
        return e

    def run(self, name, inst, held=(), prep=None, **kw):
        """the outcomes of a root that starts with locks held; None if it is too complex"""
        e = self.engine(**kw)

        def p(eng, st, args):
            if held:
                st.setaux("held", tuple(held))
            if prep:
                prep(eng, st, args)
        try:
            outs = e.run_root(inst, prep=p)
        except (Budget, Unsupported) as x:
            self.ctx.oblige(None, name, "no answer for %s (%s)" % (name, x))
            return e, None
        self.ctx.funcs |= {x for x in e.seen_fns if H not in x}
        for o in outs:
            if o.kind == "unknown":
                self.ctx.undecided.append({"key": name, "what": "path cut short: %s" % (o.st.taint,)})
        return e, outs

    def roots(self):
        """(name, inst, drop impls inlined)"""
        for d, i in sorted(self.jobs.items()):
            yield d, i, False
        for d, i in sorted(self.drops.items()):
            yield d, i, True
        for d, i in sorted(self.methods.items()):
            yield d, i, True
        for d, i in sorted(self.public.items()):
            yield d, i, True


def events(outs):
    """all events of all paths, those of loop bodies included; (event, final state of its path)"""
    seen = set()

    def walk(tr, end):
        for e in tr:
            if e.kind == "loop":
                if id(e.data) in seen:
                    continue
                seen.add(id(e.data))
                for b, s in zip(e.data["bodies"], e.data["states"]):
                    yield from walk(b, s)
            elif id(e) not in seen:
                seen.add(id(e))
                yield e, end
    for o in outs:
        yield from walk(o.st.trace(), o.st)


def guard_prep(tk, eng, st, args, lock, mode="write"):
    """the receiver of a Drop impl that owns a guard: the guard is there and the lock is held"""
    F = tk.F
    ep = mk("epoch", 0, "entry")

    def fill(p, ty, depth=0):
        t = F.types[ty]
        if t["k"] == "adt" and t["def"].endswith("RwLockWriteGuard"):
            eng.store(st, p.args[0], p.args[1], agg("guard", 0, lock, mk("name", mode), ep))
            return True
        if t["k"] == "adt" and t["def"].endswith("option::Option"):
            a = t["args"][0]
            if F.types[a].get("def", "").endswith("RwLockWriteGuard"):
                eng.store(st, p.args[0], p.args[1], some(agg("guard", 0, lock, mk("name", mode), ep)))
                return True
            return False
        if t["k"] == "adt" and t.get("v") and len(t["v"]) == 1 and depth < 3:
            return any([fill(ptr(p.args[0], p.args[1] + (mk("pf", 0, i, f),)), f, depth + 1) for i, f in enumerate(t["v"][0])])
        return False
    if args and args[0].op == "ptr":
        ty = F.types[F.insts[eng.cur_inst]["body"]["locals"][1]]["e"]
        if fill(args[0], ty):
            st.setaux("held", ((lock, mode, ep),))


REENTRANT = ("enqueue_broadcast",)
WITH_CONN = ("enqueue_message", "enqueue_stdin")


def lock_analysis(ctx):
    """run all roots with all sets of held locks under which they can be entered;
    {(root, held names)} -> outcomes"""
    tk = Tokio(ctx)
    F = tk.F
    todo = []
    for name, inst, inl in tk.roots():
        todo.append((name, inst, (), inl))
    done = set()
    res = []
    pool = None
    while todo:
        # Drop impls that own a guard are analysed when the lock's identity is known
        name, inst, held, inl = todo.pop(0)
        k = (name, tuple(sorted(tk.kind(h[0]) + h[1] for h in held)))
        if k in done:
            continue
        if name in tk.drops and pool is None:
            if any(t[0] not in tk.drops for t in todo):
                todo.append((name, inst, held, inl))
                continue
            raise ToolError("the connection pool's lock is never taken")
        done.add(k)
        prep = None
        if name in tk.drops:
            def prep(eng, st, args, inst=inst):
                eng.cur_inst = inst
                guard_prep(tk, eng, st, args, pool)
        if name.rsplit("::", 1)[1] in WITH_CONN and not held:
            # these get a mutable connection: its lock is held
            if pool is None:
                if any(t[0].rsplit("::", 1)[1] not in WITH_CONN and t[0] not in tk.drops for t in todo):
                    done.discard(k)
                    todo.append((name, inst, held, inl))
                    continue
                raise ToolError("the connection pool's lock is never taken")
            held = ((pool, "write", mk("epoch", 0, "caller")),)
        e, outs = tk.run(name, inst, held, prep, inline_drop=inl)
        if outs is None:
            continue
        res.append((name, held, e, outs))
        for ev, end in events(outs):
            if ev.kind == "acquire" and tk.kind(ev.args[0]) == "pool":
                pool = ev.args[0]
            h = None
            if ev.kind == "env":
                h = ev.data.get("held") or ()
            elif ev.kind == "callback":
                h = ev.data["held"]
            if h:
                hs = tuple((x[0], x[1], mk("epoch", 0, "caller")) for x in h)
                for d, i in list(tk.methods.items()) + list(tk.public.items()):
                    item = d.rsplit("::", 1)[1]
                    if item in WITH_CONN and not (ev.kind == "callback" or ev.name == INCOMING):
                        continue
                    if ev.name.endswith("EncodeMessage::encode"):
                        continue          # rendering a message has no access to the dispatch
                    todo.append((d, i, hs, True))
    return tk, res


@check("T01")
def t01(ctx):
    """Lock-order and re-entrancy analysis on the abstract traces of every entry point of the Tokio dispatch
    (its public and trait methods, its asynchronous jobs, the Drop impls of its guards; loops widened).
    Every call into code outside of the dispatch (application, handlers, broadcasts) records the locks held,
    and the dispatch's methods are analysed again under each such set. Rules: no blocking acquisition of a lock
    that is already held; the send queues are only locked under the connection pool's lock; the order in which
    locks nest has no cycle."""
    tk, res = lock_analysis(ctx)
    order = {}
    n = 0
    for name, held, e, outs in res:
        for ev, end in events(outs):
            if ev.kind != "acquire":
                continue
            n += 1
            lk = ev.args[0]
            k = tk.kind(lk)
            hs = [h[0] for h in ev.data]
            entry = " when entered with %s locked" % "/".join(sorted(tk.kind(h[0]) for h in held)) if held else ""
            blocking = not ev.name.startswith("try_")
            if blocking:
                ctx.oblige(lk not in hs, "%s locked twice in %s" % (k, name),
                           "%s (%s) locks `%s` (%s) while the thread already holds it%s: it waits for itself forever"
                           % (ev.fn, ev.span, k, lk.args[0][:80], entry))
            if k == "tx":
                ctx.oblige("pool" in [tk.kind(h) for h in hs], "send queues locked without pool in %s" % name,
                           "%s (%s) locks the send queues without holding the connection pool's lock%s" % (ev.fn, ev.span, entry))
            for h in hs:
                if h is not lk and blocking:
                    order.setdefault((h, lk), "%s (%s)%s" % (ev.fn, ev.span, entry))
    ctx.floor("lock acquisitions", n, 20)
    ctx.floor("entry points", len(res), 10)
    # cycles
    nodes = {x for e in order for x in e}
    for a in sorted(nodes, key=lambda x: x.id):
        seen, todo = {}, [(a, ())]
        while todo:
            x, path = todo.pop()
            for (p, q), site in order.items():
                if p is x and q is a:
                    cyc = path + ((p, q),)
                    ctx.oblige(False, "lock order: " + " / ".join(sorted({tk.kind(y) for e in cyc for y in e})),
                               "locks are taken in conflicting orders: " +
                               "; ".join("%s before %s in %s" % (tk.kind(u), tk.kind(v), order[(u, v)]) for u, v in cyc))
                elif p is x and q not in seen:
                    seen[q] = 1
                    todo.append((q, path + ((p, q),)))
    for (p, q), site in order.items():
        ctx.oblige(not (tk.kind(p) == "tx" and tk.kind(q) == "pool"), "pool locked under send queues",
                   "the connection pool is locked while the send queues are: " + site)
    ctx.cov["lock_order"] = sorted({"%s < %s" % (tk.kind(p), tk.kind(q)) for p, q in order})


BLOCKING = ("std::thread::sleep", "std::thread::park", "std::thread::functions::sleep", "std::thread::functions::park",
            "std::fs::", "<std::fs::", "std::net::", "<std::net::", "std::os::unix::net::", "<std::os::unix::net::",
            "std::process::", "std::sync::mpsc::", "std::sync::barrier::", "std::sync::poison::condvar::",
            "std::io::stdio::stdin", "<std::io::stdio::Stdin", "std::io::stdio::Stdin",
            "futures_executor::", "tokio::runtime::", "tokio::task::blocking::", "std::thread::join_handle::",
            "std::thread::JoinHandle", "core::hint::spin_loop")


def blocking(name):
    return name.startswith(BLOCKING) and not name.startswith(("std::process::id", "std::process::ExitCode"))


@check("T02")
def t02(ctx):
    """Held-lock analysis at every await of the dispatch's asynchronous jobs (abstract traces, loops widened),
    and an effect analysis on the call graph: nothing reachable from the jobs that serve connections, or from the
    dispatch's trait methods, may call blocking operations of the standard library (sleep, file, socket, process,
    channel or join operations). Loops that only spin on a lock count as blocking."""
    tk = Tokio(ctx)
    F = tk.F
    G = Graph(F)
    awaits = 0
    binds = set()
    for d, inst in sorted(tk.jobs.items()):
        e, outs = tk.run(d, inst)
        if outs is None:
            continue
        for ev, end in events(outs):
            if ev.kind == "lib" and ev.name.endswith("UnixListener::bind"):
                binds.add(d)
            if ev.kind == "await":
                awaits += 1
                held = sorted(tk.kind(h[0]) for h in ev.data or ())
                ctx.oblige(not held, "await with %s locked in %s" % ("/".join(held), d),
                           "%s (%s) waits for %s while it holds the lock(s) %s" % (ev.fn, ev.span, ev.name[:80], ", ".join(held)))
    ctx.floor("awaits", awaits, 4)
    ctx.floor("jobs", len(tk.jobs), 4)
    # blocking operations
    todo = [(i, (d,)) for d, i in sorted(tk.jobs.items()) if d not in binds]
    todo += [(i, (d,)) for d, i in sorted(tk.methods.items())]
    seen = set()
    sites = 0
    while todo:
        i, path = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for name, span in calls(F, i):
            sites += 1
            ctx.oblige(not blocking(name), "%s called from %s" % (name, path[-1]),
                       "%s (%s) blocks the event loop with %s (reached through %s)" % (path[-1], span, name, " -> ".join(path)))
        for j, span, how in G.edges.get(i, ()):
            if j not in seen and F.insts[j].get("body") and F.insts[j].get("local"):
                todo.append((j, path + (F.insts[j]["def"],)))
    ctx.floor("call sites", sites, 200)
    ctx.funcs |= {F.insts[i]["def"] for i in seen}


def calls(F, i):
    """names of the functions called in a body"""
    ins = F.insts[i]
    for body in [ins["body"]] + list(ins.get("promoted") or []):
        for b in body["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k":
                ty = F.types[t[1][1]["t"]]
                yield ty.get("rdef") or ty.get("def") or "?", t[5]


# ---------------------------------------------------------------- what the locks protect, by type
def path_to(F, ty, hit, depth=0):
    """the field path of the first component of a type that satisfies a predicate: [(variant, index, type)]"""
    t = F.types[ty]
    if hit(ty, t):
        return ()
    if depth > 4 or t["k"] not in ("adt", "tuple") or (t["k"] == "adt" and len(t.get("v") or ()) != 1):
        return None
    fs = t["v"][0] if t["k"] == "adt" else t["f"]
    for i, f in enumerate(fs):
        r = path_to(F, f, hit, depth + 1)
        if r is not None:
            return ((0, i, f),) + r
    return None


def proj_path(path):
    return tuple(mk("pf", v, i, f) for v, i, f in path)


class Pool:
    """entries of the connection pool"""

    def __init__(self, tk):
        self.tk, self.F = tk, tk.F
        self.view = ConnView(tk.F)
        self.ntf = ty_of(tk.F, NOTIF)

    def is_lookup(self, ev, names=("get", "get_mut", "contains_key")):
        return ev.kind == "map" and ev.name in names and self.is_pool(ev.args[0])

    def is_pool(self, p):
        lk = lock_of(p)
        return lk is not None and self.tk.kind(lk) == "pool"

    def is_tx(self, p):
        lk = lock_of(p)
        return lk is not None and self.tk.kind(lk) == "tx"

    def conn(self, st, ev):
        """pointer to the connection that a lookup found"""
        r = map_entry_root(ev.args[0], ev.args[1])
        ty = st.rty.get(r)
        if ty is None:
            return None
        p = path_to(self.F, ty, lambda i, t: t.get("def") == CONN)
        return ptr(r, proj_path(p)) if p is not None else None

    def states(self, eng, st, ev):
        c = self.conn(st, ev)
        return self.view.states(eng, st, c) if c is not None else None

    def notification(self, eng, end, ev):
        """the kinds of notification an event may carry"""
        st = at(end, ev)
        v = ev.args[1]
        v = eng.load(st, v.args[0], v.args[1]) if v.op == "ptr" else v
        return possible(eng, st, v, self.ntf)


def lock_of(p):
    """the lock that protects what a pointer refers to"""
    if p.op != "ptr":
        return None
    r = p.args[0]
    while r.op == "entry":
        r = r.args[0].args[0] if r.args[0].op == "ptr" else r.args[0]
    if r.op == "lockdata" and r.args[0].op == "lock":
        return r.args[0]
    return None


IO_READ = ("read_buf", "read")
IO_WRITE = ("write_all", "write")


def future_kind(ev):
    f = ev.args[0]
    return f.args[2].args[0] if f.op == "agg" and f.args[0] == "future" else None


class Job:
    """rules about one asynchronous job (T04)"""

    def __init__(self, tk, name, inst):
        self.tk, self.F, self.name, self.inst = tk, tk.F, name, inst
        self.pool = Pool(tk)
        self.n = {}

    def anchors(self):
        return {INCOMING: havoced}

    def run(self, eng):
        eng.drop_events = self.tk.dropset
        St.snapkinds = SNAP

        def prep(e, st, args):
            self.entry = st.copy()
        return eng.run_root(self.inst, prep=prep)

    def hot(self, e):
        return e.kind in ("await", "dropimpl", "env") or (e.kind == "map" and self.pool.is_pool(e.args[0]))

    def judge(self, eng, outs):
        bad = []
        self.n = {}

        def rule(pid, good, key, text, p):
            self.n[pid] = self.n.get(pid, 0) + 1
            if not good:
                bad.append((pid, key, text, p))
        ps = pieces(outs, self.entry, self.hot)
        self.pieces = len(ps)
        self.io = 0
        for p in ps:
            self.piece(eng, p, rule)
        return bad

    def teardown(self, eng, p, since):
        """is the connection gone or in teardown after event number `since`?"""
        last = None
        for i, e in enumerate(p.events):
            if i > since and self.pool.is_lookup(e):
                last = i
        if last is None:
            return False
        e = p.events[last]
        if e.res is not None and e.res.op == "int" and e.res.args[0] == 0:
            return True
        for x in p.events[last + 1:]:
            if x.kind in ("dropimpl", "release") and (x.kind == "dropimpl" or self.tk.kind(x.args[0]) == "pool"):
                return self.pool.states(eng, at(p.end, x), e) == {"Teardown"}
        return self.pool.states(eng, p.end, e) == {"Teardown"}

    def piece(self, eng, p, rule):
        evs = p.events
        awaits = [i for i, e in enumerate(evs) if e.kind == "await"]
        for i in awaits:
            e = evs[i]
            k = future_kind(e)
            if k not in IO_READ + IO_WRITE:
                continue
            self.io += 1
            nxt = min([j for j in awaits if j > i], default=len(evs))
            ty = e.args[1].args[0]
            can = possible(eng, p.end, e.res, ty)
            over = p.how == "ret" and nxt == len(evs)
            if "Err" in can:
                told = any(x.kind == "env" and x.name == NOTIFY and self.pool.notification(eng, p.end, x) == {"ConnectionIOError"}
                           for x in evs[i + 1:nxt])
                rule("T04", told, "unreported I/O error of %s" % k,
                     "an error of %s (%s) is not reported to the application" % (k, e.span), p)
                if k in IO_WRITE or "Ok" not in can:
                    rule("T04", over, "continues after an I/O error of %s" % k,
                         "the job continues although %s (%s) may have failed" % (k, e.span), p)
            if k in IO_READ and "Ok" in can:
                n = payload(eng, p.end, e.res, ty, "Ok")[0]
                if p.end.fact.add_eq(n) is not None:
                    rule("T04", over, "continues after end of file",
                         "the job continues although %s (%s) may have reached the end of the stream" % (k, e.span), p)
        if p.how == "ret":
            since = awaits[-1] if awaits else -1
            rule("T04", self.teardown(eng, p, since), "ends without teardown",
                 "the job ends although the connection is neither gone nor put into teardown", p)


SNAP = frozenset(("acquire", "release", "map", "lib", "vec", "dropimpl", "await", "spawn", "mapitem", "queue", "pool", "bcasts"))


def io_jobs(ctx, tk):
    """the jobs that read from or write to a connection"""
    res = {}
    for d, inst in sorted(tk.jobs.items()):
        e, outs = tk.run(d, inst, budget=60)
        if outs is None:
            continue
        ks = {future_kind(ev) for ev, _ in events(outs) if ev.kind == "await"}
        if ks & set(IO_READ):
            res[d] = ("read", inst)
        elif ks & set(IO_WRITE):
            res[d] = ("write", inst)
    return res


@check("T04")
def t04(ctx):
    """Typestate rules on the abstract traces of the jobs that read from and write to a connection (loops
    widened; a rule that fails in a widened state must also fail with the loops peeled): an error of a read or
    write is always reported and ends the job, so does the end of the stream, and a job only ends after it found
    its connection gone or while the connection's state is provably Teardown when its lock is released."""
    from .server import run_rules
    tk = Tokio(ctx)
    jobs = io_jobs(ctx, tk)
    ctx.floor("kinds of I/O jobs", len({k for k, _ in jobs.values()}), 2)
    for d, (k, inst) in sorted(jobs.items()):
        run_rules(ctx, "T04", Job(tk, d, inst), 3, depths=(None, 1), budget=60)


# ---------------------------------------------------------------- send queues
HMG = "std::collections::hash::map::HashMap::"


class Queues:
    """Send queues given by their elements: every lookup of a connection's send queue yields each queue of up to
    `size` buffers of which the first ones hold data (symbolic, of symbolic length) and the rest is empty."""

    def __init__(self, tk, size):
        self.tk, self.F, self.size = tk, tk.F, size
        F = tk.F
        isvec = lambda i, t: t.get("def") == "alloc::vec::Vec"
        cand = {}
        for i, t in enumerate(F.types):
            if t.get("def") == "std::collections::hash::map::HashMap" and contains(F, t["args"][1], TX_T):
                path = path_to(F, t["args"][1], isvec)
                if path is not None and self.is_buffer(F.types[path[-1][2]]["args"][0]):
                    cand[t["args"][1]] = path
        if len(cand) != 1:
            raise ToolError("there is no single type of send queues (%d)" % len(cand))
        self.vty, self.path = list(cand.items())[0]
        ety = F.types[self.path[-1][2]]["args"][0]
        t = F.types[ety]
        self.boxed = t.get("def") == "alloc::boxed::Box"
        self.bty = t["args"][0] if self.boxed else ety
        bt = F.types[self.bty]
        if not bt.get("v"):
            raise ToolError("send buffers have no known fields")
        fs = bt["v"][0]
        arr = [i for i, f in enumerate(fs) if F.types[f]["k"] == "array"]
        num = [i for i, f in enumerate(fs) if F.types[f]["s"] == "usize"]
        if len(fs) != 2 or len(arr) != 1 or len(num) != 1 or not self.boxed:
            raise ToolError("send buffers are not an array and the number of bytes filled")
        self.arr, self.num, self.fs, self.bdef = arr[0], num[0], fs, bt["def"]
        self.cap = F.types[fs[self.arr]]["n"]

    def is_buffer(self, i):
        t = self.F.types[i]
        if t.get("def") == "alloc::boxed::Box":
            t = self.F.types[t["args"][0]]
        v = t.get("v") or ()
        return len(v) == 1 and any(self.F.types[f]["k"] == "array" for f in v[0])

    def anchors(self):
        return {HMG + "get_mut": self.lookup, HMG + "get": self.lookup}

    def lookup(self, eng, st, c):
        from ..models import m_map_get
        res = m_map_get(eng, st, c)
        t = eng.T[c.atys[0]]
        while t["k"] == "ref":
            t = eng.T[t["e"]]
        if t["args"][1] != self.vty:
            return res
        out = []
        for g, v in res:
            if v is NONE:
                out.append((g, v))
                continue
            r = v.args[2].args[0]
            if r in g.mem:
                out.append((g, v))
                continue
            out.extend((h, v) for h in self.inject(eng, g, r))
        return out

    def inject(self, eng, st, r):
        for k in range(self.size + 1):
            for s in range(k + 1):
                h = st.copy()
                h.n += 1
                h.rty = dict(h.rty)
                boxes = []
                for i in range(k):
                    b = mk("qbuf", h.n, i)
                    fill = mk("sym", "qfilled", h.n, i, "usize") if i < s else I(0)
                    ops = [None, None]
                    ops[self.arr] = mk("sym", "qdata", h.n, i, "")
                    ops[self.num] = fill
                    h.mem[b] = agg(self.bdef, 0, *ops)
                    h.rty[b] = self.bty
                    if i < s:
                        f = h.fact.add_le(sub(I(1), fill))
                        h.fact = f.add_le(sub(fill, I(self.cap)))
                    boxes.append(ptr(b))
                eng.store(h, r, proj_path(self.path), agg("vec", 0, mk("arrlit", *boxes), I(k)))
                h.emit(Ev("queue", "%d of %d" % (s, k), (r,) + tuple(boxes), I(s), None, None))
                yield h

    def read(self, eng, st, r):
        """the buffers of a queue: [(root, bytes filled, array)], None if they cannot be told"""
        v = eng.load(st, r, proj_path(self.path))
        if not (v.op == "agg" and v.args[0] == "vec" and v.args[2].op == "arrlit" and v.args[3].op == "int"
                and v.args[3].args[0] == len(v.args[2].args)):
            return None
        out = []
        for x in v.args[2].args:
            if x.op != "ptr" or x.args[1]:
                return None
            out.append((x.args[0],) + self.buffer(eng, st, x.args[0]))
        return out

    def buffer(self, eng, st, root):
        return (eng.load(st, root, (mk("pf", 0, self.num, self.fs[self.num]),), self.fs[self.num]),
                eng.load(st, root, (mk("pf", 0, self.arr, self.fs[self.arr]),), self.fs[self.arr]))


def policy(tk, depth):
    """peel loops, except those of asynchronous jobs, which are widened"""
    jobs = set(tk.jobs)

    def f(fr, head):
        return None if fr.name in jobs else depth
    return f


class TxJob:
    """rules about the job that writes to a connection (T06, T07)"""

    def __init__(self, tk, name, inst, size=2):
        self.tk, self.F, self.name, self.inst = tk, tk.F, name, inst
        self.q = Queues(tk, size)
        self.pool = Pool(tk)
        self.n = {}

    def run(self, budget=100):
        tk = self.tk
        a = {INCOMING: havoced}
        a.update(self.q.anchors())
        e = tk.engine(budget, anchors=a)
        e.unroll = 1
        e.unroll_for = lambda fr, head: 1 if fr.name in tk.jobs else self.q.size + 2

        def prep(eng, st, args):
            self.entry = st.copy()
        self.eng = e
        self.outs = e.run_root(self.inst, prep=prep)
        tk.ctx.funcs |= {x for x in e.seen_fns if H not in x}
        return self.outs

    def judge(self, rule):
        eng = self.eng
        for o in self.outs:
            if o.kind not in ("ret", "cut", "endless"):
                continue
            self.path(eng, o, rule)

    def path(self, eng, o, rule):
        evs = o.st.trace()
        end = o.st
        for i, e in enumerate(evs):
            if e.kind == "queue":
                self.taken(eng, end, evs, i, rule)
            if e.kind == "await" and future_kind(e) == "notified":
                # asleep only when nothing is queued
                prev = [j for j in range(i) if evs[j].kind == "await"]
                if not prev:
                    continue
                seg = evs[prev[-1] + 1:i]
                ok_ = False
                for x in seg:
                    if x.kind == "queue":
                        ok_ = x.res.args[0] == 0
                    elif x.kind == "map" and (self.pool.is_tx(x.args[0]) or self.pool.is_lookup(x)) and x.res is not None \
                            and x.res.op == "int" and x.res.args[0] == 0:
                        ok_ = True
                rule(ok_, "T07", "sleeps with output queued",
                     "the job goes to sleep (%s) although output may be queued" % e.span, o)
            if e.kind == "await" and future_kind(e) == "write":
                rule(False, "T06", "partial write", "a buffer is written with `write` (%s), which may send a part of it only" % e.span, o)

        if o.kind == "ret":
            # the job ends only with its connection: an output that failed, or a connection that is gone
            last = max([j for j, e in enumerate(evs) if e.kind == "await"], default=-1)
            rule(not any(e.kind == "queue" for e in evs[last + 1:]), "T07", "job ends early",
                 "the job ends although its connection still lives", o)

    def taken(self, eng, end, evs, i, rule):
        """what happens to a queue from its lookup to the release of its lock, and to what is taken from it"""
        q = evs[i]
        r, boxes, s = q.args[0], [b.args[0] for b in q.args[1:]], q.res.args[0]
        rel = [j for j in range(i, len(evs)) if evs[j].kind == "release" and self.tk.kind(evs[j].args[0]) == "tx"]
        if not rel:
            rule(None, "T06", "queue", "the send queues stay locked", None)
            return
        st0, st = at(end, q) if q.mem else end, at(end, evs[rel[0]])
        after = self.q.read(eng, st, r)
        if after is None:
            rule(None, "T06", "queue", "the queue cannot be told after it was used", None)
            return
        f = end.fact
        pend = [a for a in after if not f.eq(a[1], I(0))]
        want = boxes[1:s]
        good = [a[0] for a in pend] == want
        rule(good, "T06", "queue after taking a buffer",
             "from a queue with %d filled of %d buffers, what stays queued is %s instead of everything but the first"
             % (s, len(boxes), [boxes.index(a[0]) if a[0] in boxes else "a recycled buffer" for a in pend]), end)
        if good:
            # the filled ones come first
            k = len(pend)
            rule([a[0] for a in after[:k]] == want, "T06", "order of the queue",
                 "an empty buffer is put in front of filled ones", end)
            same = all(self.q.buffer(eng, st0, a[0]) == (a[1], a[2]) for a in pend)
            rule(same, "T06", "content of the queue", "the content of a queued buffer changes when another one is taken", end)
        nxt = [e for e in evs[rel[0]:] if e.kind == "await"]
        if s and nxt and future_kind(nxt[0]) in IO_WRITE:
            w = nxt[0].args[0].args[-1] if nxt[0].args[0].args[2].args[0] in IO_WRITE else None
            fill, arr = self.q.buffer(eng, st0, boxes[0])
            okw = w is not None and w.op == "slice" and w.args[0] is boxes[0] and f.eq(w.args[2], I(0)) and f.eq(w.args[3], fill)
            if okw:
                ws = at(end, nxt[0])
                okw = self.q.buffer(eng, ws, boxes[0])[1] is arr
            rule(bool(okw), "T06", "bytes written", "what is written (%s) is not exactly the content of the first queued buffer" % nxt[0].span, end)
        elif not s and nxt and future_kind(nxt[0]) in IO_WRITE:
            rule(False, "T06", "writes although nothing is queued", "something is written (%s) although nothing is queued" % nxt[0].span, end)


ENCODE = "::EncodeMessage::encode"


def render(eng, st, c):
    """rendering a message into a slice: some bytes of it may be overwritten; on success the first n >= 1 bytes hold the
    rendered message, on failure nothing is promised"""
    d = c.args[1]
    if d.op != "slice":
        return None
    outs = []
    for truth in (True, False):
        s = st.copy()
        s.n += 1
        old = eng.load(s, d.args[0], d.args[1])
        src = mk("rendered", s.n)
        eng.store(s, d.args[0], d.args[1], mk("copyrng", old, d.args[2], d.args[3], src, I(0)))
        if truth:
            n = mk("sym", "msglen", s.n, "usize")
            f = s.fact.add_le(sub(I(1), n))
            f = f and f.add_le(sub(n, d.args[3]))
            if f is None:
                continue
            s.fact = f
            s.emit(Ev("render", "ok", (d, src), n, c.span, c.frame.name))
            outs.append((s, ok(n)))
        else:
            s.emit(Ev("render", "err", (d, src), None, c.span, c.frame.name))
            outs.append((s, err(mk("sym", "renderfail", s.n, ""))))
    return outs


def engine_like(eng):
    e = engine(eng.F, 20)
    e.models, e.anchors = eng.models, eng.anchors
    return e


class EnqJob:
    """rules about the methods that queue output (T06, T07)"""

    def __init__(self, tk, name, inst, lock, size=2):
        self.tk, self.F, self.name, self.inst, self.lock = tk, tk.F, name, inst, lock
        self.q = Queues(tk, size)
        self.pool = Pool(tk)
        self.stdin = name.endswith("stdin")

    def run(self, budget=100):
        tk = self.tk
        a = {t["def"]: render for t in self.F.types if str(t.get("def")).endswith(ENCODE)}
        a.update(self.q.anchors())
        e = tk.engine(budget, anchors=a)
        e.unroll = self.q.size + 2

        def prep(eng, st, args):
            st.setaux("held", ((self.lock, "write", mk("epoch", 0, "caller")),))
            self.args = args
            self.entry = st.copy()
        self.eng = e
        self.outs = e.run_root(self.inst, prep=prep)
        tk.ctx.funcs |= {x for x in e.seen_fns if H not in x}
        return self.outs

    def judge(self, rule):
        for o in self.outs:
            if o.kind == "ret":
                self.path(self.eng, o, rule)

    def path(self, eng, o, rule):
        end = o.st
        evs = end.trace()
        qs = [i for i, e in enumerate(evs) if e.kind == "queue"]
        if not qs:
            return
        q = evs[qs[0]]
        if any(evs[i].args[0] is not q.args[0] for i in qs):
            rule(False, "T06", "queue", "output goes to the queues of several connections", end)
            return
        r, boxes, s = q.args[0], [b.args[0] for b in q.args[1:]], q.res.args[0]
        want = self.conn_id(eng)
        key = r.args[1]
        rule(key is want or end.fact.eq(key, want), "T06", "queue of another connection",
             "output is put into the queue of another connection (%s) than the one it is for" % q.span, end)
        st0 = at(end, q)
        after = self.q.read(eng, end, r)
        if after is None:
            rule(None, "T06", "queue", "the queue cannot be told after output was added", None)
            return
        f = end.fact
        names = [a[0] for a in after]
        # the queued data is still there
        kept = [b for b in names if b in boxes[:s]]
        rule(kept == boxes[:s], "T06", "queued data is kept",
             "of %d queued buffers, %s stay queued" % (s, [boxes.index(b) for b in kept]), end)
        if kept != boxes[:s]:
            return
        new = []                    # what was added: (position in the queue, start, end, buffer before, array after)
        for i, (b, fill, arr) in enumerate(after):
            f0, a0 = self.q.buffer(eng, st0, b) if b in boxes else (I(0), None)
            if not f.eq(fill, f0):
                new.append((i, f0, fill, a0, arr, b))
            elif b in boxes[:s]:
                rule(self.prefix(f, arr, a0, f0), "T06", "queued data is changed",
                     "the content of a queued buffer is overwritten", end)
        for i, f0, f1, a0, arr, b in new:
            rule(self.prefix(f, arr, a0, f0), "T06", "queued data is changed",
                 "adding to a queued buffer overwrites what it holds", end)
            later = [a for a in after[i + 1:] if a[0] in boxes[:s]]
            rule(not later, "T06", "order of the queue", "output is put in front of output queued before", end)
        # what is filled comes before what is empty: the transmitter takes the first buffer
        state = [None if not (f.eq(a[1], I(0)) or f.le(I(1), a[1])) else f.le(I(1), a[1]) for a in after]
        gap = [i for i in range(len(after) - 1) if state[i] is False and state[i + 1] is True]
        rule(not gap, "T06", "order of the queue", "an empty buffer is left in front of a filled one", end)
        if self.stdin:
            self.added_stdin(eng, end, new, rule)
        else:
            self.added_message(eng, end, evs, new, rule)
        # T07
        if new:
            last = max([i for i, e in enumerate(evs) if e.kind in ("queue", "render", "copy", "vec")])
            woken = [e for e in evs[last:] if e.kind == "lib" and e.name.endswith("Notify::notify_one")
                     and mentions(e.args[0], r)]
            rule(bool(woken), "T07", "no wake-up",
                 "output is queued (%s) on a path that does not wake the connection's transmit job with `notify_one` afterwards" % q.span, end)

    def conn_id(self, eng):
        F = self.F
        t = F.types[F.insts[self.inst]["body"]["locals"][2]]["e"]
        for i, f in enumerate(F.insts):
            if f["def"] == CONN + "::id" and f.get("body") and F.types[f["body"]["locals"][1]].get("e") == t:
                s = self.entry.copy()
                s.frames, s.ev = (), None
                outs = [o for o in engine_like(eng).run_root(i, [self.args[1]], s) if o.kind == "ret"]
                if len(outs) == 1:
                    return outs[0].val
        raise ToolError("the id of a connection cannot be told")

    def prefix(self, f, arr, a0, n):
        """are the first n bytes still those of a0?"""
        while arr is not a0:
            if arr.op == "copyrng" or arr.op == "store":
                if not f.le(n, arr.args[1]):
                    return False
                arr = arr.args[0]
            else:
                return a0 is None
        return True

    def added_message(self, eng, end, evs, new, rule):
        f = end.fact
        oks = [e for e in evs if e.kind == "render" and e.name == "ok"]
        if not oks:
            rule(not new, "T06", "failed message", "a message that could not be rendered leaves something in the queue", end)
            return
        rule(len(oks) == 1, "T06", "message rendered twice", "a message is put into the queue more than once", end)
        d, src = oks[-1].args
        good = len(new) == 1
        if good:
            i, f0, f1, a0, arr, b = new[0]
            good = d.args[0] is b and f.eq(d.args[2], f0) and f.eq(f1, add(f0, oks[-1].res)) and \
                arr.op == "copyrng" and arr.args[3] is src and f.eq(arr.args[1], f0)
        rule(good, "T06", "message in one buffer",
             "the rendered message (%s) is not what a single buffer of the queue gains" % oks[-1].span, end)

    def added_stdin(self, eng, end, new, rule):
        f = end.fact
        x = self.args[2]
        off = x.args[2]
        good = True
        for i, f0, f1, a0, arr, b in new:
            good = good and arr.op == "copyrng" and f.eq(arr.args[1], f0) and f.eq(add(arr.args[1], arr.args[2]), f1) \
                and self.same_source(eng, end, arr, x, off)
            if not good:
                break
            off = add(off, arr.args[2])
        rule(good and f.eq(off, add(x.args[2], x.args[3])), "T06", "stdin complete and in order",
             "the buffers of the queue do not gain exactly the stdin bytes given, in order", end)

    def same_source(self, eng, st, arr, x, off):
        src = eng.load(st, x.args[0], x.args[1])
        return arr.args[3] is src and st.fact.eq(arr.args[4], off)


def mentions(t, x):
    return any(u is x for u in subterms(t))


def pool_lock(tk):
    """the lock of the connection pool, as the functions that take it name it"""
    for name, inst in sorted(tk.jobs.items()):
        e, outs = tk.run(name, inst)
        for ev, end in events(outs or ()):
            if ev.kind == "acquire" and tk.kind(ev.args[0]) == "pool":
                return ev.args[0]
    raise ToolError("the connection pool's lock is never taken")


def tx_rules(ctx, pid, tk):
    jobs = [TxJob(tk, d, i) for d, (k, i) in sorted(io_jobs(ctx, tk).items()) if k == "write"]
    ctx.floor("transmit jobs", len(jobs), 1)
    lock = pool_lock(tk)
    enq = [EnqJob(tk, d, i, lock) for d, i in sorted(tk.methods.items()) if d.rsplit("::", 1)[1] in WITH_CONN]
    ctx.floor("methods that queue output", len(enq), 2)
    for j in jobs + enq:
        d = j.name
        try:
            j.run()
        except (Budget, Unsupported) as x:
            ctx.oblige(None, d, "no answer for %s (%s)" % (d, x))
            continue
        n = [0]

        def rule(good, p, key, text, where_):
            if p != pid:
                return
            n[0] += 1
            st = where_.st if isinstance(where_, Out) else where_
            if good is False and st is not None and st.taint:
                good = None
                text += " [%s]" % (str(st.taint)[:200],)
            ctx.oblige(good, "%s: %s" % (d, key), text)
        j.judge(rule)
        if any(o.kind == "unknown" for o in j.outs):
            ctx.oblige(None, d, "%s: a path is not known" % d)
        ctx.floor("rule instances in %s" % d, n[0], 3)


@check("T07")
def t07(ctx):
    """Typestate over the abstract traces of the methods that queue output and of the job that writes it, with the send
    queue given by its elements (all queues of up to two buffers, of which the first hold data of unknown amount and
    content; every loop over the queue is followed element by element). On every path on which a queue gained data,
    `notify_one` of that same queue's notifier follows the last change (`notify_waiters` leaves no permit and does not
    count); the job goes back to sleep only right after it saw the queue without data, and ends only when its connection
    is gone or its output failed."""
    tk = Tokio(ctx)
    tx_rules(ctx, "T07", tk)


@check("T06")
def t06(ctx):
    """Queue discipline on abstract traces, with the send queue given by its elements (see T07). Adding: everything that
    was queued stays queued, unchanged and in order; a rendered message becomes the new tail of exactly one buffer, and
    is added once; the stdin bytes gained by the buffers are, in queue order, exactly the bytes given; nothing lands in
    front of queued data, no empty buffer is left in front of a filled one, and the queue is that of the connection the
    output is for. Sending: exactly the first filled buffer leaves the queue, its whole content and nothing else is
    passed to `write_all` before the next one is taken, and the others keep their content and order."""
    tk = Tokio(ctx)
    tx_rules(ctx, "T06", tk)


# ---------------------------------------------------------------- the pool and the broadcasts, given by their elements
CLOSED = "ConnectionClosed"


class World:
    """The connection pool and the broadcast queue given by their elements. Whenever the pool is locked it holds the
    connections `there`, none of them in teardown; whenever the broadcast queue is locked it holds up to `size` broadcasts
    (`later` times at most), which may change the state of a connection they are applied to."""

    def __init__(self, tk, lock, size=2, later=3):
        self.tk, self.F, self.size, self.later, self.lock = tk, tk.F, size, later, lock
        self.there = (0, 1)
        self.view = ConnView(tk.F)
        F = self.F
        t = [t for t in F.types if t["s"] == lock.args[0]][0]
        self.inner = t["args"][0]
        ismap = lambda j, u: u.get("def") == "std::collections::hash::map::HashMap" and contains(F, u["args"][1], POOL_T)
        self.path = path_to(F, self.inner, ismap)
        if self.path is None:
            raise ToolError("the connection pool's lock protects no map of connections")
        m = F.types[self.path[-1][2] if self.path else self.inner]
        self.kty, self.vty = m["args"][0], m["args"][1]
        self.cpath = path_to(F, self.vty, lambda i, t: t.get("def") == CONN)
        if self.cpath is None:
            raise ToolError("the entries of the connection pool hold no connection")
        cty = self.cpath[-1][2] if self.cpath else self.vty
        fs = F.types[cty]["v"][0]
        ids = [i for i, f in enumerate(fs) if f == self.kty]
        if len(ids) != 1:
            raise ToolError("a connection has %d fields that may be its ID" % len(ids))
        self.cty, self.cfs, self.id = cty, fs, ids[0]
        self.handles = self.leaves(self.vty, lambda t: t.get("def", "").endswith("::AbortHandle"))
        self.sort = "u64"
        # where the next ID is taken from
        t = F.types[self.inner]
        self.counter = []
        if t["k"] == "adt" and len(t.get("v") or ()) == 1:
            self.counter = [((0, i, f),) for i, f in enumerate(t["v"][0]) if f == self.kty or F.types[f]["s"] == F.types[self.kty]["s"]]
        adt = F.adts[CS]["v"]
        self.dead = [x["d"] for x in adt if x["name"] == "Teardown"][0]

    def leaves(self, ty, hit, depth=0):
        t = self.F.types[ty]
        if hit(t):
            return [()]
        if depth > 3 or t["k"] not in ("adt", "tuple") or (t["k"] == "adt" and len(t.get("v") or ()) != 1) or t.get("def") == CONN:
            return []
        fs = t["v"][0] if t["k"] == "adt" else t["f"]
        return [((0, i, f),) + r for i, f in enumerate(fs) for r in self.leaves(f, hit, depth + 1)]

    # --- what is found when a lock is taken
    def acquire(self, eng, st, lk, mode, ep):
        k = self.tk.kind(lk)
        if k == "pool":
            return self.pool(eng, st, lk, ep)
        if k == "broadcasts":
            return self.queue(eng, st, lk, ep)
        return [st]

    def pool(self, eng, st, lk, ep, me=None):
        res = []
        root = mk("lockdata", lk, ep)
        keys = self.keys(st, me)
        for sel in (tuple(k for i, k in enumerate(keys) if i in self.there),):
            h = st.copy()
            h.rty = dict(h.rty)
            h.rty[root] = self.inner
            eng.store(h, root, proj_path(self.path), mk("maplit", *sel))
            mp = ptr(root, proj_path(self.path))
            if len(self.counter) == 1:
                # IDs in use are below the next one (T08)
                c = eng.load(h, root, proj_path(self.counter[0]), self.kty)
                for k in sel:
                    h.fact = h.fact.add_le(addc(sub(k, c), 1))
            for k in sel:
                r = map_entry_root(mp, k)
                h.rty[r] = self.vty
                h.mem[r] = mk("poolentry", ep, k, "")
                for i, x in enumerate(self.handles):
                    eng.store(h, r, proj_path(x), mk("handle", ep, k, i))
                c = proj_path(self.cpath)
                eng.store(h, r, c + (mk("pf", 0, self.id, self.kty),), k)
                sv = mk("sym", "state", h.n, ep, k, "")
                eng.store(h, r, c + (mk("pf", 0, self.view.i, self.view.sty),), sv)
                if me is None or k is not me:
                    h.fact = h.fact.add_ne(addc(eng.discr_of(h, sv, self.view.sty), -self.dead))
            h.emit(Ev("pool", "", (mp,) + tuple(sel), None, None, None, data=ep))
            res.append(h)
        return res

    def keys(self, st, me=None):
        """the connections that may be in the pool; the first one is the caller's own"""
        ks = st.aux.get("keys")
        if ks is None:
            a = me if me is not None else mk("sym", "key", 0, self.sort)
            b = mk("sym", "key", 1, self.sort)
            st.fact = st.fact.add_ne(sub(a, b))
            ks = (a, b)
            st.setaux("keys", ks)
        return ks

    def queue(self, eng, st, lk, ep):
        root = mk("lockdata", lk, ep)
        left = st.aux.get("bcasts", self.later)
        res = []
        for n in (0, min(self.size, left)):
            if n == 0 and res:
                break
            h = st.copy()
            h.setaux("bcasts", left - (1 if n else 0))
            ty = [t["args"][0] for t in self.F.types if t.get("def", "").startswith("std::sync::poison::") and
                  t["s"] == lk.args[0]][0]
            h.rty = dict(h.rty)
            h.rty[root] = ty
            xs = tuple(mk("bcast", ep, i) for i in range(n))
            h.mem[root] = agg("vec", 0, mk("arrlit", *xs), I(n))
            h.emit(Ev("bcasts", "", (ptr(root),) + xs, None, None, None, data=ep))
            res.append(h)
        return res

    def callback(self, eng, fr, st, fv, args, span, site, dty):
        """a broadcast is applied to a connection: it may change the connection's state, but not its ID"""
        st.emit(Ev("callback", "call", (fv,) + tuple(args), None, span, fr.name, data={"held": st.aux.get("held", ())},
                   mem=dict(st.mem)))
        p = args[0] if args else None
        if p is not None and p.op == "ptr":
            st.n += 1
            eng.store(st, p.args[0], p.args[1] + (mk("pf", 0, self.view.i, self.view.sty),), mk("sym", "state", st.n, fv, ""))
        return [Out("ret", st, UNIT)]


def waits(F, fr, head):
    """does a loop wait for something asynchronously?"""
    for b in fr.heads.get(head, ()):
        t = fr.body["blocks"][b]["t"]
        if t[0] == "call" and t[1][0] == "k" and F.types[t[1][1]["t"]].get("def") == "core::future::future::Future::poll":
            return True
    return False


def abort_pair(h, r):
    """does an abort registration belong to a handle?"""
    return h.op == "aborthandle" and r.op == "abortreg" and h.args == r.args


class PoolRun:
    """one entry point with the pool and the broadcast queue given by their elements (T03, T05)"""

    def __init__(self, tk, world, name, inst):
        self.tk, self.F, self.w, self.name, self.inst = tk, tk.F, world, name, inst
        self.pool = Pool(tk)
        self.is_drop = name in tk.drops
        self.io = {}
        self.n = {}

    def scenarios(self):
        return ((), (0,), (1,), (0, 1)) if self.is_drop else ((), (0,), (0, 1))

    def guard_id(self, p, ty):
        """the field of a guard that names its connection"""
        return path_to(self.F, ty, lambda i, t: i == self.w.kty)

    def run(self, there, budget=100):
        tk, w = self.tk, self.w
        w.there = there
        # the maintenance when the pool is unlocked is judged for its own entry point with more broadcasts
        w.later = 1 if self.name in self.io else 3
        e = tk.engine(budget, inline_drop=True)
        e.unroll = 4
        e.unroll_for = lambda fr, head: 0 if waits(self.F, fr, head) else 4
        e.hooks = {"acquire": w.acquire, "callback": w.callback}
        self.me = None

        def prep(eng, st, args):
            if not self.is_drop:
                return
            eng.cur_inst = self.inst
            guard_prep(tk, eng, st, args, w.lock)
            if not st.aux.get("held"):
                return
            ty = self.F.types[self.F.insts[self.inst]["body"]["locals"][1]]["e"]
            p = self.guard_id(args[0], ty)
            if p is not None:
                self.me = eng.load(st, args[0].args[0], args[0].args[1] + proj_path(p), w.kty)
            h, = w.pool(eng, st, w.lock, st.aux["held"][-1][2], self.me)
            st.mem, st.rty, st.fact, st.aux, st.ev, st.n = h.mem, h.rty, h.fact, h.aux, h.ev, h.n
        self.eng = e
        self.outs = e.run_root(self.inst, prep=prep)
        tk.ctx.funcs |= {x for x in e.seen_fns if H not in x}
        return self.outs

    def judge(self, rule):
        for o in self.outs:
            if o.kind in ("ret", "cut", "endless"):
                self.path(o, rule)

    # --- one path
    def path(self, o, rule):
        end, evs, w = o.st, o.st.trace(), self.w
        # the end of a call, or of an iteration of a job's main loop
        self.over = o.kind == "ret" or (o.kind == "cut" and evs and evs[-1].kind == "iter" and evs[-1].name in self.tk.jobs)
        segs = []
        for i, e in enumerate(evs):
            if e.kind == "pool":
                segs.append([e, i, None])
            elif e.kind == "release" and self.tk.kind(e.args[0]) == "pool":
                for s in segs:
                    if s[0].data is e.data and s[2] is None:
                        s[2] = i
        gone = 0
        for e, i, j in segs:
            gone += self.segment(o, evs, e, i, j, rule)
        told = [x for x in evs if x.kind == "env" and x.name == NOTIFY and
                CLOSED in self.pool.notification(self.eng, end, x)]
        if self.over:
            rule("T03", len(told) == gone, "notifications",
                 "%d notifications of closed connections for %d connections removed" % (len(told), gone), end)
        self.broadcasts(o, evs, segs, rule)
        self.identities(o, evs, segs, rule)
        self.listening(o, evs, segs, rule)

    # --- IDs
    def identities(self, o, evs, segs, rule):
        eng, end, w = self.eng, o.st, self.w
        f = end.fact
        counter = proj_path(w.counter[0]) if len(w.counter) == 1 else None
        for e, i, j in segs:
            mp = e.args[0]
            seg = evs[i + 1:j if j is not None else len(evs)]
            ins = [x for x in seg if x.kind == "map" and x.name == "insert" and self.pool.is_pool(x.args[0])]
            tx = [x for x in seg if x.kind == "map" and x.name == "insert" and self.pool.is_tx(x.args[0])]
            if j is None:
                continue
            rel = at(end, evs[j])
            if counter is None:
                if ins:
                    rule("T08", None, "counter", "it cannot be told where connection IDs come from", end)
            else:
                c0 = eng.load(at(end, e), mp.args[0], counter, w.kty)
                c1 = eng.load(rel, mp.args[0], counter, w.kty)
                rule("T08", f.le(c0, c1), "counter goes back", "the next connection ID is lowered before %s" % evs[j].span, end)
            for x in ins:
                k = x.args[1]
                rule("T08", None if x.res is TRUE and counter is None else x.res is not TRUE, "ID in use", "a connection gets an ID that another one has (%s)" % x.span, end)
                if counter is not None:
                    rule("T08", f.le(c0, k) and f.lt(k, c1), "ID not used up",
                         "the ID of a new connection (%s) may have been used before or may be used again" % x.span, end)
                v = eng.load(rel, map_entry_root(mp, k), proj_path(w.cpath) + (mk("pf", 0, w.id, w.kty),), w.kty)
                rule("T08", v is k or f.eq(v, k), "ID of the connection", "a connection is stored under another ID than its own (%s)" % x.span, end)
                rule("T08", len([t for t in tx if t.args[1] is k or f.eq(t.args[1], k)]) == 1, "ID of the send queue",
                     "a connection is stored (%s) without a send queue under the same ID" % x.span, end)
                if self.over:
                    self.jobs_of(o, evs, x, k, [t for t in tx if t.args[1] is k or f.eq(t.args[1], k)], rule)

    def jobs_of(self, o, evs, x, k, tx, rule):
        """rules about the jobs started for a connection"""
        eng, end, w, F = self.eng, o.st, self.w, self.F
        f = end.fact
        val = x.args[2]
        handles = []
        for p in w.handles:
            v = val
            for t in proj_path(p):
                v = eng.proj(end, v, t)
            handles.append(v)
        started = {}
        for e in evs:
            if e.kind != "spawn":
                continue
            fut, reg = e.args[0], None
            if fut.op == "agg" and fut.args[0] == "future" and fut.args[2].args[0] == "abortable":
                fut, reg = fut.args[3], fut.args[4]
            if fut.op != "agg" or fut.args[0] != "coroutine":
                rule("T08", None, "job", "it cannot be told what is started (%s)" % e.span, end)
                return
            t = F.types[fut.args[1]]
            kind = self.io.get(t["def"])
            if kind is None:
                continue
            started.setdefault(kind, []).append((e, reg))
            caps = [v for v, ft in zip(fut.args[2:], t["f"]) if ft == w.kty or F.types[ft]["s"] == F.types[w.kty]["s"]]
            rule("T08", bool(caps) and all(v is k or f.eq(v, k) for v in caps), "ID of the %s job" % kind,
                 "the job that %ss (%s) is not started with the connection's ID" % (kind, e.span), end)
            if kind == "write" and tx:
                arcs = [v for v, ft in zip(fut.args[2:], t["f"]) if contains_ref(F, ft, TX_T)]
                want = [v for v in flat(tx[0].args[2]) if v.op == "agg" and v.args[0] == "arc"]
                if arcs and want:
                    rule("T08", any(a is b for a in arcs for b in want), "notifier of the send queue",
                         "the job that writes (%s) waits for another notifier than that of the connection's send queue" % e.span, end)
        for kind in ("read", "write"):
            rule("T08", len(started.get(kind, ())) == 1, "one job to %s" % kind,
                 "%d jobs are started to %s for one connection (%s)" % (len(started.get(kind, ())), kind, x.span), end)
        used = []
        for kind, js in started.items():
            for e, reg in js:
                own = [n for n, h in enumerate(handles) if reg is not None and abort_pair(h, reg)]
                used += own
                rule("T03", bool(own), "%s job cannot be stopped" % kind,
                     "no abort handle in the connection pool stops the job that %ss (%s)" % (kind, e.span), end)

    # --- the end of the event loop
    def listening(self, o, evs, segs, rule):
        eng, end, F = self.eng, o.st, self.F
        binds = [i for i, e in enumerate(evs) if e.kind == "lib" and e.name.endswith("UnixListener::bind")]
        accepts = [e for e in evs if e.kind == "await" and future_kind(e) == "accept"]
        rty = F.types[F.insts[self.inst]["body"]["locals"][0]]
        out = lambda: possible(eng, end, o.val, F.insts[self.inst]["body"]["locals"][0]) if rty.get("def") == "core::result::Result" else set()
        if accepts and not binds:
            e = accepts[0]
            bad = possible(eng, end, e.res, e.args[1].args[0])
            if "Err" in bad:
                rule("T09", o.kind == "ret" and out() == {"Err"}, "accept error", "an error of accept() (%s) is not reported" % e.span, end)
            elif o.kind == "ret":
                rule("T09", "Ok" not in out(), "listener ends", "the accept loop ends with success (%s)" % e.span, end)
        if not binds or o.kind != "ret":
            return
        b = evs[binds[0]]
        tys = [t for t in F.types if t["k"] == "fndef" and str(t.get("rdef") or t.get("def")).endswith("UnixListener::bind")]
        bres = possible(eng, end, b.res, tys[0]["out"]) if tys and tys[0].get("out") is not None else {"Ok", "Err"}
        if bres == {"Err"}:
            rule("T09", out() == {"Err"}, "bind error", "an error of bind() (%s) is not reported" % b.span, end)
            return
        waits_ = [i for i, e in enumerate(evs) if e.kind == "await" and i > binds[0]]
        w = evs[waits_[-1]] if waits_ else None
        # the sockets are gone
        rm = [e for e in evs if e.kind == "lib" and e.name == "std::fs::remove_file"]
        same = [e for e in rm if e.args[0] is b.args[0] or
                (e.args[0].op == "ptr" and b.args[0].op == "ptr" and map_place(e.args[0]) is map_place(b.args[0]))]
        checked = any(e.kind == "lib" and e.name.endswith("Path::exists") for e in evs)
        rule("T09", bool(same) or (False if not rm and not checked else None), "socket not removed",
             "after the server socket was opened (%s) there is a way to return without removing it" % b.span, end)
        if w is None:
            rule("T09", bool(same), "returns early", "the event loop returns without having served anything", end)
        after = binds[0] if w is None else waits_[-1]
        stopped = set()
        for e, i, j in segs:
            if i < after or j is None:
                continue
            got = [self.handle(end, x) for x in evs[i:j] if x.kind == "lib" and x.name.endswith("::AbortHandle::abort")]
            here = {k for k in e.args[1:] if all(mk("handle", e.data, k, n) in got for n in range(len(self.w.handles)))}
            if here == set(e.args[1:]):
                stopped.add(i)
        if w is not None:
            rule("T09", bool(stopped), "I/O jobs not stopped",
                 "after the event loop (%s) there is a way to return without stopping the I/O jobs of every connection" % w.span, end)
        # what is reported
        if w is not None and w.args[1].op == "ty":
            s = end
            wty = w.args[1].args[0]
            what = possible(eng, s, w.res, wty)
            if what == {"Ok"}:
                inner, ity = payload(eng, s, w.res, wty, "Ok")
                if F.types[ity].get("def") == "core::result::Result":
                    v = possible(eng, s, inner, ity)
                    if v == {"Err"}:
                        rule("T09", out() == {"Err"}, "error not reported", "an I/O error of the listener is not reported", end)
                        return
                    rule("T09", "Err" not in v or "Ok" not in out(), "error not reported", "an I/O error of the listener may not be reported", end)
            elif "Ok" in what:
                rule("T09", "Ok" not in out(), "error not reported",
                     "success is reported without looking at how the event loop ended (%s)" % w.span, end)
        # the handle that shutdown() uses
        if w is not None:
            fut = w.args[0]
            reg = fut.args[4] if fut.op == "agg" and fut.args[0] == "future" and fut.args[2].args[0] == "abortable" else None
            if reg is None:
                rule("T09", None, "shutdown", "it cannot be told how the event loop is stopped", end)
            else:
                stored = False
                for i, e in enumerate(evs[:waits_[-1]]):
                    if e.kind == "release" and "AbortHandle" in e.args[0].args[0] and self.tk.kind(e.args[0]) not in ("pool", "tx"):
                        v = eng.load(at(end, e), mk("lockdata", e.args[0], e.data), ())
                        stored = any(abort_pair(x, reg) for x in subterms(v))
                rule("T09", stored, "shutdown", "when the event loop starts waiting (%s), the handle that stops it is not stored" % w.span, end)

    def handle(self, end, ev):
        st = at(end, ev)
        p = ev.args[0]
        return self.eng.load(st, p.args[0], p.args[1]) if p.op == "ptr" else p

    def conn(self, mp, k):
        return ptr(map_entry_root(mp, k), proj_path(self.w.cpath))

    def segment(self, o, evs, e, i, j, rule):
        """rules about one critical section of the pool; the number of connections it removes"""
        eng, end, w = self.eng, o.st, self.w
        mp, keys, ep = e.args[0], e.args[1:], e.data
        seg = evs[i + 1:j if j is not None else len(evs)]
        removed = {}
        for x in seg:
            if x.kind == "map" and x.name == "remove" and map_place(x.args[0]) is map_place(mp) and x.res is TRUE:
                st = self.w.view.states(eng, at(end, x), self.conn(mp, x.args[1]))
                removed[x.args[1]] = x
                rule("T03", st == {"Teardown"}, "removes a living connection",
                     "a connection whose state may be %s is removed from the pool (%s)" % ("/".join(sorted(st - {"Teardown"})), x.span), end)
        aborted = [self.handle(end, x) for x in seg if x.kind == "lib" and x.name.endswith("::AbortHandle::abort")]
        txs = [x for x in seg if x.kind == "map" and x.name == "remove" and self.pool.is_tx(x.args[0])]
        known = {mk("handle", ep, k, n): k for k in keys for n in range(len(w.handles))}
        listener = self.name.rsplit("::", 2)[-2:] == ["run_listener", "{closure#0}"]
        if j is None:
            return len(removed)
        for k in removed:
            for n in range(len(w.handles)):
                rule("T03", mk("handle", ep, k, n) in aborted, "I/O job not stopped",
                     "a connection is removed from the pool (%s) but one of its I/O jobs is not aborted before the pool is unlocked"
                     % removed[k].span, end)
            rule("T03", any(x.args[1] is k or end.fact.eq(x.args[1], k) for x in txs), "send queue not removed",
                 "a connection is removed from the pool (%s) but its send queue is not" % removed[k].span, end)
        for x in txs:
            rule("T03", any(x.args[1] is k or end.fact.eq(x.args[1], k) for k in removed), "send queue of a living connection",
                 "the send queue of a connection that stays in the pool is removed (%s)" % x.span, end)
        if not listener:
            for h in aborted:
                if h in known:
                    rule("T03", known[h] in removed, "I/O job of a living connection",
                         "an I/O job of a connection that stays in the pool is aborted", end)
                else:
                    rule("T03", None if h.op != "handle" else False, "unknown abort handle", "it cannot be told what is aborted", end)
        rel = at(end, evs[j])
        cont = eng.load(rel, mp.args[0], mp.args[1])
        if cont.op != "maplit":
            rule("T03", None, "pool", "the content of the pool cannot be told when it is unlocked", end)
            return len(removed)
        for k in cont.args:
            s = w.view.states(eng, rel, self.conn(mp, k))
            rule("T03", "Teardown" not in s, "stays in teardown",
                 "the pool is unlocked (%s) while it holds a connection that may be in teardown" % evs[j].span, end)
            if any(x.kind == "callback" and self.target(mp, x) is k for x in seg):
                rule("T05", "Teardown" not in s, "not cleaned up",
                     "the pool is unlocked (%s) while a connection that a broadcast may have put into teardown is still there"
                     % evs[j].span, end)
        for k in keys:
            if k not in removed:
                rule("T03", k in cont.args, "connection lost", "a connection disappears from the pool", end)
        return len(removed)

    # --- broadcasts
    def elements(self, st, root):
        v = self.eng.load(st, root, ())
        if v.op == "agg" and v.args[0] == "vec" and v.args[2].op == "arrlit" and v.args[3].op == "int" \
                and v.args[3].args[0] == len(v.args[2].args):
            return list(v.args[2].args)
        return None

    def broadcasts(self, o, evs, segs, rule):
        eng, end, w = self.eng, o.st, self.w
        drained = []              # (event number, broadcast)
        lastpush = -1
        for i, e in enumerate(evs):
            if e.kind != "bcasts":
                continue
            root, old = e.args[0].args[0], list(e.args[1:])
            rel = [j for j in range(i, len(evs)) if evs[j].kind == "release" and evs[j].data is e.data]
            if not rel:
                continue
            new = self.elements(at(end, evs[rel[0]]), root)
            if new is None:
                rule("T05", None, "queue", "the broadcast queue cannot be told after it was used", end)
                return
            kept = [x for x in new if x in old]
            out = [x for x in old if x not in kept]
            rule("T05", new[:len(kept)] == kept and kept == [x for x in old if x in kept] and out == old[:len(out)], "order of the queue",
                 "what stays in the broadcast queue (%s) is not its tail, in order" % evs[rel[0]].span, end)
            added = new[len(kept):]
            if added:
                lastpush = i
            if self.name.endswith("::enqueue_broadcast") and i == min(k for k, x in enumerate(evs) if x.kind == "bcasts"):
                pass
            drained += [(rel[0], x) for x in out]
        if self.name.endswith("::enqueue_broadcast") and o.kind == "ret":
            act = self.action()
            pushes = [e for e in evs if e.kind == "bcasts" and self.pushed(o, evs, e, act)]
            direct = [e for e in evs if e.kind == "callback" and self.same(e.args[0], act)]
            rule("T05", len(pushes) == 1 or (not pushes and bool(direct)), "not queued",
                 "a broadcast is %s" % ("put into the queue %d times" % len(pushes) if pushes else "dropped"), end)
        # what was taken out is applied to every connection, once and in order
        calls_ = [(i, e) for i, e in enumerate(evs) if e.kind == "callback"]
        for i, x in drained:
            mine = [(j, c) for j, c in calls_ if self.same(c.args[0], x)]
            seg = [s for s in segs if any(s[1] < j and (s[2] is None or j < s[2]) for j, c in mine)]
            if not seg:
                seg = [s for s in segs if s[2] is None or s[2] > i][:1]
            if not seg:
                rule("T05", not self.over, "broadcast lost",
                     "a broadcast is taken out of the queue (%s) but applied to nothing" % evs[i].span, end)
                continue
            if len(seg) > 1:
                rule("T05", False, "applied twice", "a broadcast is applied in two passes over the pool", end)
                continue
            s, = seg
            if s[2] is None:
                continue
            mp = s[0].args[0]
            first = min([j for j, c in mine] + [s[2]])
            before = at(end, evs[first])
            cont = eng.load(before, mp.args[0], mp.args[1])
            rel = at(end, evs[s[2]])
            left = eng.load(rel, mp.args[0], mp.args[1])
            if cont.op != "maplit" or left.op != "maplit":
                rule("T05", None, "pool", "the content of the pool cannot be told", end)
                return
            for k in cont.args:
                hit = [j for j, c in mine if self.target(mp, c) is k]
                if len(hit) == 0:
                    dead = k not in left.args or w.view.states(eng, rel, self.conn(mp, k)) == {"Teardown"}
                    rule("T05", dead, "broadcast not applied",
                         "a broadcast taken out of the queue (%s) is not applied to every connection in the pool" % evs[i].span, end)
                else:
                    rule("T05", len(hit) == 1, "applied twice",
                         "a broadcast (%s) is applied %d times to a connection" % (mine[0][1].span, len(hit)), end)
        order = {}
        for j, c in calls_:
            pos = [n for n, (i, x) in enumerate(drained) if self.same(c.args[0], x)]
            if pos:
                t = c.args[1] if len(c.args) > 1 else None
                rule("T05", order.get(t, -1) <= pos[0], "order of broadcasts",
                     "broadcasts are not applied in the order in which they were queued (%s)" % c.span, end)
                order[t] = pos[0]
        # nothing is left waiting: after the last release of the pool the queue was seen empty, or the pool is taken
        last = max([s[2] for s in segs if s[2] is not None] + [lastpush], default=-1)
        if self.over and last >= 0 and not self.name.endswith("run_listener::{closure#0}"):
            seen = any((e.kind == "bcasts" and len(e.args) == 1) or
                       (e.kind == "tryfail" and self.tk.kind(e.args[0]) == "pool") for e in evs[last + 1:])
            rule("T05", seen, "broadcast left waiting",
                 "after the pool is unlocked, the broadcast queue is not checked for broadcasts queued meanwhile", end)

    def target(self, mp, c):
        p = c.args[1] if len(c.args) > 1 else None
        if p is None or p.op != "ptr" or p.args[0].op != "entry" or p.args[0].args[0] is not map_place(mp):
            return None
        return p.args[0].args[1]

    def same(self, fv, x):
        return fv is x or mentions(fv, x)

    def action(self):
        return mk("sym", "arg", 2, "")

    def pushed(self, o, evs, e, act):
        rel = [x for x in evs if x.kind == "release" and x.data is e.data]
        new = self.elements(at(o.st, rel[0]), e.args[0].args[0]) if rel else None
        return bool(new) and any(mentions(x, act) for x in new if x not in e.args[1:])


def pool_rules(ctx, pid, tk, needed=()):
    lock = pool_lock(tk)
    world = World(tk, lock)
    roots = []
    for name, inst, inl in tk.roots():
        if name.rsplit("::", 1)[1] in WITH_CONN:
            continue               # these run with the pool locked by their caller
        if name in tk.drops:
            roots.append((name, inst))
            continue
        e, outs = tk.run(name, inst, inline_drop=inl)
        if outs is not None and any(ev.kind in ("acquire", "release") and tk.kind(ev.args[0]) == "pool" and
                                    (name not in tk.jobs or ev.kind == "release") for ev, _ in events(outs)):
            roots.append((name, inst))
    ctx.floor("entry points that lock the pool", len(roots), 4)
    io = {d: k for d, (k, i) in io_jobs(ctx, tk).items()}
    n, keys = {}, set()
    for name, inst in roots:
        r = PoolRun(tk, world, name, inst)
        r.io = io
        for there in r.scenarios():
            try:
                r.run(there)
            except (Budget, Unsupported) as x:
                ctx.oblige(None, name, "no answer for %s (%s)" % (name, x))
                continue

            def rule(p, good, key, text, where_):
                if p != pid:
                    return
                n[name] = n.get(name, 0) + 1
                keys.add(key)
                if good is False and where_ is not None and where_.taint:
                    good = None
                    text += " [%s]" % (str(where_.taint)[:200],)
                ctx.oblige(good, "%s: %s" % (name, key), text)
            r.judge(rule)
            if any(o.kind == "unknown" for o in r.outs):
                ctx.oblige(None, name, "%s: a path is not known (%s)" % (name, next(
                    str(o.st.taint[-1:])[:150] for o in r.outs if o.kind == "unknown")))
    ctx.floor("rule instances", sum(n.values()), 30)
    for x in needed:
        ctx.floor("instances of the rule `%s`" % x, 1 if x in keys else 0, 1)
    ctx.cov["entry_points"] = {k: v for k, v in sorted(n.items())}


def traces(outs):
    """all event lists: those of the paths and those of the loops' bodies; with the final state"""
    seen = set()

    def walk(tr, end):
        yield tr, end
        for e in tr:
            if e.kind == "loop" and id(e.data) not in seen:
                seen.add(id(e.data))
                for b, s in zip(e.data["bodies"], e.data["states"]):
                    yield from walk(b, s)
    for o in outs:
        yield from walk(o.st.trace(), o.st)


def own_connection(ctx, tk, lock):
    """code that gets mutable access to a connection through a guard gets the one that the guard examines when it is dropped"""
    F, pool = tk.F, Pool(tk)
    w = World(tk, lock)
    n = 0
    for name, inst in sorted(tk.jobs.items()):
        e, outs = tk.run(name, inst)
        for tr, end in traces(outs or ()):
            got = []
            for ev in tr:
                if ev.kind == "map" and pool.is_pool(ev.args[0]) and ev.name in ("get_mut", "values_mut", "iter_mut"):
                    got.append(ev)
                elif ev.kind == "dropimpl" and got:
                    gs = [t for t in F.types if t.get("def") == ev.name]
                    p = path_to(F, [i for i, t in enumerate(F.types) if t.get("def") == ev.name][0], lambda i, t: i == w.kty)
                    if p is not None:
                        st = at(end, ev)
                        me = e.load(st, ev.args[0].args[0], ev.args[0].args[1] + proj_path(p), w.kty)
                        for g in got:
                            n += 1
                            good = g.name == "get_mut" and (g.args[1] is me or end.fact.eq(g.args[1], me))
                            if not good and end.taint:
                                good = None
                            ctx.oblige(good, "%s: access to another connection" % name,
                                       "%s gets mutable access to a connection (%s) other than the one that is examined "
                                       "when the pool is unlocked (%s)" % (name, g.span, ev.span))
                    got = []
    ctx.floor("accesses to a connection", n, 2)


@check("T03")
def t03(ctx):
    """Typestate over the abstract traces of every entry point of the dispatch that unlocks the connection pool (Drop impls
    of guards, accept loop, broadcasts), with the pool and the broadcast queue given by their elements: the pool holds up to
    two connections, none in teardown except for the one a guard gave access to, and the queue, whenever it is locked, no or
    up to two broadcasts, each of which may put a connection into any state. At every unlocking of the pool no connection
    that is still there may be in teardown (so the assumption is an invariant); one is only removed if its state is provably
    Teardown, then both abort handles of its entry were used and its send queue was removed in the same critical section,
    and nobody else's were; as many ConnectionClosed notifications are sent as connections were removed. In the jobs, the
    connection that a guard hands out is the one whose state its Drop impl examines."""
    tk = Tokio(ctx)
    pool_rules(ctx, "T03", tk, ("read job cannot be stopped", "write job cannot be stopped", "removes a living connection"))
    own_connection(ctx, tk, pool_lock(tk))


@check("T05")
def t05(ctx):
    """Typestate over the abstract traces of every entry point that unlocks the connection pool or queues a broadcast, with
    the pool (up to two connections) and the broadcast queue (up to two broadcasts whenever it is locked) given by their
    elements, see T03. enqueue_broadcast leaves the broadcast in the queue, once; every broadcast taken out of the queue is
    applied, in one critical section, exactly once to every connection in the pool (none only if that connection is in
    teardown), in queue order, and no connection that it may have put into teardown is left in the pool; after the last unlocking of the pool, and after the queue grew, the queue is seen empty or
    the pool is found locked by someone else, who then has to do the same."""
    tk = Tokio(ctx)
    pool_rules(ctx, "T05", tk, ("not queued", "applied twice", "broadcast left waiting"))


def flat(t):
    """a term and the values it is made of"""
    return subterms(t)


def contains_ref(F, ty, adt):
    return contains(F, ty, adt)


@check("T08")
def t08(ctx):
    """Value flow on the abstract traces of every entry point that locks the connection pool (see T03), under the invariant
    that all IDs in the pool are below the pool's counter: whatever is inserted into the pool gets a key that is at least
    the counter when the pool was locked and below the counter when it is unlocked, the counter never goes down, no
    insertion replaces an entry, the connection object carries the key as its ID, one send queue is inserted under the same
    key in the same critical section, and exactly one job that reads and one that writes are spawned, whose captured IDs
    are that key; the writing job captures the notifier of that send queue."""
    tk = Tokio(ctx)
    pool_rules(ctx, "T08", tk, ("ID in use", "ID of the read job", "ID of the write job"))


@check("T09")
def t09(ctx):
    """Typestate on the abstract traces of the function that binds the listener, of the accept loop and of `shutdown`, with
    the connection pool given by its elements (see T03): on every path on which the socket was bound, after the last await
    there is a critical section of the pool in which both abort handles of every connection are used, and `remove_file` is
    called on the path that was bound; when the accept loop ended with an error, or its result was not examined, `Ok` cannot
    be returned; an error of `accept` ends the accept loop with that error; the abort handle stored when the event loop
    starts to wait is that of the registration it waits with; `shutdown` uses the handle it finds."""
    tk = Tokio(ctx)
    pool_rules(ctx, "T09", tk, ("socket not removed", "I/O jobs not stopped", "accept error", "shutdown"))
    n = 0
    for d, inst in sorted(tk.public.items()):
        if not d.endswith("::shutdown"):
            continue
        e, outs = tk.run(d, inst, inline_drop=True)
        for o in outs or ():
            if o.kind != "ret":
                continue
            n += 1
            evs = o.st.trace()
            acq = [x for x in evs if x.kind == "acquire" and "AbortHandle" in x.args[0].args[0]]
            done = any(x.kind == "lib" and x.name.endswith("::AbortHandle::abort") for x in evs)
            can = {"Some"}
            if acq:
                st = at(o.st, acq[0])
                ty = [t["args"][0] for t in tk.F.types if t["s"] == acq[0].args[0].args[0]][0]
                if tk.F.types[ty].get("def") == "core::option::Option":
                    can = possible(e, st, e.load(st, mk("lockdata", *acq[0].args), (), ty), ty)
            good = done or can == {"None"}
            if not good and o.st.taint:
                good = None
            ctx.oblige(good, "shutdown", "%s may return without stopping the event loop" % d)
    ctx.floor("paths through shutdown", n, 2)
