"""No client input can panic the server (K06)"""
from . import check
from .common import *
from .server import incoming
from .handlers import handlers
from .tokio import Tokio, World, PoolRun, EnqJob, TxJob, WITH_CONN, io_jobs, pool_lock, events

ALLOWED = {"enqueue_message": {"Handshake", "Msgio"}, "enqueue_stdin": {"Stdin"}}


def counter(o):
    """overflow of a 64-bit number that would have to be counted up to"""
    return o.why.startswith("Overflow:Add") and any(
        (lambda lo, hi: lo is not None and lo == hi == 2 ** 64 - 1)(*o.st.fact.bounds(a)) for a in o.st.fact.dom)


@check("K06")
def k06(ctx):
    """Reachability of panics (failed assertions, index and slice bounds, arithmetic overflow, unwrap on None or Err, explicit
    panics) in abstract interpretation of everything that runs on behalf of a client: Connection::handle_incoming on
    any received bytes, the library's handlers on any decoded message, the broadcasts they queue, the methods that queue
    output (send queues given by their elements, any renderer, including failure), the jobs of the tokio server and the guard
    drops with any pool. Output may only be asked for in a mode in which the methods that queue it do not panic."""
    incoming(ctx, "K06", 1)
    handlers(ctx, "K06", {"handshake": 1, "msg": 1, "reject": 0, ("handshake", "handle_error"): 0, ("msg", "handle_error"): 0,
                          ("reject", "handle_error"): 0, ("msg", "get_supported_module_version"): 0,
                          ("reject", "get_supported_module_version"): 0})
    tk = Tokio(ctx)
    lock = pool_lock(tk)
    io = {d: k for d, (k, i) in io_jobs(ctx, tk).items()}
    n = 0

    def report(name, outs, fine=lambda o: False, queued=False):
        nonlocal n
        seen = set()
        for o in outs or ():
            n += 1
            if o.kind == "unknown":
                ctx.oblige(None, name, "%s: a path is not known (%s)" % (name, str(o.st.taint[-1:])[:120]))
                continue
            bad = o.kind == "panic" and not fine(o) and not counter(o)
            if not bad:
                ctx.oblige(True, "", "")
                continue
            key = "%s: %s in %s" % (name, o.why, where(o))
            if key not in seen:
                seen.add(key)
                good = None if o.st.taint or widened(o) else False
                kinds = {ev.kind for ev in o.st.trace()}
                if queued and "map" in kinds and "queue" not in kinds:
                    good = None     # the connection has no send queue: not while it is alive (T03)
                ctx.oblige(good, key, "%s: panic (%s) at %s" % (name, o.why, o.span),
                           **({"facts": [x[:200] for x in show_facts(o.st.fact)][:30]} if good is False else {}))
    for d, i in sorted(tk.methods.items()):
        m = d.rsplit("::", 1)[1]
        if m not in WITH_CONN:
            continue
        j = EnqJob(tk, d, i, lock)
        try:
            outs = j.run()
        except (Budget, Unsupported) as x:
            ctx.oblige(None, d, "no answer for %s (%s)" % (d, x))
            continue

        def fine(o):
            """asked for output in a mode that has none: the caller's fault (ruled out below)"""
            s = o.st.copy()
            s.mem = dict(j.entry.mem)
            return not j.pool.view.states(j.eng, s, j.args[1]) & ALLOWED.get(m, {"Handshake", "Msgio", "Stdin", "Stdout", "Teardown"})
        report(d, outs, fine, True)
    for d, (k, i) in sorted(io_jobs(ctx, tk).items()):
        if k != "write":
            continue
        j = TxJob(tk, d, i)
        try:
            report(d, j.run())
        except (Budget, Unsupported) as x:
            ctx.oblige(None, d, "no answer for %s (%s)" % (d, x))
    world = World(tk, lock)
    for name, inst, inl in tk.roots():
        if name.rsplit("::", 1)[1] in WITH_CONN:
            continue
        if name not in tk.drops:
            e, outs = tk.run(name, inst, inline_drop=inl)
            if outs is None:
                continue
            if not any(ev.kind in ("acquire", "release") and tk.kind(ev.args[0]) == "pool" for ev, _ in events(outs)):
                report(name, outs)
                continue
        if io.get(name) == "write":
            continue                # followed above, with the send queue
        r = PoolRun(tk, world, name, inst)
        r.io = io
        for there in r.scenarios():
            if ctx.tier == "quick" and len(there) == 1:
                continue
            try:
                report(name, r.run(there))
            except (Budget, Unsupported) as x:
                ctx.oblige(None, name, "no answer for %s (%s)" % (name, x))
    ctx.floor("paths of the tokio server", n, 300)
    ctx.assumptions += ["locks are not poisoned and memory does not run out", "a 64-bit counter is not counted to its end",
                        "Message::parse and the decoding of messages do not panic (W01, W07); the send buffer's methods (T10)",
                        "application code (the Application and connector traits) does not panic"]
