"""The message parser against the grammar of messages (W02, W03, W04)"""
from . import check
from .common import *
from ..models import content, select_u8, arr_of
from ..engine import agg, some, NONE, slice_, ptr
from ..run import ToolError
from ..terms import subterms
from ..dom import iv_inter

DIGIT = ((48, 57),)
MTYPE = "vt6::common::core::identifiers::MessageType::parse"


def mtype_parse(eng, st, c):
    """MessageType::parse by its contract (I01): accepts or rejects, the result is the type of these bytes"""
    if c.args[0].op != "slice":
        return None
    x = content(eng, st, c.args[0])
    g = st.copy()
    st.emit(Ev("mtype", "bad", (x,), None, c.span, c.frame.name))
    v = eng.mksym(g, eng.T[c.dty]["v"][1][0], "mtype", x)
    g.emit(Ev("mtype", "ok", (x,), v, c.span, c.frame.name))
    return [(st, NONE), (g, some(v))]


class Verdict(Exception):
    """where reading the message ends: "beyond" the buffer, at a "wrong" byte, at bytes that were not "unexamined\""""

    def __init__(self, kind, what):
        self.kind, self.what = kind, what


class Reader:
    """reads a message according to the grammar, using only what the facts of a path say about the bytes"""

    def __init__(self, eng, st, arr, off, ln, fact):
        self.eng, self.st, self.arr, self.off, self.ln = eng, st, arr, off, ln
        self.f = fact
        self.parsed = [e for e in st.trace() if e.kind == "parseint"]
        self.types = [e for e in st.trace() if e.kind == "mtype"]
        self.bytes = [k for k in self.f.dom if k.op == "sel" and k.args[0] is arr]
        self.items = []
        self.p = off

    def canon(self, p):
        """the index under which the analysed code knows a position"""
        for k in self.bytes:
            if k.args[1] is p:
                return p
        for k in self.bytes:
            if self.f.eq(k.args[1], p):
                return k.args[1]
        return p

    def at(self, i):
        """is there a byte at this position?"""
        f = self.f
        end = add(self.off, self.ln)
        if f.lt(i, end):
            return True
        if f.le(end, i):
            return False
        raise Verdict("unexamined", "the end of the buffer")

    def is_in(self, i, ivs, what):
        """True or False"""
        i = self.canon(i)
        b = select_u8(self.eng, self.st, self.arr, i)
        if b.op == "int":
            return any(lo <= b.args[0] <= hi for lo, hi in ivs)
        d = self.f.dom.get(b)
        if d is not None:
            if not iv_inter(d, ivs):
                return False
            if all(any(lo <= a and c <= hi for lo, hi in ivs) for a, c in d):
                return True
        raise Verdict("unexamined", what)

    def char(self, c, what):
        if not self.at(self.p):
            raise Verdict("beyond", what)
        if not self.is_in(self.p, ((ord(c), ord(c)),), what):
            raise Verdict("wrong", what)
        self.p = addc(self.p, 1)

    def number(self, what):
        p = self.p = self.canon(self.p)
        d = 0
        more = None
        while d <= 40:
            if not self.at(addc(p, d)):
                more = True
                break
            if not self.is_in(addc(p, d), DIGIT, what):
                break
            d += 1
        if d == 0:
            raise Verdict("beyond" if more else "wrong", what)
        if d > 1 and self.is_in(p, ((48, 48),), "leading zeroes"):
            raise Verdict("wrong", "leading zeroes")
        v = I(0)
        for i in range(d):
            b = select_u8(self.eng, self.st, self.arr, self.canon(addc(p, i)))
            v = add(scale(v, 10), addc(b, -48))
        for e in self.parsed:
            x = e.args[0]
            if x.op == "slice" and self.mine(x) and self.f.eq(x.args[2], p) and self.f.eq(x.args[3], I(d)):
                if e.data == "error":
                    raise Verdict("wrong", "number too large")
                v = e.res
        if more:
            raise Verdict("beyond", what)
        self.p = addc(p, d)
        return v

    def mine(self, x):
        return x.args[0].op == "cv" and x.args[0].args[0] is self.arr or x.args[0].op == "const"

    def item(self, what):
        n = self.number("length of " + what)
        self.char(":", "colon")
        start = self.p
        end = add(start, n)
        lim = add(self.off, self.ln)
        if not self.f.le(end, lim):
            if self.f.lt(lim, end) or self.f.le(lim, end):
                raise Verdict("beyond", "content of " + what)
            raise Verdict("unexamined", "the end of the buffer in " + what)
        self.p = self.canon(end)
        self.items.append((start, n))
        self.char(",", "comma")

    def message_type(self):
        start, n = self.items[0]
        res = None
        for e in self.types:
            x = e.args[0]
            if x.op == "slice" and self.mine(x) and self.f.eq(x.args[2], start) and self.f.eq(x.args[3], n):
                res = e.name
        if res is None:
            for k, d in self.f.dom.items():
                if k.op == "utf8" and k.args[0].op == "slice" and self.mine(k.args[0]) and \
                        self.f.eq(k.args[0].args[2], start) and self.f.eq(k.args[0].args[3], n) and d == ((0, 0),):
                    res = "bad"
        if res == "bad":
            raise Verdict("wrong", "message type")
        if res is None:
            raise Verdict("unexamined", "message type")

    def message(self):
        self.char("{", "opening brace")
        n = self.number("number of items")
        self.char("|", "bar")
        while True:
            k = len(self.items)
            if self.f.eq(n, I(k)):
                break
            if not self.f.lt(I(k), n):
                raise Verdict("unexamined", "whether there are more than %d items" % k)
            self.item("item %d" % (k + 1))
            if k == 0:
                self.message_type()
        if not self.items:
            raise Verdict("wrong", "message type")
        self.char("}", "closing brace")

    def read(self):
        """(verdict, at what)"""
        try:
            self.message()
        except Verdict as v:
            return v.kind, v.what
        return "done", "end"


def wrapped(f):
    return sorted({x for e in list(f.les) + list(f.eqs) for x in subterms(e) if x.op == "wrapq"}, key=lambda x: x.id)


def numbers(f):
    return sorted({x for e in list(f.les) + list(f.eqs) + list(f.dom) for x in subterms(e)
                   if x.op == "parseint" and x.args[0].op == "slice"}, key=lambda x: x.id)


def close(f):
    """the same bytes are the same number; None: contradiction"""
    known = set()
    while True:
        new = False
        ps = numbers(f)
        for i, a in enumerate(ps):
            for b in ps[:i]:
                p, q = a.args[0].args, b.args[0].args
                if (a, b) in known or p[0] is not q[0] or a.args[1:] != b.args[1:]:
                    continue
                if f.eq(p[2], q[2]) and f.eq(p[3], q[3]):
                    known.add((a, b))
                    f = f.add_eq(sub(a, b))
                    if f is None:
                        return None
                    new = True
        if not new:
            return f


def settle(f):
    """one set of facts per possible overflow of the sums that wrap around"""
    done = set()
    fs = [f]
    while True:
        qs = [q for q in wrapped(fs[0]) if q not in done] if fs else []
        if not qs:
            return fs
        q = qs[0]
        done.add(q)
        new = []
        for g in fs:
            lo, hi = g.bounds(q)
            lo, hi = max(lo, -2), min(hi, 3)
            if not g.infeasible_with([addc(q, 1 - lo)]) or not g.infeasible_with([sub(I(hi + 1), q)]):
                new.append(g)
                continue
            for k in range(lo, hi + 1):
                if g.infeasible_with([addc(q, -k), sub(I(k), q)]):
                    continue
                h = g._setdom(q, ((k, k),))
                h = h and close(h)
                if h is not None:
                    new.append(h)
        fs = new


def congruent(f):
    """are the facts about bytes consistent: equal positions have equal bytes"""
    sel = [(k, d) for k, d in f.dom.items() if k.op == "sel"]
    for i, (a, x) in enumerate(sel):
        for b, y in sel[:i]:
            if a.args[0] is b.args[0] and not iv_inter(x, y) and f.eq(a.args[1], b.args[1]):
                return False
    ok = [(k, d) for k, d in f.dom.items() if k.op in ("parses", "utf8") and k.args[0].op == "slice"]
    for i, (a, x) in enumerate(ok):
        for b, y in ok[:i]:
            p, q = a.args[0].args, b.args[0].args
            if a.op == b.op and p[0] is q[0] and not iv_inter(x, y) and f.eq(p[2], q[2]) and f.eq(p[3], q[3]):
                return False
    return True


def other_facts(r):
    """is there anything known about the buffer that the reader does not understand?"""
    for k in list(r.f.dom):
        if k.op in ("sel", "parseint", "parses", "wrap", "wrapq", "utf8", "len"):
            continue
        if any(x is r.arr for x in subterms(k)):
            return True
    for e in list(r.f.les) + list(r.f.eqs):
        if any(x.op == "lv" for x in subterms(e)):
            return True
    return bool(getattr(r.f, "all", None)) and any(r.arr in subterms(x[0] if isinstance(x, tuple) else x) for x in r.f.all)


def paths(ctx, name, unroll, budget=200, kinds=("ret",)):
    F = ctx.facts()
    e = engine(F, budget, anchors={MTYPE: mtype_parse})
    e.merge = False
    e.unroll = unroll
    try:
        outs = e.run_root(harness_fn(F, name))
    except (Budget, Unsupported) as x:
        ctx.oblige(None, name, "no answer (%s)" % x)
        outs = []
    ctx.funcs |= {f for f in e.seen_fns if H not in f}
    for o in outs:
        if o.kind in kinds:
            yield e, o


def readers(e, o):
    x = e.root_args[0]
    for f in settle(o.st.fact):
        yield Reader(e, o.st, arr_of(e, o.st, x), x.args[2], x.args[3], f)


def one(ctx, pid, o, obs, res, r):
    verdict, what = r.read()
    unsure = bool(o.st.taint) or verdict == "unexamined" and other_facts(r)

    def rule(who, good, key, text):
        if who == pid and (good or congruent(r.f)):
            ctx.oblige(None if not good and unsure else good, key, text,
                       **({"facts": [x[:200] for x in show_facts(o.st.fact)][:40]} if not good else {}))
    if res == "accepted":
        rule("W02", verdict == "done", "accepted: " + what,
             {"wrong": "a message is accepted that is not one: %s" % what,
              "beyond": "a message is accepted although the buffer ends before its end (%s)" % what,
              "unexamined": "a message is accepted without looking at all of it: %s" % what}.get(verdict, ""))
        if verdict == "done":
            rule("W02", r.f.eq(obs["accepted"], sub(r.p, r.off)), "message length",
                 "the length reported for a message is not the number of bytes it occupies")
            v = obs["type"]
            where_ = [v] + [k for k in r.f.dom if k.op == "disc" and len(v.args) == 2]
            good = [t for t in r.types if t.name == "ok" and any(t.res is u for x in where_ for u in subterms(x))]
            rule("W02", bool(good) or None, "message type", "the type of a message is not its first item")
    elif res == "incomplete":
        rule("W03", verdict == "beyond", "incomplete: " + what,
             {"wrong": "invalid input is reported as incomplete: %s" % what,
              "done": "a complete message is reported as incomplete",
              "unexamined": "input is reported as incomplete although nothing beyond its end is needed yet: %s" % what}.get(verdict, ""))
    else:
        rule("W03", verdict != "beyond", "invalid: " + what,
             "a message that is merely incomplete is reported as invalid (%s)" % what)
        rule("W02", verdict not in ("done",), "rejected", "a valid message is rejected")
        if verdict == "unexamined":
            rule("W02", False, "invalid: " + what, "input is rejected although it may be the beginning of a message (%s)" % what)


def judge(ctx, pid, unroll):
    n = {}
    for e, o in paths(ctx, "w02_parse", unroll):
        obs = {ev.name: ev.args[0] for ev in o.st.trace() if ev.kind == "observe"}
        res = [x for x in ("accepted", "incomplete", "invalid") if x in obs]
        if len(res) != 1:
            continue
        res = res[0]
        for r in readers(e, o):
            n[res] = n.get(res, 0) + 1
            one(ctx, pid, o, obs, res, r)
    for k in ("accepted", "incomplete", "invalid"):
        ctx.floor("paths of the parser that end with %s" % k, n.get(k, 0), 4)


@check("W02")
def w02(ctx):
    """Abstract interpretation of Message::parse on an arbitrary buffer with the loops peeled: on every path a reader of the
    documented grammar must be able to read the message using only the facts that the path has established about the
    bytes (and the lengths and digits); accepted: up to the closing brace, which ends at the length reported; rejected
    (other than for being incomplete): up to a byte, number or message type that is wrong. MessageType::parse is
    represented by its contract (I01). In addition, with the loops widened: whatever number of items is announced, that
    many are read before a message is accepted."""
    judge(ctx, "W02", 2 if ctx.tier == "quick" else 3)
    announced(ctx, False)


@check("W03")
def w03(ctx):
    """Abstract interpretation of Message::parse and ParseError::is_incomplete on an arbitrary buffer with the loops peeled:
    on every path that ends with an incomplete message, a reader of the documented grammar must arrive at the end of the
    buffer with everything before it known to be correct; on every other error path it must not arrive there."""
    judge(ctx, "W03", 2 if ctx.tier == "quick" else 3)


@check("W04")
def w04(ctx):
    """Abstract interpretation of a client that parses an arbitrary buffer and iterates the arguments twice, with the loops
    peeled: on every path, the arguments seen are exactly (position and length) the items that a reader of the documented
    grammar finds in the buffer, their number is the one announced, and length and size hint count down with it.
    In addition, an iterator and its copies agree at every step of the iteration."""
    n = 0
    for e, o in paths(ctx, "w04_arguments", 2):
        obs = [ev for ev in o.st.trace() if ev.kind == "observe"]
        if not obs:
            continue
        for r in readers(e, o):
            verdict, what = r.read()
            if verdict != "done":
                continue            # W02
            n += 1
            compare(ctx, r, obs, o)
    ctx.floor("paths on which arguments are iterated", n, 4)
    announced(ctx)
    for e, o in paths(ctx, "w04_iterate", 1 if ctx.tier == "quick" else 2, kinds=("ret", "panic")):
        if o.kind == "ret":
            ctx.obligations += 1
            ctx.discharged += 1
        elif any(congruent(g) for g in settle(o.st.fact)):
            ctx.oblige(None if o.st.taint else False, "iterate: " + o.why, "%s (%s) at %s" % (o.why, where(o), o.span),
                       facts=[x[:200] for x in show_facts(o.st.fact)][:40])


def announced(ctx, length=True):
    """the length of the iterator is the number of items that the message announces, less the message type, whatever it is"""
    F = ctx.facts()
    e = engine(F, 60, anchors={MTYPE: mtype_parse})
    e.merge = False
    try:
        outs = e.run_root(harness_fn(F, "w04_announced"))
    except (Budget, Unsupported) as x:
        return ctx.oblige(None, "announced", "no answer (%s)" % x)
    n = 0
    for o in outs:
        obs = [ev.args[0] for ev in o.st.trace() if ev.kind == "observe"]
        if o.kind != "ret" or not obs:
            continue
        n += 1
        f, x = o.st.fact, obs[0]
        counts = [k for k in numbers(f) if k.args[0].args[2] is I(1)]
        if not counts:
            ctx.oblige(None, "announced", "the number of items is not understood")
            continue
        good = any(f.eq(x, addc(k, -1)) for k in counts)
        sure = all(f.ne(x, addc(k, -1)) for k in counts) and not o.st.taint and not any(y.op == "lv" for y in subterms(x))
        if length:
            ctx.oblige(good or (False if sure else None), "announced",
                       "the arguments of a message are not as many as it announces, less one for its type",
                   facts=[y[:200] for y in show_facts(f)][:40])
        # items read on the path, and in each round of the loops on it
        items, fixed = read_items(e, o, counts)
        if items is None:
            ctx.oblige(None, "items", "it is not understood how many items are read before a message is accepted (%s)" % fixed)
            continue
        good = any(f.eq(items, k) for k in counts)
        sure = fixed and all(f.ne(items, k) for k in counts) and not o.st.taint
        ctx.oblige(good or (False if sure else None), "items", "a message is accepted after reading another number of items than it announces",
                   facts=[y[:200] for y in show_facts(f)][:40])
    ctx.floor("outcomes with a parsed message", n, 1)


def read_items(e, o, counts):
    """(how many numbers other than the announced count have been read, is that a fixed number?); None, why"""
    def lengths(evs):
        return len({ev.res for ev in evs if ev.kind == "parseint" and ev.res is not None and ev.res not in counts})
    items = I(lengths(o.st.trace()))
    fixed = True
    for ev in o.st.trace():
        if ev.kind != "loop":
            continue
        info = ev.data
        per = {lengths(b) for b in info["bodies"]}
        if per <= {0}:
            continue
        if len(per) != 1:
            return None, "different rounds"
        rounds = None
        for loc, (srt, ty) in info["locs"].items():
            w = e.get_leaf(info["entry"], loc)
            if srt in ("", "bool") or w is None:
                continue
            a = e.leaf_atom(loc, srt, info["head"])
            d = {sub(x, a) if x is not None and x.op != "bad" else None for x in (e.get_leaf(s, loc) for s in info["states"])}
            d = d.pop() if len(d) == 1 else None
            if d is not None and d.op == "int" and d.args[0] in (1, -1):
                rounds = scale(sub(a, w), d.args[0])
                lo, hi = o.st.fact.bounds(rounds)
                if lo == hi is not None:
                    break
        if rounds is None:
            return None, "no counter"
        lo, hi = o.st.fact.bounds(rounds)
        fixed = fixed and lo == hi and lo is not None
        items = add(items, scale(rounds, per.pop()))
    return items, fixed


def compare(ctx, r, obs, o):
    f = r.f
    unsure = bool(o.st.taint)

    def rule(good, key, text):
        if not good and not congruent(f):
            return
        ctx.oblige(None if not good and unsure else good, key, text,
                   **({"facts": [x[:200] for x in show_facts(o.st.fact)][:40]} if not good else {}))
    args = r.items[1:]
    i = j = 0
    again = False
    for ev in obs:
        v = ev.args[0]
        if ev.name == "len":
            rule(f.eq(v, I(len(args) - i)), "length", "the length reported is not the number of arguments still to come")
        elif ev.name == "hint":
            lo, hi = v.args[2:4] if v.op == "agg" and len(v.args) == 4 else (None, None)
            good = lo is not None and f.eq(lo, I(len(args) - i)) and hi.op == "agg" and hi.args[1] == 1 and \
                f.eq(hi.args[2], I(len(args) - i))
            rule(good, "size hint", "the size hint is not the number of arguments still to come")
        elif ev.name in ("arg", "again"):
            k = j if ev.name == "again" else i
            what = "a later iteration" if ev.name == "again" else "the iteration"
            if k >= len(args):
                rule(False, "number of arguments", "%s yields more arguments than were announced" % what)
                return
            v = content(r.eng, o.st, v)
            p, n = args[k]
            good = v.op == "slice" and (r.mine(v) and f.eq(v.args[2], p) and f.eq(v.args[3], n) or
                                        f.eq(n, I(0)) and f.eq(v.args[3], I(0)))
            rule(good, "argument", "%s yields something else than the bytes of the argument" % what)
            if ev.name == "again":
                j += 1
            else:
                i += 1
        elif ev.name == "end":
            k, what = (j, "a later iteration") if again else (i, "the iteration")
            rule(k == len(args), "number of arguments", "%s ends before all arguments announced were seen" % what)
            again = True
