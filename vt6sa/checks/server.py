"""Checks of the server: connections, handlers, handshake."""
from . import check
from .common import *
from ..engine import agg, some, NONE, ok, err, slice_, ptr, UNIT
from .. import lang
from ..models import seq_eq, arr_of
from ..run import ToolError

RB = "::server::connection::ReceiveBuffer::"
PARSE = "::common::core::msg::Message::parse"


def rb_contents(eng, st, c):
    """the contents of a receive buffer stay the same until something is discarded"""
    v = c.args[0]
    b = eng.load(st, v.args[0], v.args[1]) if v.op == "ptr" else v
    root = mk("contents", b)
    ln = mk("clen", b, "usize")
    return [(st, slice_(root, (), I(0), ln))]


def rb_discard(eng, st, c):
    v, n = c.args[0], c.args[1]
    b = eng.load(st, v.args[0], v.args[1])
    ln = mk("clen", b, "usize")
    st.emit(Ev("discard", "discard", (n, ln), None, c.span, c.frame.name, data=mk("contents", b), mem=dict(st.mem)))
    eng.havoc_arg(st, v, c.atys[0])
    b2 = eng.load(st, v.args[0], v.args[1])
    ln2 = mk("clen", b2, "usize")
    f = st.fact.add_eq(sub(ln2, sub(ln, n)))
    if f is not None:
        st.fact = f
    return [(st, UNIT)]


def parse_contract(eng, st, c):
    """Message::parse by its contract (W01, W02): a message of 1..=len bytes, or some error"""
    v = c.args[0]
    n = mk("parsed", v, "usize")
    known = st.aux.get(("parse", v))
    out = []
    t = eng.T[c.dty]
    okty, errty = t["v"][0][0], t["v"][1][0]
    tt = eng.T[okty]["f"]
    s = st.copy()
    f = s.fact.add_le(sub(I(1), n))
    f = f and f.add_le(sub(n, v.args[3]))
    if f is not None and known != "err":
        s.fact = f
        s.setaux(("parse", v), "ok")
        m = eng.mksym(s, tt[0], "msg", v)
        s.emit(Ev("parse", "ok", (v, n), m, c.span, c.frame.name, mem=dict(s.mem), data=tt[0]))
        out.append((s, ok(eng_tup(m, n))))
    if known == "ok":
        return out
    st.setaux(("parse", v), "err")
    e = eng.mksym(st, errty, "perr", v)
    st.emit(Ev("parse", "err", (v,), e, c.span, c.frame.name, mem=dict(st.mem), data=errty))
    out.append((st, err(e)))
    return out


def eng_tup(*a):
    return mk("agg", "tuple", 0, *a)


def env(F, extra=None):
    p = "vt6"
    a = {p + RB + "contents": rb_contents, p + RB + "discard": rb_discard, p + PARSE: parse_contract}
    a.update(extra or {})
    return a

DEC = "as vt6::common::core::msg::traits::DecodeMessage>::decode_message"


def decoded(eng, st, c):
    """DecodeMessage::decode_message by its contract (W07): nothing, or the fields of that message"""
    t = eng.T[c.dty]
    m = c.args[0]
    mv = eng.load(st, m.args[0], m.args[1]) if m.op == "ptr" else m
    k = ("dec", c.name, mv)
    v = eng.mksym(st, t["v"][1][0], "decoded", eng.T[t["v"][1][0]].get("def"), mv)
    s = st.copy()
    s.emit(Ev("decode", c.name, (mv,), NONE, c.span, c.frame.name))
    st.emit(Ev("decode", c.name, (mv,), v, c.span, c.frame.name))
    return [(s, NONE), (st, some(v))]


def decode_contract(F):
    return {f["def"]: decoded for f in F.fns if DEC in f["def"]}

# ---------------------------------------------------------------- reading abstract states
CS = "vt6::server::connection::ConnectionState"
CONN = "vt6::server::connection::Connection"
HANDLER = "vt6::server::handler::Handler::"
MODVER = "vt6::server::handler::MessageHandler::get_supported_module_version"
ENQ = "vt6::server::dispatch::Dispatch::enqueue_message"
ENQ_STDIN = "vt6::server::dispatch::Dispatch::enqueue_stdin"
RECEIVE = "vt6::server::application::StdoutConnector::receive"
NOTIFY = "vt6::server::application::Application::notify"
NOTIF = "vt6::server::notification::Notification"


def need(F, name):
    f = F.fn(name)
    if f is None:
        raise ToolError("%s is missing" % name)
    return f["inst"]


def variants(F, adt):
    a = F.adts.get(adt)
    if a is None:
        raise ToolError("type %s is missing" % adt)
    return [v["name"] for v in a["v"]]


def ty_of(F, adt):
    """some instance of an abstract data type of the crate with its fields known"""
    for i, t in enumerate(F.types):
        if t.get("def") == adt and t.get("v"):
            return i
    raise ToolError("type %s is missing" % adt)


def possible(eng, st, v, ty):
    """names of the variants that value v of enum type ty can have in this state"""
    t = eng.T[ty]
    adt = t["def"]
    if adt == "core::option::Option":
        names, ds = ["None", "Some"], [0, 1]
    elif adt == "core::result::Result":
        names, ds = ["Ok", "Err"], [0, 1]
    else:
        a = eng.F.adts[adt]
        names, ds = [x["name"] for x in a["v"]], [x["d"] for x in a["v"]]
    while v.op == "upd":
        v = v.args[0]
    if v.op == "agg":
        return {names[v.args[1]]}
    s = st.copy()
    d = eng.discr_of(s, v, ty)
    if d.op == "int":
        return {n for n, x in zip(names, ds) if x == d.args[0]}
    return {n for n, x in zip(names, ds) if s.fact.add_eq(addc(d, -x)) is not None}


def payload(eng, st, v, ty, variant, i=0):
    """field of a variant"""
    names = variants(eng.F, eng.T[ty]["def"]) if eng.T[ty]["def"] in eng.F.adts else \
        {"core::option::Option": ["None", "Some"], "core::result::Result": ["Ok", "Err"]}[eng.T[ty]["def"]]
    n = names.index(variant)
    fty = eng.T[ty]["v"][n][i]
    return eng.proj(st, v, mk("pf", n, i, fty)), fty


def at(end, ev):
    """the state in which an event happened, with everything known about the path"""
    s = end.copy()
    s.mem = dict(ev.mem)
    return s


class ConnView:
    """where a connection keeps its state (found by type)"""

    def __init__(self, F):
        self.F = F
        self.ty = ty_of(F, CONN)
        fs = F.types[self.ty]["v"][0]
        hit = [(i, f) for i, f in enumerate(fs) if F.types[f].get("def") == CS]
        if len(hit) != 1:
            raise ToolError("a connection has %d fields with its state" % len(hit))
        self.i, self.sty = hit[0]

    def value(self, eng, st, p):
        return eng.load(st, p.args[0], p.args[1] + (mk("pf", 0, self.i, self.sty),), self.sty)

    def states(self, eng, st, p):
        return possible(eng, st, self.value(eng, st, p), self.sty)


def ask(eng, st, name, args):
    """evaluate a public function of the crate in a state: [(value, state)]"""
    f = eng.F.fn(name)
    if f is None:
        raise ToolError("function %s is missing" % name)
    e2 = engine(eng.F, 20)
    e2.models, e2.anchors = eng.models, eng.anchors
    s = st.copy()
    s.frames = ()
    s.ev = None
    out = []
    for o in e2.run_root(f["inst"], list(args), s):
        if o.kind == "ret":
            out.append((o.val, o.st))
        else:
            out.append((None, o.st))
    return out


def ref_to(eng, st, v, ty, tag):
    """a pointer to a copy of a value"""
    root = mk("tmpref", tag, v)
    st.mem[root] = v
    st.rty = dict(st.rty)
    st.rty[root] = ty
    return ptr(root)


def same_value(eng, st, a, b, ty, depth=0):
    """are two values of a type known to be equal? (compared by structure)"""
    if a is b:
        return True
    if depth > 10 or ty is None:
        return False
    t = eng.T[ty]
    k = t["k"]
    if k in ("int", "bool", "char"):
        return bool(st.fact.eq(a, b))
    if k in ("ref", "ptr"):
        if a.op == "slice" and b.op == "slice":
            return st.fact.decide(seq_eq(eng, st, a, b)) is True
        if a.op == "ptr" and b.op == "ptr":
            return same_value(eng, st, eng.load(st, a.args[0], a.args[1], t["e"]),
                              eng.load(st, b.args[0], b.args[1], t["e"]), t["e"], depth + 1)
        return False
    if k == "tuple":
        return all(same_value(eng, st, eng.proj(st, a, mk("pf", 0, i, f)), eng.proj(st, b, mk("pf", 0, i, f)), f, depth + 1)
                   for i, f in enumerate(t["f"]))
    if k == "adt" and t.get("v"):
        if len(t["v"]) > 1:
            d1, d2 = eng.discr_of(st.copy(), a, ty), eng.discr_of(st.copy(), b, ty)
            if not st.fact.eq(d1, d2):
                return False
            names = list(possible(eng, st, a, ty) & possible(eng, st, b, ty))
            al = variants(eng.F, t["def"]) if t["def"] in eng.F.adts else \
                (["None", "Some"] if t["def"].endswith("Option") else ["Ok", "Err"])
            vs = [al.index(n) for n in names]
        else:
            vs = [0]
        return all(same_value(eng, st, eng.proj(st, a, mk("pf", v, i, f)), eng.proj(st, b, mk("pf", v, i, f)), f, depth + 1)
                   for v in vs for i, f in enumerate(t["v"][v]))
    return False


# ---------------------------------------------------------------- pieces of paths
class Piece:
    """a stretch of a path without loop heads in between: the state it starts in, its events, its end"""

    def __init__(self, start, events, end, how, lead):
        self.start, self.events, self.end, self.how, self.lead = start, events, end, how, lead


def pieces(outs, entry, interesting):
    """all pieces of the paths of these outcomes. Loops whose bodies contain no interesting event are
    taken as part of the piece they are in."""
    seen = set()
    res = []

    def hot(ev):
        return any(interesting(e) or (e.kind == "loop" and hot(e)) for b in ev.data["bodies"] for e in b)

    def cut(start, events, end, how):
        cur = []
        s = start
        for e in events:
            if e.kind == "loop" and hot(e):
                # everything up to here is only known to be a part of this path
                res.append(Piece(s, cur, e.data["entry"], "head", None))
                loop(e)
                cur, s = [], e.data["hs"]
            else:
                cur.append(e)
        res.append(Piece(s, cur, end, how, None))

    def loop(e):
        k = id(e.data)
        if k in seen:
            return
        seen.add(k)
        for b, bs in zip(e.data["bodies"], e.data["states"]):
            cut(e.data["hs"], b, bs, "back")

    for o in outs:
        if o.kind in ("ret", "endless", "cut"):
            cut(entry, o.st.trace(), o.st, o.kind)
    return res


# ---------------------------------------------------------------- incoming data
INTEREST_ENV = {HANDLER + "handle", HANDLER + "handle_error", MODVER, ENQ, ENQ_STDIN, RECEIVE, NOTIFY}


def interesting(e):
    return e.kind in ("parse", "discard") or (e.kind == "env" and e.name in INTEREST_ENV)


NOT_BRACE = ((0, 0x7a), (0x7c, 255))


class Incoming:
    """Judges what Connection::handle_incoming does with a receive buffer and the state of the connection.
    The rules are given per property in `rules`."""

    name = CONN + "::handle_incoming"

    def __init__(self, F):
        self.F = F
        self.view = ConnView(F)
        self.n = {}
        self.entry = None

    def anchors(self):
        return env(self.F, decode_contract(self.F))

    def run(self, eng):
        inst = need(self.F, self.name)
        def prep(e, st, args):
            self.conn, self.buf = args[0], args[1]
            self.entry = st.copy()
        return eng.run_root(inst, prep=prep)

    def buf_len(self, eng, st):
        return mk("clen", eng.load(st, self.buf.args[0], self.buf.args[1]), "usize")

    def states(self, eng, st):
        return self.view.states(eng, st, self.conn)

    def notified(self, eng, p, ev):
        """the bytes that a notification says are discarded"""
        st = at(p.end, ev)
        v = eng.load(st, ev.args[1].args[0], ev.args[1].args[1]) if ev.args[1].op == "ptr" else ev.args[1]
        ty = ty_of(self.F, NOTIF)
        if "IncomingBytesDiscarded" not in possible(eng, st, v, ty):
            return None
        return payload(eng, st, v, ty, "IncomingBytesDiscarded")[0]

    def judge(self, eng, outs):
        """[(property, key, text, piece)] of broken rules"""
        bad = []
        self.n = {}

        def rule(pid, good, key, text, p):
            self.n[pid] = self.n.get(pid, 0) + 1
            if not good:
                bad.append((pid, key, text, p))

        ps = pieces(outs, self.entry, interesting)
        self.pieces = len(ps)
        for p in ps:
            self.piece(eng, p, rule)
        for o in outs:
            if o.kind == "panic":
                bad.append(("K06", "panic: %s in %s" % (o.why, where(o)), "panic (%s) at %s" % (o.why, o.span),
                            Piece(self.entry, [], o.st, "panic", None)))
        bad += [("K06", *b[1:]) for b in bad if b[0] == "K05"]
        self.n["K06"] = self.n.get("K06", 0) + len(outs)
        return bad

    def piece(self, eng, p, rule):
        end = p.end
        segs = [[]]
        since = {}
        for i, e in enumerate(p.events):
            if e.kind == "iter":
                part = [x.kind for x in p.events[since.get(e.data, 0):i]]
                since[e.data] = i
                if "parse" in part:
                    rule("K01", "discard" in part, "an iteration removes nothing",
                         "processing continues although no bytes were removed", p)
        for e in p.events:
            if interesting(e):
                segs[-1].append(e)
                if e.kind == "discard":
                    segs.append([])
        # rules about single events
        for e in p.events:
            if not interesting(e):
                continue
            st = at(end, e)
            what = e.name.split("::")[-1]
            S = self.states(eng, st)
            if e.kind == "parse":
                rule("K04", not S & {"Stdin", "Stdout"}, "parse on a %s socket" % "/".join(sorted(S & {"Stdin", "Stdout"})),
                     "bytes received in stdin or stdout mode are parsed as messages (%s)" % e.span, p)
                rule("K07", "Teardown" not in S, "parse after teardown",
                     "bytes are parsed although the connection may be in teardown (%s)" % e.span, p)
            if e.kind != "env":
                continue
            if e.name in (ENQ,):
                rule("K05", S <= {"Handshake", "Msgio"}, "enqueue_message in state %s" % "/".join(sorted(S - {"Handshake", "Msgio"})),
                     "a message is queued although the connection may be in state %s (%s)"
                     % ("/".join(sorted(S - {"Handshake", "Msgio"})), e.span), p)
            if e.name == ENQ_STDIN:
                rule("K05", S <= {"Stdin"}, "enqueue_stdin in state %s" % "/".join(sorted(S - {"Stdin"})),
                     "stdin data is queued although the connection may be in state %s (%s)"
                     % ("/".join(sorted(S - {"Stdin"})), e.span), p)
            if e.name != NOTIFY:
                rule("K07", "Teardown" not in S, "%s after teardown" % what,
                     "%s is called although the connection may be in teardown (%s)" % (what, e.span), p)
            if e.name == RECEIVE:
                rule("K04", S <= {"Stdout"}, "receive in state %s" % "/".join(sorted(S - {"Stdout"})),
                     "bytes go to the stdout connector in another state (%s)" % e.span, p)
            if e.name in (HANDLER + "handle", HANDLER + "handle_error", MODVER):
                rule("K04", not S & {"Stdin", "Stdout"}, "%s on a stdin/stdout socket" % what,
                     "%s is called for a stdin or stdout socket (%s)" % (what, e.span), p)
            if e.name in (HANDLER + "handle", HANDLER + "handle_error"):
                ts = eng.T[e.data["self"]]["s"] if e.data["self"] is not None else "?"
                if "HandshakeHandler" in ts:
                    rule("S01", S <= {"Handshake"}, "handshake handler outside of the handshake",
                         "the handshake handler gets a message although the handshake is over (%s)" % e.span, p)
                else:
                    rule("S02", "Handshake" not in S, "message handler during handshake",
                         "the message handler is used before the handshake is complete (%s)" % e.span, p)
        start = p.start
        for i, seg in enumerate(segs):
            last = i == len(segs) - 1
            if last:
                self.rest(eng, p, start, seg, rule, nothing=not segs[:-1])
            else:
                self.consumed(eng, p, start, seg, rule, len(segs) - 2 == i)
                start = at(end, seg[-1])

    def start_states(self, eng, p, start):
        s = start.copy()
        s.fact = p.end.fact
        return self.states(eng, s)

    def consumed(self, eng, p, start, seg, rule, final):
        """a stretch that ends with the removal of bytes from the buffer"""
        d = seg[-1]
        end = p.end
        f = end.fact
        n, ln = d.args
        arr = d.data
        S0 = self.start_states(eng, p, start)
        parses = [e for e in seg if e.kind == "parse"]
        handle = [e for e in seg if e.kind == "env" and e.name == HANDLER + "handle"]
        errs = [e for e in seg if e.kind == "env" and e.name == HANDLER + "handle_error"]
        recv = [e for e in seg if e.kind == "env" and e.name == RECEIVE]
        enq = [e for e in seg if e.kind == "env" and e.name == ENQ]
        notes = []
        for e in seg:
            if e.kind == "env" and e.name == NOTIFY:
                s = self.notified(eng, p, e)
                if s is not None:
                    notes.append((e, s))
        where_ = d.span
        rule("K01", f.le(I(1), n), "nothing is removed", "a processing step may remove no bytes at all (%s)" % where_, p)
        rule("K01", f.le(n, ln), "more is removed than there is", "more bytes may be removed than the buffer holds (%s)" % where_, p)
        whole = [e for e in parses if e.args[0].op == "slice" and e.args[0].args[0] is arr and f.eq(e.args[0].args[2], I(0))
                 and f.eq(e.args[0].args[3], ln)]
        if parses and not whole:
            rule("K01", False, "parsed bytes are not the buffer", "the parser is not given the whole buffer (%s)" % parses[0].span, p)
            return
        if not parses:
            # stdin or stdout mode
            rule("K01", not S0 & {"Handshake", "Msgio"}, "bytes are removed unparsed",
                 "bytes are removed without being parsed in handshake or message mode (%s)" % where_, p)
            rule("K07", True, "", "", p)
            rule("K04", f.eq(n, ln), "only a part is removed", "bytes on a stdin or stdout socket stay in the buffer (%s)" % where_, p)
            if "Stdout" in S0:
                rule("K04", len(recv) == 1, "delivered %s times" % (len(recv) if len(recv) < 2 else "several"),
                     "bytes received on a stdout socket are delivered %d times (%s)" % (len(recv), where_), p)
                for e in recv:
                    b = e.args[1]
                    rule("K04", b.op == "slice" and b.args[0] is arr and f.eq(b.args[2], I(0)) and f.eq(b.args[3], ln),
                         "delivered bytes", "not all received bytes are delivered (%s)" % e.span, p)
                rule("K08", not notes or "Stdin" in S0, "delivered bytes are reported as discarded",
                     "bytes that were delivered are reported as discarded (%s)" % where_, p)
            if "Teardown" in S0:
                self.noted(eng, p, notes, arr, n, d, rule)
            if "Stdin" in S0:
                S1 = self.states(eng, end)
                rule("K04", S1 <= {"Teardown"}, "input on stdin does not tear down",
                     "bytes on a stdin socket do not put it into teardown (%s)" % where_, p)
                self.noted(eng, p, notes, arr, n, d, rule)
            return
        e0 = whole[0]
        if e0.name == "ok":
            rule("K01", f.eq(n, e0.args[1]), "not exactly the message is removed",
                 "after a message other than exactly its bytes are removed (%s)" % where_, p)
            rule("K01", len(handle) == 1 and not errs, "handled %s times" % (len(handle) if len(handle) < 2 else "several"),
                 "a complete message is handled %d times (%s)" % (len(handle) + len(errs), where_), p)
            for h in handle:
                hs = at(end, h)
                mv = eng.load(hs, h.args[1].args[0], h.args[1].args[1], e0.data)
                rule("K01", mv is e0.res or same_value(eng, hs, mv, e0.res, e0.data), "another message is handled",
                     "the handler gets another message than the one that was parsed (%s)" % h.span, p)
                rule("K01", h.args[2].op == "ptr" and h.args[2].args == self.conn.args, "another connection",
                     "the handler gets another connection (%s)" % h.span, p)
            rule("K08", not notes, "a handled message is reported as discarded",
                 "the bytes of a handled message are reported as discarded (%s)" % where_, p)
            if len(handle) == 1:
                self.outcome(eng, p, S0, e0, handle[0], seg, enq, rule, d)
            return
        # a syntax error
        rule("K01", not handle, "garbage is handled", "a handler gets a message although parsing failed (%s)" % where_, p)
        rule("K08", len(errs) == 1, "syntax errors reported %s times" % (len(errs) if len(errs) < 2 else "several"),
             "the handler is told about a syntax error %d times (%s)" % (len(errs), where_), p)
        for h in errs:
            hs = at(end, h)
            ev_ = eng.load(hs, h.args[1].args[0], h.args[1].args[1], e0.data) if h.args[1].op == "ptr" else h.args[1]
            rule("K08", ev_ is e0.res or same_value(eng, hs, ev_, e0.res, e0.data), "another error is reported",
                 "the handler is told about another error (%s)" % h.span, p)
        self.noted(eng, p, notes, arr, n, d, rule)
        if errs and notes:
            rule("K08", seg.index(errs[0]) < seg.index(notes[0][0]), "order of the reports",
                 "the handler is told about the error after the application (%s)" % where_, p)
        # up to the next possible start of a message
        rule("K01", self.resync(f, arr_of(eng, at(end, d), slice_(arr, (), I(0), ln)), n, ln), "resynchronisation",
             "after a syntax error not exactly the bytes up to the next '{' are removed (%s)" % where_, p)
        inc = self.incomplete(eng, end, e0)
        if True in inc:
            g = f.add_le(sub(ln, I(1023)))
            inc2 = set()
            if g is not None:
                s = end.copy()
                s.fact = g
                inc2 = self.incomplete(eng, s, e0)
            rule("S02" if S0 & {"Handshake"} else "K01", True not in inc2, "incomplete input is discarded",
                 "the start of a message that is still incomplete is thrown away (%s)" % where_, p)
        if "Handshake" in S0:
            S1 = self.states(eng, end if final else at(end, d))
            rule("S02", "Handshake" not in S1, "syntax error during handshake",
                 "a syntax error during the handshake does not end the connection (%s)" % where_, p)
            rule("S02", not enq, "reply to a syntax error during handshake", "garbage gets a reply (%s)" % where_, p)

    def noted(self, eng, p, notes, arr, n, d, rule):
        f = p.end.fact
        rule("K08", len(notes) == 1, "reported %s times" % (len(notes) if len(notes) < 2 else "several"),
             "discarded bytes are reported %d times (%s)" % (len(notes), d.span), p)
        for e, b in notes:
            rule("K08", b.op == "slice" and b.args[0] is arr and f.eq(b.args[2], I(0)) and f.eq(b.args[3], n),
                 "other bytes are reported", "not exactly the discarded bytes are reported (%s)" % e.span, p)

    def incomplete(self, eng, st, e0):
        s = st.copy()
        s.mem = dict(s.mem)
        r = ref_to(eng, s, e0.res, e0.data, "inc")
        out = set()
        for v, s2 in ask(eng, s, "vt6::common::core::msg::ParseError::is_incomplete", [r]):
            if v is None:
                return {True, False}
            x = s2.fact.decide(v)
            out |= {True, False} if x is None else {x}
        return out

    def resync(self, f, arr, n, ln):
        """arr[1..n] holds no '{', and n is the end or the position of one"""
        if not lang.all_in(f, arr, I(1), n, NOT_BRACE):
            return False
        return f.eq(n, ln) or lang.elem(f, arr, n) == ((0x7b, 0x7b),)

    def outcome(self, eng, p, S0, e0, h, seg, enq, rule, d):
        """what follows the call of a handler"""
        end = p.end
        rty = self.rty(h)
        R = possible(eng, end, h.res, rty)
        after = seg[seg.index(h) + 1:]
        S1 = self.states(eng, end)
        if "Handshake" in S0:
            if "Err" in R:
                rule("S02", S1 <= {"Teardown"}, "failed handshake goes on",
                     "a failed handshake does not put the connection into teardown (%s)" % d.span, p)
            rule("S02", not enq, "reply during handshake", "a message is queued after a handshake attempt (%s)" % d.span, p)
        if "Msgio" not in S0:
            return
        if "Ok" in R:
            rule("S03", not enq, "reply to a handled message", "a message that was handled gets another reply (%s)" % d.span, p)
        if "Err" not in R:
            return
        ev_, ety = payload(eng, end, h.res, rty, "Err")
        E = possible(eng, end, ev_, ety)
        mute = False
        if not enq:
            # no reply: only if none could be sent
            rule("S03", not S1 & {"Handshake", "Msgio"}, "rejected without reply",
                 "a rejected message gets no reply although one could be sent (%s)" % d.span, p)
            return
        rule("S03", len(enq) == 1, "several replies", "a rejected message gets several replies (%s)" % d.span, p)
        self.reply(eng, p, e0, h, E, enq[0], after, rule)

    def rty(self, h):
        for f in self.F.fns:
            if f["def"].endswith("Handler as vt6::server::handler::Handler>::handle"):
                return self.F.insts[f["inst"]]["body"]["locals"][0]
        raise ToolError("no handler found")

    def reply(self, eng, p, e0, h, E, q, after, rule):
        st = at(p.end, q)
        m, mty = q.args[2], self.F.types[q.data["atys"][2]].get("e")
        v = eng.load(st, m.args[0], m.args[1], mty)
        kind = self.F.types[mty].get("def") if mty is not None else None
        r = ref_to(eng, st, e0.res, e0.data, "reply")
        mt = ask(eng, st, "vt6::common::core::msg::Message::parsed_type", [r])
        mtty = self.F.insts[self.F.fn("vt6::common::core::msg::Message::parsed_type")["inst"]]["body"]["locals"][0]
        query = [e for e in after if e.kind == "env" and e.name == MODVER]
        for t, s in mt:
            T = possible(eng, s, t, mtty)
            scoped = "Scoped" in T
            plain = bool(T - {"Scoped"})
            if "InvalidMessage" in E or plain:
                rule("S03", kind == "vt6::msg::Nope", "reply is not nope",
                     "an invalid message, or an unknown one without module, is not answered with nope (%s)" % q.span, p)
            if kind == "vt6::msg::Nope":
                rule("S03", not ("UnknownMessageType" in E and scoped), "nope for an unknown type",
                     "an unknown message type is answered with nope instead of have (%s)" % q.span, p)
                x, xty = v, self.F.types[mty]["v"][0][0]
                x = eng.proj(s, v, mk("pf", 0, 0, xty))
                rule("S03", same_value(eng, s, x, t, xty), "nope names another type",
                     "nope does not name the type of the rejected message (%s)" % q.span, p)
            elif kind == "vt6::msg::Have":
                self.have(eng, p, s, v, mty, t, mtty, query, q, rule, h)
            else:
                rule("S03", False, "another reply", "a rejected message is answered with %s (%s)" % (kind, q.span), p)

    def have(self, eng, p, s, v, mty, t, mtty, query, q, rule, h):
        rule("S03", len(query) == 1, "module version not queried once",
             "the supported version is asked %d times (%s)" % (len(query), q.span), p)
        if len(query) != 1:
            return
        g = query[0]
        sid, sty = payload(eng, s, t, mtty, "Scoped")
        want = ask(eng, s, "vt6::common::core::identifiers::ScopedIdentifier::module", [ref_to(eng, s, sid, sty, "sid")])
        moty = self.F.insts[self.F.fn("vt6::common::core::identifiers::ScopedIdentifier::module")["inst"]]["body"]["locals"][0]
        for mod, s2 in want:
            gs = at(s2, g)
            asked = eng.load(gs, g.args[1].args[0], g.args[1].args[1], moty)
            rule("S03", same_value(eng, s2, asked, mod, moty), "another module is queried",
                 "the handler is asked about another module than that of the message (%s)" % g.span, p)
            have_rule(eng, s2, v, mty, mod, moty, g, rule, "S03", q, p)

    def rest(self, eng, p, start, seg, rule, nothing):
        """the end of a piece, after the last removal of bytes"""
        if p.how == "cut":
            return
        end = p.end
        f = end.fact
        S0 = self.start_states(eng, p, start)
        S1 = self.states(eng, end)
        parses = [e for e in seg if e.kind == "parse"]
        if p.how == "head":
            return
        if p.how == "back":
            rule("K01", not (nothing or parses), "an iteration removes nothing",
                 "processing continues although no bytes were removed", p)
            return
        ln = self.buf_len(eng, end)
        if not parses:
            rest = f.add_le(sub(I(1), ln))
            if rest is not None:
                s = end.copy()
                s.fact = rest
                S = self.states(eng, s)
                rule("K01", not S & {"Handshake", "Msgio"}, "processing stops early",
                     "processing stops although bytes are left in the buffer", p)
                rule("K04", not S & {"Stdin", "Stdout"}, "bytes are left on a stdin/stdout socket",
                     "bytes on a stdin or stdout socket are not taken from the buffer", p)
            return
        e0 = parses[-1]
        if e0.name == "ok":
            rule("K01", False, "message is not removed", "a message is not removed from the buffer (%s)" % e0.span, p)
            return
        other = [e for e in seg if e.kind == "env"]
        rule("K01", not other, "waiting has effects", "incomplete input causes a call of %s (%s)" %
             (", ".join(e.name.split("::")[-1] for e in other), e0.span), p)
        inc = self.incomplete(eng, end, e0)
        rule("K01", False not in inc, "waiting although the input is invalid",
             "processing stops and waits although the input is invalid (%s)" % e0.span, p)
        rule("K03", f.le(e0.args[0].args[3], I(1023)), "unbounded waiting",
             "an incomplete message is awaited although 1024 bytes of it may be there already (%s)" % e0.span, p)
        if "Handshake" in S0:
            rule("S02", "Handshake" in S1 and self.unchanged(eng, start, end), "incomplete input ends the handshake",
                 "incomplete input changes the state of the connection (%s)" % e0.span, p)

    def unchanged(self, eng, a, b):
        return self.view.value(eng, a, self.conn) is self.view.value(eng, b, self.conn) or \
            self.states(eng, b) == {"Handshake"}


def have_rule(eng, s, v, mty, mod, moty, g, rule, pid, q, p):
    """a `have` message must name the module, with the version that the query g returned"""
    f = eng.F.fn("vt6::common::core::identifiers::ModuleIdentifier::with_minor_version")
    vty = eng.F.insts[f["inst"]]["body"]["locals"][0]
    oty = None
    for h in eng.F.fns:
        if h["def"].endswith("::get_supported_module_version"):
            oty = eng.F.insts[h["inst"]]["body"]["locals"][0]
    K = possible(eng, s, v, mty)
    R = possible(eng, s, g.res, oty)
    rule(pid, len(K) == 1, "kind of have", "it is not known which module is announced (%s)" % q.span, p)
    if "ThisModule" in K:
        rule(pid, "None" not in R, "unsupported module is announced",
             "a module that is not supported is announced as supported (%s)" % q.span, p)
        x, xty = payload(eng, s, v, mty, "ThisModule")
        n, nty = payload(eng, s, g.res, oty, "Some")
        for w, s2 in ask(eng, s, f["def"], [ref_to(eng, s, mod, moty, "mod"), n]):
            rule(pid, same_value(eng, s2, x, w, vty), "announced version",
                 "the announced version is not that module with the supported minor version (%s)" % q.span, p)
    if "NotThisModule" in K:
        rule(pid, "Some" not in R, "supported module is denied",
             "a supported module is announced as unsupported (%s)" % q.span, p)
        x, xty = payload(eng, s, v, mty, "NotThisModule")
        rule(pid, same_value(eng, s, x, mod, moty), "denied module", "another module is named (%s)" % q.span, p)



def run_rules(ctx, pid, root, least, depths=(None, 1, 2), budget=120):
    """Run a root's rules and report those of one property. A broken rule in a state that depends on a
    widened loop must be confirmed with the loops peeled, otherwise it counts as undecided."""
    F = root.F
    left = None
    for depth in depths:
        eng = engine(F, budget, anchors=root.anchors())
        eng.merge = False
        eng.snap = True
        eng.unroll = depth
        eng.iters = True
        try:
            outs = root.run(eng)
        except (Budget, Unsupported) as e:
            if depth is None:
                ctx.oblige(None, root.name, "no answer for %s (%s)" % (root.name, e))
                left = {}
            break
        bad = [b for b in root.judge(eng, outs) if b[0] == pid]
        for b in bad:
            if len(b) > 4 and depth is None:        # a rule that could not be decided
                ctx.undecided.append({"key": "%s: %s" % (root.name, b[1]), "what": b[2]})
        bad = [b for b in bad if len(b) == 4]
        if depth is None:
            ctx.funcs |= {x for x in eng.seen_fns if H not in x}
            ctx.floor("paths of " + root.name, root.pieces, 1)
            ctx.floor("rule instances in " + root.name, root.n.get(pid, 0), least)
            ctx.obligations += root.n.get(pid, 0)
            ctx.discharged += root.n.get(pid, 0) - len(bad)
            for o in outs:
                if o.kind == "unknown":
                    ctx.undecided.append({"key": root.name, "what": "path cut short: %s" % (o.st.taint,)})
            left = {}
            for _, key, text, p in bad:
                left.setdefault(key, text)
        for _, key, text, p in bad:
            if key in left and not p.end.taint and (depth is not None or not widened_piece(p)):
                ctx.violation("%s: %s" % (root.name, key), text, path=["%s %s @%s" % (e.kind, e.name, e.span) for e in p.events],
                              state=[x[:300] for x in show_facts(p.end.fact)][:40])
                del left[key]
        if not left:
            break
    for key, text in (left or {}).items():
        ctx.undecided.append({"key": key, "what": text + " (not confirmed without widening)"})


def incoming(ctx, pid, least):
    """run the rules of one property over Connection::handle_incoming"""
    run_rules(ctx, pid, Incoming(ctx.facts()), least)


def widened_piece(p):
    return any(x.op == "lv" for e in list(p.end.fact.les) + list(p.end.fact.eqs) + list(p.end.fact.dom) for x in subterms(e))


@check("K01")
def k01(ctx):
    """Abstract interpretation of Connection::handle_incoming for every connection state, buffer, handler and
    application (all of them arbitrary environment code), with the parser replaced by its contract: on every
    path, between two removals from the buffer, exactly one complete message is handled or exactly one syntax
    error is skipped, exactly the right bytes are removed, and processing only stops for a permitted reason."""
    incoming(ctx, "K01", 100)


@check("K03")
def k03(ctx):
    """Abstract interpretation of Connection::handle_incoming: wherever processing stops because the message in
    the buffer is incomplete, the facts of the path bound the buffered length below 1024."""
    incoming(ctx, "K03", 1)


@check("K04")
def k04(ctx):
    """Abstract interpretation of Connection::handle_incoming: the set of possible connection states at every
    parse, handler, connector and discard event of every path."""
    incoming(ctx, "K04", 40)


@check("K07")
def k07(ctx):
    """Abstract interpretation of Connection::handle_incoming: the set of possible connection states at every
    parse, handler, connector and queueing event must exclude teardown, after arbitrary handlers ran."""
    incoming(ctx, "K07", 40)


@check("K08")
def k08(ctx):
    """Abstract interpretation of Connection::handle_incoming: every removal of bytes that are not part of a
    handled message or delivered is preceded by exactly one notification about exactly these bytes."""
    incoming(ctx, "K08", 30)
