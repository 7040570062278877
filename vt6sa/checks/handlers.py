"""Checks of the message handlers of the library (server::core, server::reject)."""
from . import check
from .common import *
from .server import *
from ..engine import agg, some, NONE, ok, err, slice_, ptr, UNIT, St, Unsupported
from ..models import seq_eq, byte, vec_place, pf
from ..run import ToolError

APP = "vt6::server::application::Application::"
BCAST = "vt6::server::dispatch::Dispatch::enqueue_broadcast"
MSGNEW = "vt6::server::application::MessageConnector::new"
IDENT = "vt6::server::application::MessageConnector::identity"
OUTNEW = "vt6::server::application::StdoutConnector::new"
MSG = "vt6::common::core::msg::Message"
MTYPE = "vt6::common::core::identifiers::MessageType"
SELECTOR = "vt6::server::auth::ClientSelector"
IDENTITY = "vt6::server::auth::ClientIdentity"
HERR = "vt6::server::handler::HandlerError"
EFFECTS = {ENQ, ENQ_STDIN, BCAST, APP + "register_client", APP + "unregister_clients", APP + "authorize_client",
           APP + "authorize_stdin", APP + "authorize_stdout", RECEIVE, HANDLER + "handle_error"}
HELLOS = ("posix1.stdin-hello", "posix1.stdout-hello", "posix1.client-hello")
OWN = {"msg": ("want", "core1.client-make", "core1.client-end") + HELLOS, "handshake": HELLOS}
FOREIGN = ("have", "nope", "core1.set", "core1.sub", "core1.client-new", "core2.client-make", "posix1.server-hello",
           "posix1.parent-hello", "x1.y")
HANDLERS = {
    "handshake": "vt6::server::core::handshake::HandshakeHandler",
    "msg": "vt6::server::core::msg::MessageHandler",
    "reject": "vt6::server::reject::RejectHandler",
}


def impl(kind, fn):
    t = "MessageHandler" if fn == "get_supported_module_version" else "Handler"
    return "<%s as vt6::server::handler::%s>::%s" % (HANDLERS[kind], t, fn)


def field(F, adt, name):
    """index of a public field"""
    for i, f in enumerate(F.adts[adt]["v"][0]["f"]):
        if f[0] == name:
            return i
    raise ToolError("%s has no field %s" % (adt, name))


def fact_or(s, f):
    if f is None:
        return None
    s = s.copy()
    s.fact = f
    return s


class Text:
    """the name of a message type or module in a state, as all ways in which the library computes it"""

    def __init__(self, eng, st, fn, args, vty, variant_of=None):
        self.eng = eng
        self.alts = [(v, s) for v, s in ask(eng, st, fn, args) if v is not None]

    def is_(self, text, keep=lambda s: True):
        """True/False/None: is it this text?"""
        res = set()
        for v, s in self.alts:
            if not keep(s):
                continue
            c = slice_(mk("const", text.encode()), (), I(0), I(len(text)))
            res.add(s.fact.decide(seq_eq(self.eng, s, v, c)))
        if len(res) == 1:
            return res.pop()
        return False if not res else None


def selector(F, variant, cid):
    vs = variants(F, SELECTOR)
    return mk("agg", SELECTOR, vs.index(variant), cid)


def contains(eng, st, variant, cid, other):
    """is a client ID selected? {True, False, None}"""
    s = st.copy()
    s.mem = dict(s.mem)
    r = ref_to(eng, s, selector(eng.F, variant, cid), ty_of(eng.F, SELECTOR), "sel")
    out = set()
    class C:
        args = [r, other]
    for s2, v in contains_contract(eng, s, C):
        out.add(s2.fact.decide(v))
    return out


def contains_contract(eng, st, c):
    """ClientSelector::contains by its contract (S06)"""
    sv, other = c.args
    ty = ty_of(eng.F, SELECTOR)
    v = eng.load(st, sv.args[0], sv.args[1], ty) if sv.op == "ptr" else sv
    out = []
    names = variants(eng.F, SELECTOR)
    for n in sorted(possible(eng, st, v, ty)):
        s = st.copy()
        d = eng.discr_of(s, v, ty)
        f = s.fact.add_eq(addc(d, -names.index(n)))
        if f is None:
            continue
        s.fact = f
        cid, cty = payload(eng, s, v, ty, n)
        for a, s1 in id_text(eng, s, cid, cty):
            for b, s2 in id_text(eng, s1, other, cty):
                x, y = content(eng, s2, a), content(eng, s2, b)
                for truth, s3 in eng.branch(s2, TRUE if x is y else mk("starts", y, x, "bool")):
                    if n == "AtOrBelow" or not truth:
                        out.append((s3, TRUE if truth else FALSE))
                    else:
                        for same, s4 in eng.branch(s3, seq_eq(eng, s3, a, b)):
                            out.append((s4, FALSE if same else TRUE))
    return out


def id_text(eng, st, cid, cty):
    s = st.copy()
    s.mem = dict(s.mem)
    r = ref_to(eng, s, cid, cty, "cid")
    fn = eng.F.fn("vt6::common::core::identifiers::ClientID::as_str")
    by_ref = eng.T[eng.F.insts[fn["inst"]]["body"]["locals"][1]]["k"] == "ref"
    out = []
    for v, s2 in ask(eng, s, fn["def"], [r if by_ref else cid]):
        if v is not None:
            s3 = st.with_fact(s2.fact)
            out.append((v, s3))
    return out


class Handler:
    """judges one Handler::handle implementation"""

    def __init__(self, F, kind):
        self.F, self.kind = F, kind
        self.name = impl(kind, "handle")
        self.view = ConnView(F)
        self.n = {}

    def anchors(self):
        return env(self.F, dict(decode_contract(self.F), **{SELECTOR + "::contains": contains_contract}))

    def run(self, eng):
        def prep(e, st, args):
            self.self_, self.msg, self.conn = args
            v = self.view.value(e, st, self.conn)
            i = {"handshake": "Handshake", "msg": "Msgio"}.get(self.kind)
            if i is not None:
                d = e.discr_of(st, v, self.view.sty)
                st.fact = st.fact.add_eq(addc(d, -variants(self.F, CS).index(i)))
            self.entry = st.copy()
            self.msgty = e.T[e.F.insts[need(self.F, self.name)]["body"]["locals"][2]]["e"]
            self.rty = e.F.insts[need(self.F, self.name)]["body"]["locals"][0]
        return eng.run_root(need(self.F, self.name), prep=prep)

    # ------------------------------------------------------------ helpers
    def text(self, eng, st):
        """the type name of the message: Text, with its variants"""
        F = self.F
        s = st.copy()
        s.mem = dict(self.entry.mem)
        pt = F.fn(MSG + "::parsed_type")
        ty = F.insts[pt["inst"]]["body"]["locals"][0]
        alts = []
        for v, s2 in ask(eng, s, MSG + "::parsed_type", [self.msg]):
            if v is None:
                continue
            s2.mem = dict(s2.mem)
            r = ref_to(eng, s2, v, ty, "mt")
            for t, s3 in ask(eng, s2, MTYPE + "::as_str", [r]):
                if t is not None:
                    alts.append((t, s3, possible(eng, s3, v, ty)))
        x = Text.__new__(Text)
        x.eng = eng
        x.alts = [(t, s) for t, s, _ in alts]
        x.var = {id(s): p for _, s, p in alts}
        return x

    def type_is(self, eng, st, name):
        """is the message of that type? (True/False/None)"""
        x = self.text(eng, st)
        want = {"want": "Want", "have": "Have", "nope": "Nope"}.get(name, "Scoped")
        res = {x.is_(name, lambda s, a=a: s is a) for _, a in x.alts if want in x.var[id(a)]}
        other = [a for _, a in x.alts if x.var[id(a)] - {want}]
        if not res:
            return False
        if other:
            res.add(False)
        return res.pop() if len(res) == 1 else None

    def state(self, eng, st):
        return self.view.value(eng, st, self.conn)

    def decoded(self, p, what):
        """the successfully decoded message of this type on a path: [(value, type)]"""
        out = []
        for e in p.events:
            if e.kind == "decode" and what in e.name and e.res is not NONE:
                out.append(e)
        return out

    def decoded_ty(self, what):
        for i, t in enumerate(self.F.types):
            if t.get("def") == what and t.get("v"):
                return i
        raise ToolError("type %s is missing" % what)

    def dfield(self, eng, st, e, what, name):
        ty = self.decoded_ty(what)
        i = field(self.F, what, name)
        fty = self.F.types[ty]["v"][0][i]
        return eng.proj(st, e.res, mk("pf", 0, i, fty)), fty

    # ------------------------------------------------------------ rules
    def judge(self, eng, outs):
        bad = []
        self.n = {}

        def rule(pid, good, key, text, p):
            self.n[pid] = self.n.get(pid, 0) + 1
            if good is None:
                bad.append((pid, key, text, p, None))
            elif not good:
                bad.append((pid, key, text, p))

        ps = pieces(outs, self.entry, lambda e: False)
        self.pieces = len(ps)
        vals = [o for o in outs if o.kind in ("ret", "endless", "cut")]
        recognised = {n: False for n in OWN.get(self.kind, ())}
        types = []
        for p, o in zip(ps, vals):
            p.val = o.val if o.kind == "ret" else None
            t = {n: self.type_is(eng, p.end, n) for n in OWN.get(self.kind, ())}
            tx = self.text(eng, p.end)
            p.mine = [n for n in t if tx.is_(n) is True]
            for n in p.mine:
                recognised[n] = True
            types.append(t)
        precise = all(recognised.values())
        self.mostly = 2 * sum(recognised.values()) >= len(recognised)
        for p, t in zip(ps, types):
            if p.val is None:
                continue
            self.path(eng, p, t, precise, rule)
        for n, x in recognised.items():
            rule("S07", True if x else None, "type %s not recognised" % n, "no path for message type %s was found" % n,
                 Piece(self.entry, [], self.entry, "ret", None))
        for o in outs:
            if o.kind == "panic":
                bad.append(("K06", "panic: %s in %s" % (o.why, where(o)), "panic (%s) at %s" % (o.why, o.span),
                            Piece(self.entry, [], o.st, "panic", None)))
        bad += [("K06", *b[1:]) for b in bad if b[0] == "K05"]
        self.n["K06"] = self.n.get("K06", 0) + len(outs)
        return bad

    def path(self, eng, p, types, precise, rule):
        F, end = self.F, p.end
        evs = [e for e in p.events if e.kind == "env"]
        nexts = [e for e in evs if e.name == HANDLER + "handle"]
        eff = [e for e in evs if e.name in EFFECTS]
        R = possible(eng, end, p.val, self.rty)
        s0, s1 = self.state(eng, p.start), self.state(eng, end)
        # K05: what is queued in which state
        for e in evs:
            S = self.view.states(eng, at(end, e), self.conn)
            if e.name == ENQ:
                mine = e.args[1].op == "ptr" and e.args[1].args == self.conn.args
                rule("K05", mine and S <= {"Handshake", "Msgio"}, "enqueue_message in state %s" % "/".join(sorted(S - {"Handshake", "Msgio"})),
                     "a message is queued on a connection that may be in state %s (%s)" % ("/".join(sorted(S)), e.span), p)
            if e.name == ENQ_STDIN:
                rule("K05", S <= {"Stdin"}, "enqueue_stdin in state %s" % "/".join(sorted(S - {"Stdin"})),
                     "stdin data is queued on a connection that may be in state %s (%s)" % ("/".join(sorted(S)), e.span), p)
        # S01: modes only with authorization
        for e in evs + [None]:
            st = end if e is None else at(end, e)
            v = self.state(eng, st)
            before = p.events if e is None else p.events[:p.events.index(e)]
            w = self.justified(eng, p, st, v, before, after_env=e)
            rule("S01", w is None, "unauthorized mode" if w is None else w,
                 "the connection gets a mode without authorization: %s (%s)" % (w, p.events[-1].span if p.events else "?"), p)
        if self.kind == "handshake":
            own_end = s1 is s0 or self.view.states(eng, end, self.conn) <= {"Teardown"}
            if not nexts:
                if "Err" in R:
                    rule("S02", own_end, "failed handshake changes mode", "a failed handshake leaves the connection in another mode", p)
                    rule("S02", not [e for e in eff if e.name in (ENQ, ENQ_STDIN)], "reply to a failed handshake",
                         "a failed handshake gets a reply", p)
                if "Ok" in R:
                    vs = [(self.state(eng, x), x) for x in [at(end, e) for e in evs] + [end]]
                    rule("S02", any(v.op in ("agg", "upd") and possible(eng, x, v, self.view.sty) <= {"Stdin", "Stdout", "Msgio"} for v, x in vs),
                         "success without authorization", "a handshake message is accepted without leaving the handshake", p)
                    rule("S02", "Err" not in R, "result", "it is not known whether the handshake succeeded", p)
        # S07: the handler chain
        if self.kind == "reject":
            e_ = self.err(eng, end, p.val)
            rule("S07", R == {"Err"} and e_ == {"UnknownMessageType"}, "not rejected as unknown",
                 "the last handler does not reject a message as unknown", p)
            rule("S07", not eff and not nexts and s1 is s0, "effects of the last handler", "the last handler has effects (%s)" %
                 ", ".join(e.name.split("::")[-1] for e in eff), p)
            return
        if nexts:
            e = nexts[0]
            rule("S07", len(nexts) == 1, "passed on several times", "a message is passed on %d times (%s)" % (len(nexts), e.span), p)
            rule("S07", p.val is e.res or same_value(eng, end, p.val, e.res, self.rty), "answer is changed",
                 "the answer of the next handler is not returned unchanged (%s)" % e.span, p)
            rule("S07", e.args[0].op == "ptr" and e.args[0].args[0] is self.self_.args[0], "another handler",
                 "a message is passed to something else than the next handler (%s)" % e.span, p)
            rule("S07", e.args[1].op == "ptr" and e.args[1].args == self.msg.args and e.args[2].args == self.conn.args, "other arguments",
                 "a message is not passed on unchanged (%s)" % e.span, p)
            rule("S07", not eff, "effects besides passing on", "a message that is passed on also causes %s (%s)" %
                 (", ".join(x.name.split("::")[-1] for x in eff), e.span), p)
            rule("S07", self.state(eng, at(end, e)) is s0 and s1.op != "agg", "mode changed",
                 "the mode is changed although the message is passed on (%s)" % e.span, p)
            for n, x in types.items():
                rule("S07", x is False or (None if not self.mostly else False), "passes on %s" % n,
                     "a message of type %s is passed on instead of being handled (%s)" % (n, e.span), p)
        else:
            mine = p.mine
            rule("S07", True if mine else (None if not precise else False), "intercepts foreign messages",
                 "a message of a type that this handler does not define is not passed on%s" %
                 (" (%s)" % p.events[-1].span if p.events else ""), p)
            for n in mine:
                self.own(eng, p, n, R, evs, eff, s0, s1, rule)
        self.registrations(eng, p, R, evs, eff, rule)

    def err(self, eng, st, v):
        if "Err" not in possible(eng, st, v, self.rty):
            return set()
        e, ty = payload(eng, st, v, self.rty, "Err")
        return possible(eng, st, e, ty)

    def justified(self, eng, p, st, v, before, after_env=None):
        """is this value of the connection state permitted by what happened before? None or the complaint"""
        if v is self.state(eng, p.start) or v.op not in ("agg", "upd"):
            return None
        S = possible(eng, st, v, self.view.sty)
        if S <= {"Teardown"}:
            return None
        if S <= {"Handshake"}:
            return None
        for mode, auth, hello, new in (("Stdin", "authorize_stdin", "StdinHello", None),
                                       ("Stdout", "authorize_stdout", "StdoutHello", OUTNEW),
                                       ("Msgio", "authorize_client", "ClientHello", MSGNEW)):
            if S != {mode}:
                continue
            x, xty = payload(eng, st, v, self.view.sty, mode)
            if new is not None:
                mk_ = [e for e in before if e.kind == "env" and e.name == new and e.res is x]
                if not mk_:
                    return "%s mode with another connector" % mode
                x, xty = mk_[0].args[0], mk_[0].data["atys"][0]
            for e in before:
                if e.kind == "env" and e.name == APP + auth:
                    oty = self.opt_ty(xty)
                    if possible(eng, p.end, e.res, oty) != {"Some"}:
                        continue
                    y, yty = payload(eng, p.end, e.res, oty, "Some")
                    if not (x is y or same_value(eng, p.end, x, y, yty)):
                        continue
                    ds = self.decoded(p, "::" + hello)
                    if not ds:
                        return "%s mode without a %s" % (mode, hello)
                    for d in ds:
                        sec, sty = self.dfield(eng, p.end, d, "vt6::msg::posix::" + hello, "secret")
                        if same_value(eng, p.end, e.args[1], sec, sty):
                            return None
                    return "%s mode, but another secret was authorized" % mode
            return "%s mode without %s" % (mode, auth)
        return "unknown mode"

    def opt_ty(self, ty):
        for i, t in enumerate(self.F.types):
            if t.get("def") == "core::option::Option" and t.get("args") == [ty]:
                return i
        raise ToolError("no option of %s" % self.F.types[ty]["s"])

    def own(self, eng, p, name, R, evs, eff, s0, s1, rule):
        """a message of one of the types that this handler defines"""
        end = p.end
        E = self.err(eng, end, p.val)
        span = p.events[-1].span if p.events else "?"
        dec = [e for e in p.events if e.kind == "decode"]
        failed = [e for e in dec if e.res is NONE]
        pid = {"want": "S08", "core1.client-make": "S04", "core1.client-end": "S05"}.get(name, "S02")
        if self.kind == "msg":
            if "Err" in R:
                rule(pid, not eff and s1 is s0, "rejected %s has effects" % name,
                     "a rejected %s message has effects: %s (%s)" % (name, ", ".join(e.name.split("::")[-1] for e in eff), span), p)
                rule(pid, E <= {"InvalidMessage"}, "rejection of %s" % name,
                     "a bad %s message is not rejected as invalid (%s)" % (name, span), p)
            if name in HELLOS:
                rule("S01", R == {"Err"}, "%s in message mode" % name,
                     "a %s message is accepted in message mode (%s)" % (name, span), p)
        elif "Err" in R:
            rule("S02", E <= {"InvalidMessage"}, "rejection of %s" % name,
                 "a bad %s message is not rejected as invalid (%s)" % (name, span), p)
        if failed:
            rule(pid, R == {"Err"}, "undecodable %s is accepted" % name, "a %s message that does not decode is accepted (%s)" % (name, span), p)
        if "Ok" in R and self.kind == "msg":
            need_ = {"want": ENQ, "core1.client-make": APP + "register_client", "core1.client-end": APP + "unregister_clients"}.get(name)
            if need_:
                rule(pid, need_ in [e.name for e in eff], "%s has no effect" % name,
                     "a %s message is accepted, but nothing is done (%s)" % (name, span), p)
            if name == "want":
                self.want(eng, p, R, evs, eff, rule)
        if name == "posix1.client-hello" and "Ok" in R and self.kind == "handshake":
            self.hello(eng, p, evs, eff, rule)
        elif self.kind == "handshake" and "Ok" in R:
            rule("S02", not [e for e in eff if e.name == ENQ], "reply to %s" % name, "a %s message gets a reply (%s)" % (name, span), p)

    def sent(self, eng, p, e, what):
        """the message that an enqueue_message event sends, if it is of that type"""
        mty = self.F.types[e.data["atys"][2]].get("e")
        if mty is None or self.F.types[mty].get("def") != what:
            return None, None
        return eng.load(at(p.end, e), e.args[2].args[0], e.args[2].args[1], mty), mty

    def hello(self, eng, p, evs, eff, rule):
        q = [e for e in eff if e.name == ENQ]
        rule("S11", len(q) == 1, "server-hello count", "a client gets %d replies to its client-hello" % len(q), p)
        auth = [e for e in evs if e.name == APP + "authorize_client"]
        for e in q:
            what = "vt6::msg::posix::ServerHello"
            v, ty = self.sent(eng, p, e, what)
            rule("S11", v is not None, "another reply", "a client-hello is not answered with server-hello (%s)" % e.span, p)
            if v is None or not auth:
                continue
            idty = ty_of(self.F, IDENTITY)
            ident, _ = payload(eng, p.end, auth[-1].res, self.opt_ty(idty), "Some")
            for fname, getter in (("client_id", "client_id"), ("stdin_screen_id", "stdin_screen_id"),
                                  ("stdout_screen_id", "stdout_screen_id"), ("stderr_screen_id", "stderr_screen_id")):
                i = field(self.F, what, fname)
                fty = self.F.types[ty]["v"][0][i]
                s = at(p.end, e)
                x = eng.proj(s, v, mk("pf", 0, i, fty))
                r = ref_to(eng, s, ident, idty, "ident")
                for y, s2 in ask(eng, s, IDENTITY + "::" + getter, [r]):
                    rule("S11", y is not None and same_value(eng, s2, x, y, fty), "server-hello %s" % fname,
                         "the server-hello does not report the %s of the client (%s)" % (fname, e.span), p)

    def module_text(self, eng, st, mod, moty):
        s = st.copy()
        s.mem = dict(s.mem)
        r = ref_to(eng, s, mod, moty, "modtext")
        return Text(eng, s, "vt6::common::core::identifiers::ModuleIdentifier::as_str", [r], moty)

    def want(self, eng, p, R, evs, eff, rule):
        q = [e for e in eff if e.name == ENQ]
        rule("S08", len(q) == 1 and len(eff) == 1, "replies to want", "a want message gets %d replies" % len(q), p)
        d = self.decoded(p, "::Want")
        g = [e for e in evs if e.name == MODVER]
        if not d:
            rule("S08", None, "want not decoded", "the module of a want message could not be determined", p)
            return
        wty = self.decoded_ty("vt6::msg::Want")
        moty = self.F.types[wty]["v"][0][0]
        mod = eng.proj(p.end, d[0].res, mk("pf", 0, 0, moty))
        for e in q:
            v, ty = self.sent(eng, p, e, "vt6::msg::Have")
            rule("S08", v is not None, "another reply to want", "want is not answered with have (%s)" % e.span, p)
            if v is None:
                continue
            tx = self.module_text(eng, p.end, mod, moty)
            own = [m for m in ("core1", "posix1") if tx.is_(m) is True]
            if g:
                rule("S08", len(g) == 1, "module queried several times", "the chain is asked %d times for a version (%s)" % (len(g), e.span), p)
                gs = at(p.end, g[0])
                asked = eng.load(gs, g[0].args[1].args[0], g[0].args[1].args[1], moty)
                rule("S08", same_value(eng, gs, asked, mod, moty), "another module is queried",
                     "the chain is asked about another module than that of the want message (%s)" % g[0].span, p)
                s = at(p.end, e)
                have_rule(eng, s, v, ty, mod, moty, g[0], rule, "S08", e, p)
                for m in ("core1", "posix1"):
                    rule("S08", tx.is_(m) is False, "support for %s" % m, "support for %s is not announced (%s)" % (m, e.span), p)
            else:
                rule("S08", bool(own), "module not queried", "a module's version is announced without asking the chain (%s)" % e.span, p)
                if own:
                    s = at(p.end, e)
                    K = possible(eng, s, v, ty)
                    rule("S08", K == {"ThisModule"}, "support for %s" % own[0], "support for %s is denied (%s)" % (own[0], e.span), p)
                    if K == {"ThisModule"}:
                        x, xty = payload(eng, s, v, ty, "ThisModule")
                        for w, s2 in ask(eng, s, "vt6::common::core::identifiers::ModuleIdentifier::with_minor_version",
                                         [ref_to(eng, s, mod, moty, "mod"), I(0)]):
                            rule("S08", w is not None and same_value(eng, s2, x, w, xty), "version of %s" % own[0],
                                 "support for %s is not announced as version %s.0 (%s)" % (own[0], own[0][-1], e.span), p)

    # ------------------------------------------------------------ registering and ending clients
    def own_identity(self, eng, p, before):
        """the client IDs that the path knows to be that of the requester"""
        out = []
        for e in before:
            if e.kind == "env" and e.name == IDENT:
                a = e.args[0]
                if a.op == "ptr" and a.args[0] is self.conn.args[0]:
                    ty = ty_of(self.F, IDENTITY)
                    for v, s in ask(eng, at(p.end, e), IDENTITY + "::client_id", [e.res]):
                        if v is not None:
                            out.append(v)
        return out

    def registrations(self, eng, p, R, evs, eff, rule):
        end = p.end
        reg = [e for e in evs if e.name == APP + "register_client"]
        unreg = [e for e in evs if e.name == APP + "unregister_clients"]
        bc = [e for e in evs if e.name == BCAST]
        for group, pid, what in ((reg, "S04", "ClientMake"), (unreg + bc, "S05", "ClientEnd")):
            if not group:
                continue
            other = {"S04": unreg + bc, "S05": reg}[pid]
            ds = self.decoded(p, "::" + what)
            rule(pid, not other, "mixed effects", "clients are registered and ended at once (%s)" % group[0].span, p)
            rule(pid, "Err" not in R, "effects of a rejected message", "clients are registered or ended by a message that is rejected (%s)"
                 % group[0].span, p)
            if not ds:
                rule(pid, None, "%s not decoded" % what, "the client ID of the message could not be determined", p)
                continue
            d = ds[0]
            adt = "vt6::msg::core::" + what
            new, cty = self.dfield(eng, end, d, adt, "client_id")
            for e in group:
                before = p.events[:p.events.index(e)]
                ok_ = False
                for own in self.own_identity(eng, p, before):
                    if contains(eng, at(end, e), "StrictlyBelow", own, new) == {True}:
                        ok_ = True
                rule(pid, ok_, "not below the requester", "%s is called although the client ID may not be strictly below that of the requester (%s)"
                     % (e.name.split("::")[-1], e.span), p)
            if pid == "S04":
                self.register(eng, p, reg, new, cty, d, adt, evs, eff, rule)
            else:
                self.ends(eng, p, unreg, bc, new, cty, evs, eff, rule)

    def sel(self, eng, p, e, i, variant, cid, cty):
        """does an event's argument select exactly the IDs at or below this one?"""
        v = e.args[i]
        ty = ty_of(self.F, SELECTOR)
        st = at(p.end, e)
        if v.op == "ptr":
            v = eng.load(st, v.args[0], v.args[1], ty)
        if possible(eng, st, v, ty) != {variant}:
            return False
        x, xty = payload(eng, st, v, ty, variant)
        return same_value(eng, st, x, cid, cty)

    def register(self, eng, p, reg, new, cty, d, adt, evs, eff, rule):
        end = p.end
        rule("S04", len(reg) == 1, "registered several times", "a client-make registers %d clients (%s)" % (len(reg), reg[0].span), p)
        e = reg[0]
        idx = p.events.index(e)
        free = [h for h in p.events[:idx] if h.kind == "env" and h.name == APP + "has_clients"
                and end.fact.decide(h.res) is False and self.sel(eng, p, h, 1, "AtOrBelow", new, cty)]
        rule("S04", bool(free), "not known to be free", "a client is registered although clients may be registered at or below its ID (%s)" % e.span, p)
        ty = ty_of(self.F, IDENTITY)
        for fname in ("client_id", "stdin_screen_id", "stdout_screen_id", "stderr_screen_id"):
            x, xty = self.dfield(eng, end, d, adt, fname)
            s = at(end, e)
            r = ref_to(eng, s, e.args[1], ty, "reg")
            for y, s2 in ask(eng, s, IDENTITY + "::" + fname, [r]):
                rule("S04", y is not None and same_value(eng, s2, x, y, xty), "registered %s" % fname,
                     "the registered client does not have the requested %s (%s)" % (fname, e.span), p)
        q = [x for x in eff if x.name == ENQ]
        rule("S04", len(q) == 1 and p.events.index(q[0]) > idx, "replies to client-make",
             "a successful client-make gets %d replies (%s)" % (len(q), e.span), p)
        cr = "vt6::server::auth::ClientCredentials"
        for x in q:
            v, ty = self.sent(eng, p, x, "vt6::msg::core::ClientNew")
            rule("S04", v is not None, "another reply to client-make", "client-make is not answered with client-new (%s)" % x.span, p)
            if v is None:
                continue
            i = field(self.F, "vt6::msg::core::ClientNew", "secret")
            fty = self.F.types[ty]["v"][0][i]
            s = at(end, x)
            got = eng.proj(s, v, mk("pf", 0, i, fty))
            r = ref_to(eng, s, e.res, ty_of(self.F, cr), "creds")
            for y, s2 in ask(eng, s, cr + "::secret", [r]):
                rule("S04", y is not None and same_value(eng, s2, got, y, fty), "secret in client-new",
                     "the requester is not sent the secret issued for the client (%s)" % x.span, p)

    def ends(self, eng, p, unreg, bc, new, cty, evs, eff, rule):
        e = (unreg + bc)[0]
        rule("S05", len(unreg) == 1, "unregistered %s times" % (len(unreg) if len(unreg) < 2 else "several"),
             "client-end releases registrations %d times (%s)" % (len(unreg), e.span), p)
        rule("S05", len(bc) == 1, "broadcast %s times" % (len(bc) if len(bc) < 2 else "several"),
             "client-end queues %d broadcasts (%s)" % (len(bc), e.span), p)
        rule("S05", not [x for x in eff if x.name not in (BCAST, APP + "unregister_clients")], "other effects of client-end",
             "client-end has other effects (%s)" % e.span, p)
        for x in unreg:
            rule("S05", self.sel(eng, p, x, 1, "AtOrBelow", new, cty), "other clients are unregistered",
                 "not exactly the clients at or below the given ID are unregistered (%s)" % x.span, p)
        for x in bc:
            self.broadcast(eng, p, x, new, cty, rule)

    def broadcast(self, eng, p, e, new, cty, rule):
        """the action of a broadcast, for an arbitrary connection"""
        st = at(p.end, e)
        a = e.args[1]
        v = a
        for _ in range(4):
            if v.op == "ptr":
                v = eng.load(st, v.args[0], v.args[1])
        t = self.F.types[v.args[1]] if v.op == "agg" and v.args[0] == "closure" else {}
        if t.get("inst") is None:
            rule("S05", None, "broadcast action", "the action of the broadcast is not known (%s)" % e.span, p)
            return
        body = self.F.insts[t["inst"]]["body"]
        e2 = engine(self.F, 60, anchors=self.anchors())
        e2.merge, e2.snap = False, True
        s = st.copy()
        s.ev, s.frames = None, ()
        box = {}
        a1 = v if self.F.types[body["locals"][1]]["k"] != "ref" else None
        if a1 is None:
            s.mem = dict(s.mem)
            a1 = ref_to(eng, s, v, v.args[1], "action")
        c = e2.mksym(s, body["locals"][2], "anyconn", 0)
        outs = e2.run_root(t["inst"], [a1, c], s.copy())
        for o in outs:
            if o.kind == "panic":
                rule("K06", False, "panic in a broadcast", "a broadcast may panic (%s)" % o.span, p)
            if o.kind != "ret":
                continue
            end = o.st
            evs = [x for x in end.trace() if x.kind == "env"]
            q = Piece(s, end.trace(), end, "ret", None)
            b, a_ = self.view.value(e2, s, c), self.view.value(e2, end, c)
            s0 = s.copy()
            s0.fact = end.fact
            S0, S1 = possible(e2, s0, b, self.view.sty), possible(e2, end, a_, self.view.sty)
            ids = [x for x in evs if x.name == IDENT and x.args[0].op == "ptr" and x.args[0].args[0] is c.args[0]]
            sel = None
            if ids:
                sel = set()
                for cid, s2 in ask(e2, end, IDENTITY + "::client_id", [ids[-1].res]):
                    sel |= {None} if cid is None else contains(e2, s2, "AtOrBelow", new, cid)
            where_ = "%s" % (e.span,)
            rule("S05", not [x for x in evs if x.name in EFFECTS], "effects of the broadcast", "the broadcast of client-end has other effects (%s)" % where_, q)
            if a_ is b:
                if "Msgio" in S0:
                    rule("S05", sel == {False}, "a connection survives",
                         "a message-mode connection at or below the ended client ID may survive client-end (%s)" % where_, q)
                else:
                    rule("S05", True, "", "", q)
            else:
                rule("S05", S1 == {"Teardown"}, "other modes", "client-end puts connections into another mode than teardown (%s)" % where_, q)
                rule("S05", S0 <= {"Msgio"} and sel == {True}, "other connections are torn down",
                     "client-end may tear down connections that are not at or below the given client ID (%s)" % where_, q)


class Fixed:
    """handle_error and get_supported_module_version of a handler"""

    def __init__(self, F, kind, fn):
        self.F, self.kind, self.fn = F, kind, fn
        self.name = impl(kind, fn)
        self.view = ConnView(F)
        self.n = {}

    def anchors(self):
        return env(self.F, dict(decode_contract(self.F), **{SELECTOR + "::contains": contains_contract}))

    def run(self, eng):
        def prep(e, st, args):
            self.args = list(args)
            self.entry = st.copy()
        self.body = self.F.insts[need(self.F, self.name)]["body"]
        return eng.run_root(need(self.F, self.name), prep=prep)

    def judge(self, eng, outs):
        bad = []
        self.n = {}

        def rule(pid, good, key, text, p):
            self.n[pid] = self.n.get(pid, 0) + 1
            if not good:
                bad.append((pid, key, text, p))

        self.pieces = 0
        for o in outs:
            if o.kind == "panic":
                bad.append(("K06", "panic: %s in %s" % (o.why, where(o)), "panic (%s) at %s" % (o.why, o.span),
                            Piece(self.entry, [], o.st, "panic", None)))
            if o.kind != "ret":
                continue
            self.pieces += 1
            evs = [e for e in o.st.trace() if e.kind == "env"]
            p = Piece(self.entry, o.st.trace(), o.st, "ret", None)
            eff = [e for e in evs if e.name in EFFECTS and e.name != HANDLER + "handle_error"]
            if self.fn == "handle_error":
                nx = [e for e in evs if e.name == HANDLER + "handle_error"]
                want = 0 if self.kind == "reject" else 1
                rule("S07", len(nx) == want, "parse errors passed on %s times" % len(nx),
                     "a parse error is passed on %d times instead of %d" % (len(nx), want), p)
                rule("S07", not eff, "effects of parse errors", "a handler reacts to a parse error itself", p)
                for e in nx:
                    rule("S07", e.args[1].op == "ptr" and e.args[1].args == self.args[1].args and e.args[2].args == self.args[2].args,
                         "error arguments", "a parse error is not passed on unchanged (%s)" % e.span, p)
                    rule("S07", self.view.value(eng, at(o.st, e), self.args[2]) is self.view.value(eng, self.entry, self.args[2]),
                         "mode changed by a parse error", "the mode is changed before a parse error is passed on (%s)" % e.span, p)
                if not nx:
                    rule("S07", self.view.value(eng, o.st, self.args[2]) is self.view.value(eng, self.entry, self.args[2]),
                         "mode changed by a parse error", "a handler changes the mode after a parse error", p)
                continue
            rty = self.body["locals"][0]
            nx = [e for e in evs if e.name == MODVER]
            R = possible(eng, o.st, o.val, rty)
            if self.kind == "reject":
                rule("S07", R == {"None"} and not nx, "last handler supports a module", "the last handler announces support for a module", p)
                continue
            tx = Text(eng, o.st, "vt6::common::core::identifiers::ModuleIdentifier::as_str", [self.args[1]], None)
            own = [m for m in ("core1", "posix1") if tx.is_(m) is True]
            if nx:
                e = nx[0]
                rule("S07", len(nx) == 1, "module query passed on several times", "a module query is passed on %d times" % len(nx), p)
                rule("S07", o.val is e.res or same_value(eng, o.st, o.val, e.res, rty), "module answer is changed",
                     "the next handler's answer to a module query is changed (%s)" % e.span, p)
                rule("S07", e.args[1].op == "ptr" and e.args[1].args == self.args[1].args, "module query is changed",
                     "a module query is not passed on unchanged (%s)" % e.span, p)
                for m in ("core1", "posix1"):
                    rule("S08", tx.is_(m) is False, "support for %s" % m, "a query for %s is passed on (%s)" % (m, e.span), p)
            else:
                rule("S07", bool(own), "module query answered", "a query for a module other than core1 and posix1 is not passed on", p)
                if own:
                    v, vty = payload(eng, o.st, o.val, rty, "Some")
                    rule("S08", R == {"Some"} and o.st.fact.eq(v, I(0)), "version of %s" % own[0],
                         "%s is not supported with minor version 0" % own[0], p)
        bad += [("K06", *b[1:]) for b in bad if b[0] == "K05"]
        self.n["K06"] = self.n.get("K06", 0) + len(outs)
        return bad


def handlers(ctx, pid, which, budget=120):
    """which: {kind: least number of rule instances}"""
    F = ctx.facts()
    for kind, least in which.items():
        if isinstance(kind, tuple):
            run_rules(ctx, pid, Fixed(F, *kind), least)
        else:
            run_rules(ctx, pid, Handler(F, kind), least)


@check("S07")
def s07(ctx):
    """Abstract interpretation of every Handler and MessageHandler implementation of the library with an
    arbitrary next handler: for each path, which message types can take it, how often and with what the next
    handler is called, what is returned, and which other effects there are."""
    handlers(ctx, "S07", {"handshake": 20, "msg": 20, "reject": 2, ("handshake", "handle_error"): 2, ("msg", "handle_error"): 2,
                          ("reject", "handle_error"): 2, ("msg", "get_supported_module_version"): 3,
                          ("reject", "get_supported_module_version"): 1})


@check("S04")
def s04(ctx):
    """Abstract interpretation of the message handler: on every path that registers a client, the facts of the path
    must entail that the decoded ID is strictly below the requester's and free, the registered identity must be the
    decoded one, and exactly one reply with the issued secret must follow."""
    handlers(ctx, "S04", {"msg": 20})


@check("S05")
def s05(ctx):
    """Abstract interpretation of the message handler and of the broadcast action that it queues (for an arbitrary
    connection): which clients are unregistered and which connections are torn down, on every path."""
    handlers(ctx, "S05", {"msg": 10})


@check("S08")
def s08(ctx):
    """Abstract interpretation of the message handler and its module query: on every path of a want message the
    reply is exactly one have message about the decoded module, with the version that the chain reports."""
    handlers(ctx, "S08", {"msg": 10, ("msg", "get_supported_module_version"): 2})


def constructors(F, adt, names):
    """functions of the crate that construct these variants of an enum: {function: [(variant, span)]}"""
    vs = variants(F, adt)
    want = {vs.index(n) for n in names}
    out = {}
    for ins in F.insts:
        if not ins.get("local") or H in ins["def"]:
            continue
        bodies = [ins["body"]] if ins.get("body") else []
        bodies += ins.get("promoted") or []
        for body in bodies:
            for b in body["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt":
                        t = F.types[s[2][2][0]]
                        if t.get("def") == adt and s[2][2][1] in want:
                            out.setdefault(ins["def"], []).append((vs[s[2][2][1]], s[3]))
    return out


@check("S01")
def s01(ctx):
    """Abstract interpretation of Connection::handle_incoming and of the library's handlers: whenever a connection
    has a mode that the library gave it, the same path authorized the secret of the decoded hello message for that
    mode and the mode is bound to the identity returned; all code that constructs such a mode must be covered."""
    incoming(ctx, "S01", 1)
    handlers(ctx, "S01", {"handshake": 30, "msg": 60})
    F = ctx.facts()
    made = constructors(F, CS, ("Stdin", "Stdout", "Msgio"))
    ctx.floor("functions that construct modes", len(made), 1)
    for fn, sites in sorted(made.items()):
        ctx.oblige(fn in ctx.funcs, "construct in %s" % fn, "%s gives a connection %s mode outside of the handshake (%s)"
                   % (fn, sites[0][0], sites[0][1]))


@check("S02")
def s02(ctx):
    """Abstract interpretation of Connection::handle_incoming and of the handshake handler: every path of a failed
    handshake ends in teardown without anything queued, and incomplete input changes nothing."""
    incoming(ctx, "S02", 10)
    handlers(ctx, "S02", {"handshake": 10})


@check("S03")
def s03(ctx):
    """Abstract interpretation of Connection::handle_incoming for an arbitrary message handler: the reply queued on
    every path after the handler returned, by the handler's result and the type of the message."""
    incoming(ctx, "S03", 30)


@check("K05")
def k05(ctx):
    """Abstract interpretation of Connection::handle_incoming and of the library's handlers: the set of possible
    modes at every point where a message or stdin data is queued, after arbitrary handlers ran."""
    incoming(ctx, "K05", 3)
    handlers(ctx, "K05", {"handshake": 1, "msg": 3})


@check("S06")
def s06(ctx):
    """Abstract interpretation of ClientSelector::contains for two arbitrary client IDs: the answer must equal the
    prefix relation of their texts."""
    F = ctx.facts()
    for n in ("s06_below", "s06_strictly", "s06_self"):
        analyse(ctx, F, harness_fn(F, n), n, merge=False)


@check("S11")
def s11(ctx):
    """Abstract interpretation of the constructors and accessors of client and screen identities for arbitrary
    values, and of the handshake handler: each field of the server-hello it queues is the corresponding property of
    the identity that the application returned."""
    F = ctx.facts()
    for n in ("s11_new", "s11_stdin", "s11_stdout", "s11_stderr", "s11_screen"):
        analyse(ctx, F, harness_fn(F, n), n, merge=False)
    handlers(ctx, "S11", {"handshake": 4})


# ---------------------------------------------------------------- secrets
AUTH = "vt6::server::auth::"


def as_slice(eng, st, v, ty):
    """the bytes behind a reference to a slice, array, vector or string"""
    while v.op == "ptr":
        t = eng.T[ty]
        if t["k"] != "ref":
            return None
        e = eng.T[t["e"]]
        if e["k"] == "array":
            return slice_(v.args[0], v.args[1], I(0), I(e["n"])) if isinstance(e.get("n"), int) else None
        if e.get("def") == "alloc::vec::Vec":
            _, n = vec_place(eng, st, v)
            return slice_(v.args[0], v.args[1] + (pf(0),), I(0), n)
        v, ty = eng.load(st, v.args[0], v.args[1], t["e"]), t["e"]
    return v if v.op == "slice" else None


def random_fill(eng, st, c):
    """getrandom: fills the whole buffer with fresh random bytes, or fails"""
    d = as_slice(eng, st, c.args[0], c.atys[0])
    st.n += 1
    t = eng.T[c.dty]
    res = eng.mksym(st, t["v"][1][0], "randerr", c.site, st.n)
    bad = st.copy()
    bad.emit(Ev("random", "failed", (), None, c.span, c.frame.name))
    out = [(bad, err(res))]
    if d is None:
        raise Unsupported("buffer of getrandom")
    r = mk("rand", c.site, st.n)
    old = eng.load(st, d.args[0], d.args[1])
    eng.store(st, d.args[0], d.args[1], mk("copyrng", old, d.args[2], d.args[3], r, I(0)))
    st.emit(Ev("random", "filled", (r, d.args[3]), None, c.span, c.frame.name))
    out.append((st, ok(UNIT)))
    return out


def base64_text(eng, st, c):
    s = as_slice(eng, st, c.args[0], c.atys[0])
    if s is None:
        raise Unsupported("argument of base64")
    s = content(eng, st, s)
    x = mk("b64", s)
    return [(st, mk("strof", slice_(mk("cv", x), (), I(0), mk("b64len", s, "usize"))))]


def lossy_case(eng, st, c):
    """base64 text has letters of both cases"""
    s = as_slice(eng, st, c.args[0], c.atys[0])
    if s is None or not any(t.op == "b64" for t in subterms(content(eng, st, s))):
        return None
    s = content(eng, st, s)
    return [(st, mk("strof", slice_(mk("cv", mk("lossycase", s)), (), I(0), s.args[3])))]


SECRET_ENV = {"getrandom::getrandom": random_fill, "base64::encode::encode_config": base64_text, "base64::encode::encode": base64_text,
              "str::to_lowercase": lossy_case, "str::to_uppercase": lossy_case, "str::to_ascii_lowercase": lossy_case,
              "str::to_ascii_uppercase": lossy_case}


def secret_strength(eng, st, v):
    """(bits of randomness, random source) that end up in a secret, or a complaint, or None when not known"""
    if v.op != "slice":
        return None
    v = content(eng, st, v)
    r = v.args[0]
    if r.op == "const":
        return (0, None)
    x = r.args[0] if r.op in ("cv", "deref") else r
    # a conversion that replaces whatever is not valid text
    for t in subterms(x):
        if t.op == "lossy" and any(u.op == "rand" for u in subterms(t)) and not any(u.op == "b64" for u in subterms(t)):
            return ("a lossy conversion of", None)
        if t.op == "lossycase":
            return ("a conversion to one case of", None)
    if r.op != "cv":
        return None
    if x.op == "b64":
        src = x.args[0]
        whole = st.fact.eq(v.args[2], I(0)) and st.fact.eq(v.args[3], mk("b64len", src, "usize"))
        per, ln = (8, src.args[3]) if whole else (6, v.args[3])
        if src.args[0].op == "const":
            return (0, None)
        if not any(t.op == "rand" for t in subterms(src)):
            return (0, None)
        m = [n for n in range(0, 129) if st.fact.eq(src.args[3], I(n))]
        chars = [n for n in range(0, 129) if st.fact.eq(ln, I(n))]
        if not m:
            return None
        bits, atoms = 0, set()
        for i in range(m[0]):
            b = byte(eng, st, src, I(i))
            def base(t):
                x = t.args[0]
                while x.op in ("cv", "val"):
                    x = x.args[0]
                return x
            at = {(base(t), t.args[1]) for t in subterms(b) if t.op == "sel" and base(t).op == "rand"}
            if any(t.op == "rand" for t in subterms(b)) and not at or any(j.op != "int" for _, j in at):
                return None
            if b.op != "sel" and at and any(t.op in ("rem", "lib", "opaque", "copyrng", "ite") for t in subterms(b)):
                return None
            size = sum(hi - lo + 1 for lo, hi in st.fact.range_of(b)) if at else 1
            bits += min(8 * len(at), max(size - 1, 0).bit_length())
            atoms |= at
        bits = min(bits, 8 * len(atoms))
        return (bits if whole else min(bits, 6 * chars[0]) if chars else None, frozenset(atoms)) if whole or chars else None
    if any(t.op == "rand" for t in subterms(v)) or any(t.op in ("lib", "opaque") for t in subterms(v)):
        return None
    return (0, None)


def amount(st, ev):
    """how many bytes a successful call of the random source filled at most"""
    n = ev.args[1]
    _, hi = st.fact.bounds(n)
    return hi if hi is not None and hi < 1 << 16 else None


def secrets(ctx, adt, getters):
    F = ctx.facts()
    f = F.fn(AUTH + adt + "::generate")
    if f is None:
        raise ToolError("%s::generate is missing" % adt)
    eng = engine(F, 60, anchors=SECRET_ENV)
    eng.merge = False
    outs = eng.run_root(f["inst"])
    ctx.funcs |= eng.seen_fns
    ty = F.insts[f["inst"]]["body"]["locals"][0]
    rets = [o for o in outs if o.kind == "ret"]
    ctx.floor("%s::generate paths" % adt, len(rets), 1)
    for o in outs:
        if o.kind == "unknown":
            ctx.oblige(None, adt, "path of %s::generate cut short: %s" % (adt, o.st.taint))
    for o in rets:
        st = o.st.copy()
        st.mem = dict(st.mem)
        r = ref_to(eng, st, o.val, ty, "creds")
        used = {}
        for g in getters:
            for v, s in ask(eng, st, AUTH + adt + "::" + g, [r]):
                x = None if v is None or o.st.taint else secret_strength(eng, s, v)
                key = "%s::%s" % (adt, g)
                draws = [e for e in o.st.trace() if e.kind == "random"]
                drawn = sum(n * 8 if n is not None else 1 << 20 for n in [amount(s, e) for e in draws if e.name == "filled"])
                if draws and drawn < 128 * len(getters) and not widened(o):
                    # whatever becomes of them, there are no more random bits than those that were drawn
                    if not any(w in str(t) for t in o.st.taint for w in ("static", "io::", "fs::", "rand", "::ffi", "libc", "budget")):
                        ctx.violation(key + " strength", "%s::generate draws only %d random bits for %d secret%s of at least 128 bits"
                                      % (adt, drawn, len(getters), "s" if len(getters) > 1 else ""))
                        continue
                if x is not None and isinstance(x[0], str):
                    ctx.oblige(False, key + " loss", "the secret of %s is %s the random bytes, which loses some of them" % (key, x[0]))
                    continue
                if x is None:
                    ctx.oblige(None, key, "the randomness of %s could not be determined" % key)
                    continue
                bits, src = x
                failed = [e for e in o.st.trace() if e.kind == "random" and e.name == "failed"]
                ctx.oblige(bits >= 128, key + " strength", "a secret that %s returns has only %d bits of randomness%s (%s::generate)"
                           % (key, bits, " after the random source failed" if failed else "", adt))
                if src is not None:
                    with_ = [k for k, y in used.items() if y & src]
                    ctx.oblige(not with_, key + " independence", "%s shares its random bytes with %s" % (key, with_))
                    used[key] = src


@check("S09")
def s09(ctx):
    """Abstract interpretation of ClientCredentials::generate and ScreenCredentials::generate with the random source
    as environment (it fills a buffer with fresh bytes or fails) and base64 as an injective function: provenance of
    every byte of every secret that a returned value gives out, on every path."""
    secrets(ctx, "ClientCredentials", ["secret"])
    secrets(ctx, "ScreenCredentials", ["stdin_secret", "stdout_secret"])
    F = ctx.facts()
    for adt in ("ClientCredentials", "ScreenCredentials"):
        names = variants(F, AUTH + adt)
        made = constructors(F, AUTH + adt, names)
        ctx.floor("constructors of %s" % adt, len(made), 1)
        for fn, sites in sorted(made.items()):
            ctx.oblige(fn in ctx.funcs or "as core::clone::Clone>" in fn, "%s in %s" % (adt, fn),
                       "%s makes credentials that were not generated (%s)" % (fn, sites[0][1]))
