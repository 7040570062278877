"""The example server's application object (S10)"""
from . import check
from .common import *
from ..engine import agg, some, NONE, ok, slice_, ptr, UNIT, St, Unsupported
from ..models import VEC, lock_id, seq_eq, content, vec_place
from ..run import ToolError

APPL = "vt6::server::application::Application"
AUTH = "vt6::server::auth::"
LOCKS = ("std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock")
CONTAINERS = ("alloc::vec::Vec", "std::collections", "alloc::collections", "std::sync::poison", "core::cell", "alloc::boxed")
SECRETS = {"authorize_client": "ClientCredentials::secret", "authorize_stdin": "ScreenCredentials::stdin_secret",
           "authorize_stdout": "ScreenCredentials::stdout_secret"}
EPOCH = mk("epoch", 0, mk("name", "app"))
TRUE, FALSE = I(1), I(0)


class App:
    """the application object with a state that survives calls, for arbitrary initial flags and clients"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.F = F = ctx.facts("vt6_example_server")
        self.T = F.types
        pre = {}
        for f in F.fns:
            if f.get("trait") == APPL and "{closure" not in f["def"]:
                a, b = f["def"].rsplit("::", 1)
                pre.setdefault(a, {})[b] = f
        pre = {a: b for a, b in pre.items() if "authorize_client" in b}
        if len(pre) != 1:
            raise ToolError("expected one implementation of Application in the example server, found %d" % len(pre))
        self.methods = list(pre.values())[0]
        self.selfty = self.T[F.insts[self.methods["authorize_client"]["inst"]]["body"]["locals"][1]]["e"]
        self.locks = self.find_lock(self.selfty, 0)
        self.texts = {}
        self.elems = []

    def find_lock(self, ty, depth):
        t = self.T[ty]
        if t.get("def") in LOCKS:
            return [ty]
        r = []
        if depth < 6:
            for x in [y for v in (t.get("v") or []) for y in v] + (t.get("f") if isinstance(t.get("f"), list) else []) + \
                    [a for a in (t.get("args") or []) if isinstance(a, int)] + ([t["e"]] if isinstance(t.get("e"), int) else []):
                r += self.find_lock(x, depth + 1)
        return sorted(set(r))

    # --- contracts
    def text(self, kind, x):
        """secrets are fresh: different objects have different ones"""
        k = (kind, x)
        if k not in self.texts:
            self.texts[k] = ("%s-%d" % (kind, len(self.texts))).encode()
        b = self.texts[k]
        return slice_(mk("const", b), (), I(0), I(len(b)))

    def kind_of(self, b):
        return [k for k, v in self.texts.items() if v == b]

    def obj(self, eng, st, c, i=0):
        v = c.args[i]
        n = 0
        ty = c.atys[i]
        while v.op == "ptr" and n < 3:
            ty = self.T[ty].get("e") if ty is not None else None
            v = eng.load(st, v.args[0], v.args[1], ty)
            n += 1
        return v

    def contracts(self):
        def secret(kind):
            def f(eng, st, c):
                return [(st, self.text(kind, self.obj(eng, st, c)))]
            return f

        def same(eng, st, c):
            return [(st, self.obj(eng, st, c))]

        def generate(eng, st, c):
            st.n += 1
            return [(st, mk("fresh", c.site, st.n))]

        def ident(eng, st, c):
            return [(st, mk("idof", self.obj(eng, st, c)))]

        def contains(eng, st, c):
            x = mk("selects", self.obj(eng, st, c), self.obj(eng, st, c, 1), "bool")
            return [(g, TRUE if t else FALSE) for t, g in eng.branch(st, x)]

        def ideq(eng, st, c):
            a, b = self.obj(eng, st, c), self.obj(eng, st, c, 1)
            if a is b:
                return [(st, TRUE)]
            return [(g, TRUE if t else FALSE) for t, g in eng.branch(st, mk("sameid", *sorted((a, b), key=lambda t: t.id), "bool"))]

        def nothing(eng, st, c):
            return [(st, UNIT)]

        def fold(eng, st, c):
            """equal texts are equal, and others may be, too"""
            r = []
            for t, g in eng.branch(st, seq_eq(eng, st, c.args[0], c.args[1])):
                if t:
                    r.append((g, TRUE))
                else:
                    g.n += 1
                    r += [(h, TRUE if u else FALSE) for u, h in eng.branch(g, mk("nocase", c.site, g.n, "bool"))]
            return r
        a = {AUTH + "ClientCredentials::generate": generate, AUTH + "ScreenCredentials::generate": generate,
             AUTH + "ClientIdentity::client_id": ident, AUTH + "ClientSelector::contains": contains,
             "str::eq_ignore_ascii_case": fold,
             "<vt6::common::core::identifiers::ClientID as core::cmp::PartialEq>::eq": ideq,
             "vt6::common::core::identifiers::ClientID::as_str": lambda eng, st, c: [(st, self.text("id", self.obj(eng, st, c)))]}
        for m, s in SECRETS.items():
            a[AUTH + s] = secret(s)
        for t in ("ClientIdentity", "ClientCredentials", "ScreenIdentity", "ScreenCredentials"):
            a["<%s%s as core::clone::Clone>::clone" % (AUTH, t)] = same
        a["<vt6::common::core::identifiers::ClientID as core::clone::Clone>::clone"] = same
        for n in LOCKS:
            for m in ("lock", "read", "write"):
                a["%s::%s" % (n, m)] = self.acquire
        return a

    def acquire(self, eng, st, c):
        """the state stays what it was, except for what another thread does between two acquisitions in one call"""
        lk = lock_id(eng, c.args[0], c.atys[0])
        held = st.aux.get("held", ())
        if any(h[0] is lk for h in held):
            return [Out("endless", st)]
        mode = c.gname.rsplit("::", 1)[1]
        res = []
        states = [st]
        if st.aux.get("acquired", 0) and self.other and not self.busy:
            self.busy = True
            s = st.copy()
            try:
                inst, args = self.other
                for o in eng.call_inst(s, inst, list(args), mk("frame", c.site, 77, inst), c.span):
                    if o.kind == "ret":
                        for t in self.somes(eng, o):
                            t.setaux("stolen", True)
                            t.setaux("acquired", st.aux.get("acquired", 0))
                            states.append(t)
            finally:
                self.busy = False
        for s in states:
            s.setaux("acquired", s.aux.get("acquired", 0) + 1)
            s.emit(Ev("acquire", mode, (lk, EPOCH), None, c.span, c.frame.name, data=held))
            s.setaux("held", held + ((lk, mode, EPOCH),))
            self.data(eng, s, lk)
            res.append((s, ok(agg("guard", 0, lk, mk("name", mode), EPOCH))))
        return res

    # --- the state
    def data(self, eng, st, lk):
        root = mk("lockdata", lk, EPOCH)
        if root in st.mem:
            return root
        ty = [l for l in self.locks if self.T[l]["s"] == lk.args[0]]
        if not ty:
            raise Unsupported("a lock that is not part of the application object")
        ty = self.T[ty[0]]["args"][0]
        st.rty = dict(st.rty)
        st.rty[root] = ty
        st.mem[root] = eng.mksym(st, ty, "app", lk)
        for path, vt in self.vectors(ty, ()):
            et = self.T[vt]["args"][0]
            e = []
            for i in range(self.size):
                e.append(eng.mksym(st, et, "elem", mk("name", str(path)), i))
            eng.store(st, root, path, agg(VEC, 0, mk("arrlit", *e), I(self.size)))
        return root

    def vectors(self, ty, path):
        t = self.T[ty]
        if t.get("def") == CONTAINERS[0]:
            yield path, ty
        elif t["k"] == "adt" and (t.get("def") or "").startswith(CONTAINERS[1:]):
            self.unknown.add(t["s"])
        elif t["k"] in ("adt", "tuple"):
            fs = (t.get("v") or [[]]) if t["k"] == "adt" else [t["f"]]
            if len(fs) == 1 and not (t.get("def") or "").startswith("vt6::"):
                for i, f in enumerate(fs[0]):
                    yield from self.vectors(f, path + (mk("pf", 0, i, f),))

    def content(self, eng, st):
        """[(path, elements)] of the vectors in the state"""
        r = []
        for root in [x for x in st.mem if x.op == "lockdata"]:
            for path, vt in self.vectors(st.rty[root], ()):
                v = eng.load(st, root, path, vt)
                if v.op == "agg" and v.args[2].op == "arrlit" and v.args[3].op == "int":
                    r.append((path, vt, v.args[2].args))
                else:
                    r.append((path, vt, None))
        return r

    # --- runs
    def start(self, size, budget=60):
        self.size, self.unknown = size, set()
        self.busy, self.other = False, None
        e = engine(self.F, budget, anchors=self.contracts())
        e.merge = False
        e.unroll = 6
        return e

    def args(self, eng, st, name, tag):
        inst = self.methods[name]["inst"]
        body = self.F.insts[inst]["body"]
        me = ptr(mk("me"))
        if me.args[0] not in st.mem:
            st.mem[me.args[0]] = eng.mksym(st, self.selfty, "me")
            st.rty = dict(st.rty)
            st.rty[me.args[0]] = self.selfty
        return [me] + [eng.mksym(st, body["locals"][1 + i], "arg", mk("name", "%s%s" % (name, tag)), i) for i in range(1, body["argc"])]

    def call(self, eng, st, name, args, race=False):
        inst = self.methods[name]["inst"]
        s = st.copy()
        s.frames = ()
        s.setaux("acquired", 0)
        s.setaux("held", ())
        self.other = (inst, args) if race else None
        outs = eng.run_root(inst, list(args), s)
        self.ctx.funcs |= {f for f in eng.seen_fns if H not in f}
        return outs

    def somes(self, eng, o):
        """the states in which the returned option has a value"""
        v = o.val
        if v.op == "agg":
            return [o.st] if v.args[1] == 1 else []
        s = o.st.copy()
        d = eng.discr_of(s, v, None) if False else mk("disc", v, "isize")
        f = s.fact.add_eq(addc(d, -1))
        s.taint = s.taint + ("result not known",)
        return [s.with_fact(f)] if f is not None else []


def sure(st):
    return not st.taint


@check("S10")
def s10(ctx):
    """Typestate of the example server's application object, by abstract interpretation of its methods one after the
    other on a state with up to two clients (given by their elements; identities, flags and the presented secret are
    arbitrary, the secrets in the state are pairwise different). A successful authorization implies that the presented
    secret is the one of the right kind; after it, neither the same call, nor any other call followed by it, nor a
    concurrent call between two acquisitions of the lock, succeeds with the same secret. Unregistering keeps exactly
    the clients that the selector does not contain."""
    A = App(ctx)
    for m in list(SECRETS) + ["unregister_clients"]:
        if m not in A.methods:
            raise ToolError("the application has no method %s" % m)
    n = 0
    for m in SECRETS:
        for size in ((0, 1, 2) if m == "authorize_client" else (1,)):
            n += once(ctx, A, m, size)
    ctx.floor("successful authorizations", n, 4)
    k = 0
    for size in (0, 1, 2):
        k += released(ctx, A, size)
    ctx.floor("ways to release clients", k, 4)


def guarded(ctx, A, key, f):
    try:
        return f()
    except (Budget, Unsupported) as x:
        ctx.oblige(None, key, "%s: %s" % (key, x or type(x).__name__))
        return None


def once(ctx, A, m, size):
    def go():
        e = A.start(size)
        st = St()
        args = A.args(e, st, m, "")
        n = 0
        good = lambda s: sure(s) and not A.unknown
        for o in A.call(e, st, m, args, race=True):
            if o.kind != "ret":
                continue
            for s in A.somes(e, o):
                n += 1
                if s.aux.get("stolen"):
                    ctx.oblige(False if good(s) else None, "%s: two at once" % m,
                               "%s: two concurrent calls with the same secret both succeed (the lock is released between the test and the mark)" % m)
                    continue
                kinds = [k for k, b in A.texts.items() if k[0] != "id" and
                         s.fact.decide(seq_eq(e, s, args[1], slice_(mk("const", b), (), I(0), I(len(b))))) is True]
                right = [k for k in kinds if k[0] == SECRETS[m]]
                ctx.oblige(bool(right) or (False if good(s) else None), "%s: secret" % m,
                           "%s succeeds for a secret that is %s" % (m, "a %s" % kinds[0][0] if kinds else "none of those in the state"))
                if right and m == "authorize_client":
                    owner(ctx, A, e, s, o, right[0][1], m, good)
                again(ctx, A, e, s, m, args, "", good)
                for op in sorted(A.methods):
                    if op == "notify":
                        continue
                    s2 = s.copy()
                    a2 = A.args(e, s2, op, "-between")
                    for p in A.call(e, s2, op, a2):
                        if p.kind == "ret":
                            again(ctx, A, e, p.st, m, args, " after %s" % op, good)
        return n
    return guarded(ctx, A, m, go) or 0


def again(ctx, A, e, s, m, args, when, good):
    bad = []
    for p in A.call(e, s, m, args):
        if p.kind == "ret":
            bad += A.somes(e, p)
    if not bad:
        ctx.oblige(True, "%s: once%s" % (m, when), "")
    else:
        ctx.oblige(False if any(good(b) for b in bad) else None, "%s: once%s" % (m, when),
                   "%s succeeds a second time with the same secret%s" % (m, when))


def owner(ctx, A, e, s, o, creds, m, good):
    """the identity that is returned belongs to the credentials"""
    got = o.val.args[2] if o.val.op == "agg" and len(o.val.args) > 2 else None
    for path, vt, elems in A.content(e, s):
        if elems is None:
            continue
        for x in elems:
            parts = values(A, e, s, x, A.T[vt]["args"][0])
            if creds in parts:
                ctx.oblige(got in parts or (False if good(s) else None), "%s: identity" % m,
                           "%s returns the identity of another client" % m)
                return
    ctx.oblige(None, "%s: identity" % m, "%s: the client was not found in the state" % m)


def values(A, e, s, v, ty, depth=0):
    r = [v]
    t = A.T[ty]
    if depth < 3:
        fs = t["f"] if t["k"] == "tuple" else (t.get("v") or [[]])[0] if t["k"] == "adt" and len(t.get("v") or []) == 1 else []
        for i, f in enumerate(fs):
            r += values(A, e, s, e.proj(s, v, mk("pf", 0, i, f)), f, depth + 1)
    return r


def released(ctx, A, size):
    m = "unregister_clients"

    def go():
        e = A.start(size)
        st = St()
        args = A.args(e, st, m, "")
        n = 0
        for o in A.call(e, st, m, args):
            if o.kind != "ret":
                continue
            n += 1
            s = o.st
            good = sure(s) and not A.unknown
            fresh = St()
            fresh.mem = {k: v for k, v in s.mem.items() if k.op == "me"}
            for path, vt, elems in A.content(e, s):
                if elems is None:
                    ctx.oblige(None, m, "%s: the remaining clients are not known" % m)
                    continue
                et = A.T[vt]["args"][0]
                before = [e.mksym(s, et, "elem", mk("name", str(path)), i) for i in range(size)]
                for i, b in enumerate(before):
                    atoms = [mk("selects", args[1], mk("idof", x), "bool") for x in values(A, e, s, b, et)]
                    d = [s.fact.decide(a) for a in atoms]
                    sel = True if True in d else False if False in d else None
                    here = any(same(x, b, A, e, s, et) for x in elems)
                    if sel is None:
                        v, t = False, "%s does not ask the selector about a client" % m
                    else:
                        v = here != sel
                        t = "%s %s" % (m, "keeps a client that is selected" if here else "removes a client that is not selected")
                    ctx.oblige(v or (False if good else None), "%s: exactly" % m, t)
                extra = [x for x in elems if not any(same(x, b, A, e, s, et) for b in before)]
                ctx.oblige(not extra or (False if good else None), "%s: others" % m, "%s changes other clients" % m)
        return n
    return guarded(ctx, A, m, go) or 0


def same(x, b, A, e, s, et):
    return x is b or values(A, e, s, x, et)[1:] == values(A, e, s, b, et)[1:] != []
