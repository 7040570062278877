"""Abstract interpreter over the exported MIR.

States are partitioned by the branch facts of the path that leads to them (trace partitioning); values are
hash-consed terms; loops are cut at their heads: locations modified in the loop are replaced by fresh
symbols, candidate invariants are inferred and the inductive ones are kept (Houdini), and only the
resulting fixpoint is used.  Calls to functions of the analysed crate are analysed in context, so that it
does not matter how the code is cut into functions.
"""
import time
from .terms import *
from .dom import Fact, EMPTY, show_facts, FULL, join_facts


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


UNIT = mk("agg", "tuple", 0)
MOVED = mk("moved")
UNINIT = mk("uninit")


def agg(name, variant, *fields):
    return mk("agg", name, variant, *fields)


def some(v):
    return agg("core::option::Option", 1, v)


NONE = agg("core::option::Option", 0)


def ok(v):
    return agg("core::result::Result", 0, v)


def err(v):
    return agg("core::result::Result", 1, v)


def tup(*vs):
    return agg("tuple", 0, *vs)


def slice_(root, path, start, ln):
    return mk("slice", root, path, start, ln)


def ptr(root, path=()):
    return mk("ptr", root, path)


class Ev:
    """one event of a trace"""
    __slots__ = ("kind", "name", "args", "res", "span", "fn", "fact", "data", "mem")

    def __init__(self, kind, name, args=(), res=None, span=None, fn=None, fact=None, data=None, mem=None):
        self.kind, self.name, self.args, self.res = kind, name, args, res
        self.span, self.fn, self.fact, self.data, self.mem = span, fn, fact, data, mem

    def __repr__(self):
        return "%s:%s(%s)%s @%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args),
                                    "" if self.res is None else " -> " + show(self.res), self.span)


def ptr_offset(p, ety):
    """an element of a slice, given by pointer arithmetic"""
    off = I(0)
    while p.op == "ptroff":
        off = add(off, p.args[1])
        p = p.args[0]
    if p.op == "slice":
        return ptr(p.args[0], p.args[1] + (mk("pi", add(p.args[2], off), ety),))
    if p.op == "ptr" and p.args[1] and p.args[1][-1].op == "pi":
        last = p.args[1][-1]
        return ptr(p.args[0], p.args[1][:-1] + (mk("pi", add(last.args[0], off), last.args[1]),))
    return None


class St:
    __slots__ = ("mem", "rty", "fact", "frames", "ev", "taint", "n", "aux")

    def __init__(self):
        self.mem = {}
        self.rty = {}
        self.fact = EMPTY
        self.frames = ()
        self.ev = None      # linked list (prev, Ev)
        self.taint = ()
        self.n = 0
        self.aux = {}

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.rty = self.rty
        s.fact = self.fact
        s.frames = self.frames
        s.ev = self.ev
        s.taint = self.taint
        s.n = self.n
        s.aux = self.aux
        return s

    def with_fact(self, f):
        s = self.copy()
        s.fact = f
        return s

    snapkinds = frozenset()       # kinds of events that keep a copy of the memory

    def emit(self, ev):
        if ev.kind in St.snapkinds and ev.mem is None:
            ev.mem = dict(self.mem)
        ev.fact = self.fact
        self.ev = (self.ev, ev)
        self.n += 1

    def trace(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def setaux(self, k, v):
        self.aux = dict(self.aux)
        self.aux[k] = v


class Out:
    __slots__ = ("kind", "st", "val", "bb", "why", "span", "stack")

    def __init__(self, kind, st, val=None, bb=None, why=None, span=None, stack=None):
        self.kind, self.st, self.val, self.bb, self.why, self.span, self.stack = kind, st, val, bb, why, span, stack


class Frame:
    __slots__ = ("inst", "fid", "body", "locals", "heads", "name", "localfn")


class Call:
    __slots__ = ("name", "gname", "ty", "args", "atys", "dty", "span", "frame", "site", "targs", "selfty", "inst")


EXACT, INEXACT = set(), set()       # heads of loops whose invariant does (not) describe their states exactly


def imprecise(x):
    """is this subterm a value that a widened loop may have made up?"""
    return x.op == "lv" and (x.args[0] not in EXACT or x.args[0] in INEXACT)


class Engine:
    def __init__(self, facts, models=None, anchors=None, hooks=None, max_paths=60000, max_time=240, max_depth=40):
        self.F = facts
        self.T = facts.types
        self.models = models or {}
        self.anchors = anchors or {}      # def name -> handler (overrides inlining)
        self.hooks = hooks or {}          # 'write': fn(eng, st, adt, field, ptr, val, span)
        self.loopinfo = {}
        self.max_time = max_time
        self.t0 = time.time()
        self.steps = 0
        self.max_depth = max_depth
        self.quiet = 0                    # >0 while computing loop fixpoints
        self.seen_fns = set()
        self.obl_total = {}               # (span, kind) -> count of evaluations in final passes
        self.obl_failed = {}
        self.calls_seen = set()
        self.loops_seen = {}
        self.unmodelled = {}
        self.frozen = frozenset()
        self.watch_ty = {}
        self.watch = frozenset()          # (adt, field index) whose writes are recorded
        self.recursion = []

    # ---------------------------------------------------------------- types
    def sort(self, ty):
        if ty is None or ty == -1:
            return ""
        t = self.T[ty]
        k = t["k"]
        if k == "int":
            return t["s"]
        if k in ("bool", "char"):
            return k
        return ""

    def fresh(self, st, ty, base):
        """structured value of type ty standing for the unknown `base`"""
        if ty is None or ty == -1:
            return base
        t = self.T[ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            e = self.T[t["e"]]
            if base.op == "ptroff":
                p = ptr_offset(base, t["e"])
                if p is not None:
                    return p
            if e["k"] in ("slice", "str") or e.get("def") in BYTE_TYPES:
                return slice_(mk("deref", base), (), I(0), mk("len", base))
            return ptr(mk("deref", base))
        if k == "adt" and t["def"] == "alloc::boxed::Box":
            return ptr(mk("deref", base))
        if k == "tuple" and not t["f"]:
            return UNIT
        if k == "fndef" or (k == "closure" and not t.get("f")):
            return mk("fnval", ty)
        if k == "adt":
            v = t.get("v")
            if v and len(v) == 1 and not v[0]:
                return agg(t["def"], 0)
        return base

    def fld(self, base, variant, i, ty):
        return mk("fld", base, variant, i, self.sort(ty))

    def mksym(self, st, ty, *key):
        s = self.sort(ty)
        return self.fresh(st, ty, mk("sym", *key, s))

    # ---------------------------------------------------------------- values and places
    def proj(self, st, v, p):
        o = v.op
        if p.op == "pf":
            variant, i, ty = p.args
            if o == "agg":
                if v.args[1] != variant and len(v.args) <= 2 + i:
                    return mk("bad")
                if len(v.args) > 2 + i:
                    return v.args[2 + i]
                return self.fresh(st, ty, self.fld(v, variant, i, ty))
            if o == "upd":
                if v.args[1].args[0] == variant and v.args[1].args[1] == i:
                    return v.args[2]
                return self.proj(st, v.args[0], p)
            if o == "moved":
                return v
            if o == "ptr" and ty is not None and ty != -1 and self.T[ty]["k"] in ("ptr", "adt"):
                return v     # Box<T>.0.0 style access
            return self.fresh(st, ty, self.fld(v, variant, i, ty))
        idx, ty = p.args
        return self.select(st, v, idx, ty)

    def select(self, st, v, idx, ty):
        o = v.op
        if o == "bytes":
            if idx.op == "int":
                n = idx.args[0]
                if 0 <= n < len(v.args[0]):
                    return I(v.args[0][n])
                return mk("bad")
            return mk("sel", v, idx, self.sort(ty))
        if o == "arrlit":
            if idx.op == "int":
                n = idx.args[0]
                if 0 <= n < len(v.args):
                    return v.args[n]
                return mk("bad")
        if o == "arrrep":
            return v.args[0]
        if o == "store":
            a, j, x = v.args
            if j is idx or st.fact.eq(j, idx):
                return x
            if st.fact.ne(j, idx):
                return self.select(st, a, idx, ty)
        if o == "copyrng":
            # copyrng(A, start, len, B, bstart): B[bstart..] copied over A[start..start+len)
            a, s, n, b, bs = v.args
            if st.fact.le(s, idx) and st.fact.lt(idx, add(s, n)):
                return self.select(st, b, add(bs, sub(idx, s)), ty)
            if st.fact.lt(idx, s) or st.fact.le(add(s, n), idx):
                return self.select(st, a, idx, ty)
        if o == "moved":
            return v
        return self.fresh(st, ty, mk("sel", v, idx, self.sort(ty)))

    def update(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p.op == "pf":
            variant, i, ty = p.args
            if v.op == "agg" and v.args[1] == variant and len(v.args) > 2 + i:
                new = self.update(st, v.args[2 + i], path[1:], val)
                a = list(v.args)
                a[2 + i] = new
                return mk("agg", *a)
            old = self.proj(st, v, p) if len(path) > 1 else None
            new = self.update(st, old, path[1:], val)
            if v.op == "upd":
                # keep at most one update per field
                chain = []
                x = v
                while x.op == "upd":
                    if not (x.args[1].args[0] == variant and x.args[1].args[1] == i):
                        chain.append((x.args[1], x.args[2]))
                    x = x.args[0]
                chain.append((p, new))
                chain.sort(key=lambda c: (c[0].args[0], c[0].args[1]))
                for q, y in chain:
                    x = mk("upd", x, q, y)
                return x
            if v.op in ("uninit", "moved"):
                v = UNINIT
            return mk("upd", v, p, new)
        idx, ty = p.args
        old = self.proj(st, v, p) if len(path) > 1 else None
        new = self.update(st, old, path[1:], val)
        if v.op == "arrlit" and idx.op == "int" and 0 <= idx.args[0] < len(v.args):
            a = list(v.args)
            a[idx.args[0]] = new
            return mk("arrlit", *a)
        if v.op == "store" and (v.args[1] is idx):
            return mk("store", v.args[0], idx, new)
        return mk("store", v, idx, new)

    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root.op == "const":
                return mk("bytes", root.args[0])
            if root.op == "constval":
                return root.args[0]
            ty = st.rty.get(root)
            v = mk("val", root, self.sort(ty) if ty is not None else "")
            if ty is not None:
                v = self.fresh(st, ty, v)
        return v

    def load(self, st, root, path, ty=None):
        v = st.mem.get(root)
        if v is None:
            if root not in st.rty and ty is not None and not path:
                st.rty = dict(st.rty)
                st.rty[root] = ty
            v = self.root_value(st, root)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def store(self, st, root, path, val, span=None):
        if root.op == "deref" and root.args[0].op == "ptroff":
            st.taint = st.taint + ("store through a computed pointer",)
        if not path:
            st.mem[root] = val
        else:
            st.mem[root] = self.update(st, self.root_value(st, root), path, val)

    def place_ty(self, fr, pl):
        ty = fr.locals[pl[0]]
        for e in pl[1]:
            ty = self.step_ty(ty, e)
        return ty

    def step_ty(self, ty, e):
        if ty is None:
            return None
        if e == "*":
            t = self.T[ty]
            if "e" in t:
                return t["e"]
            if t["k"] == "adt" and t["def"] == "alloc::boxed::Box":
                return t["args"][0]
            return None
        if e[0] == "f":
            return e[2]
        if e[0] == "v":
            return ty
        t = self.T[ty]
        if e[0] in ("i", "c"):
            return t.get("e")
        return ty

    def resolve(self, st, fr, pl):
        """place -> (root, path, window, ty); window = (start, len) for an unsized slice place"""
        root = mk("loc", fr.fid, pl[0])
        path = ()
        ty = fr.locals[pl[0]]
        win = None
        variant = 0
        adt = None
        owner = None
        for e in pl[1]:
            if e == "*":
                v = self.load(st, root, path)
                nty = self.step_ty(ty, e)
                if v.op not in ("ptr", "slice"):
                    if v.op == "moved":
                        raise Unsupported("use of moved pointer")
                    v = self.fresh(st, ty, v)
                if v.op == "ptr":
                    root, path = v.args
                    win = None
                    if not path and root not in st.rty and nty is not None:
                        st.rty = dict(st.rty)
                        st.rty[root] = nty
                elif v.op == "slice":
                    root, path = v.args[0], v.args[1]
                    win = (v.args[2], v.args[3])
                else:
                    raise Unsupported("deref of %s" % show(v))
                ty = nty
                variant = 0
                owner = None
            elif e[0] == "f":
                owner = (ty, variant, e[1])
                path = path + (mk("pf", variant, e[1], e[2]),)
                ty = e[2]
                variant = 0
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "i":
                idx = self.load(st, mk("loc", fr.fid, e[1]), ())
                ety = self.step_ty(ty, e)
                if win is not None:
                    idx = add(win[0], idx)
                    win = None
                path = path + (mk("pi", idx, ety),)
                ty = ety
            elif e[0] == "c":
                ety = self.step_ty(ty, e)
                if e[3]:
                    ln = win[1] if win is not None else I(self.arr_len(ty))
                    idx = addc(ln, -e[1])
                else:
                    idx = I(e[1])
                if win is not None:
                    idx = add(win[0], idx)
                    win = None
                path = path + (mk("pi", idx, ety),)
                ty = ety
            elif e[0] == "s":
                if win is None:
                    win = (I(0), I(self.arr_len(ty)))
                frm, to, fromend = e[1], e[2], e[3]
                if fromend:
                    win = (addc(win[0], frm), addc(win[1], -frm - to))
                else:
                    win = (addc(win[0], frm), I(to - frm))
            else:
                raise Unsupported("projection %s" % (e,))
        return root, path, win, ty, owner

    def arr_len(self, ty):
        t = self.T[ty]
        n = t.get("n")
        if isinstance(n, int):
            return n
        raise Unsupported("array length")

    def read_place(self, st, fr, pl, move=False):
        root, path, win, ty, owner = self.resolve(st, fr, pl)
        v = self.load(st, root, path, ty)
        if v.op == "val" and v.args[1] == "" and not path:
            v = self.fresh(st, ty, v)
        if move and root.op == "loc" and root.args[0] is fr.fid:
            if not self.is_copyish(ty):
                self.store(st, root, path, MOVED)
        return v

    def is_copyish(self, ty):
        k = self.T[ty]["k"] if ty is not None else ""
        return k in ("int", "bool", "char", "fndef", "ref", "ptr", "never")

    def write_place(self, st, fr, pl, val, span=None):
        root, path, win, ty, owner = self.resolve(st, fr, pl)
        if owner is not None and self.watch:
            t = self.T[owner[0]]
            if t["k"] == "adt" and (t["def"], owner[2]) in self.watch:
                self.on_write(st, fr, t["def"], owner[2], ptr(root, path), val, span)
        elif self.watch and ty is not None and any(e == "*" for e in pl[1]):
            t = self.T[ty]
            if t["k"] == "adt":
                for a, i in self.watch:
                    if a == t["def"]:
                        fv = val.args[2 + i] if val.op == "agg" and len(val.args) > 2 + i else mk("unk")
                        self.on_write(st, fr, a, i, ptr(root, path + (mk("pf", 0, i, 0),)), fv, span)
        self.store(st, root, path, val, span)

    def on_write(self, st, fr, adt, i, p, val, span):
        st.emit(Ev("write", "%s.%d" % (adt, i), (p, val), None, span, fr.name))

    def const(self, st, c):
        ty = c["t"]
        t = self.T[ty]
        k = t["k"]
        if "i" in c:
            if k in ("int", "bool", "char"):
                return I(c["i"])
            if k == "adt":
                a = self.F.adts.get(t["def"])
                if a and a["kind"] == "enum":
                    for n, v in enumerate(a["v"]):
                        if v["d"] == c["i"] and not v["f"]:
                            return agg(t["def"], n)
                    tv = t.get("v")
                    if tv and len(tv) == len(a["v"]) and len(tv) > 1:
                        zst = lambda x: self.T[x]["k"] == "tuple" and not self.T[x].get("args") and not self.T[x].get("f")
                        if all(zst(x) for y in tv for x in y):
                            for n, v in enumerate(a["v"]):
                                if v["d"] == c["i"]:
                                    return agg(t["def"], n, *[UNIT for x in tv[n]])
                        raise Unsupported("constant of enum %s" % t["def"])
                v = t.get("v")
                if v and len(v) == 1:
                    fs = [self.const(st, {"t": f, "i": c["i"]}) for f in v[0][:1]]
                    return agg(t["def"], 0, *fs)
            return I(c["i"])
        if k == "fndef":
            return mk("fnval", ty)
        if "z" in c:
            if k == "tuple":
                return UNIT
            if k == "adt":
                return agg(t["def"], 0)
            if k == "closure":
                return mk("agg", "closure", ty)
            return mk("zst", ty)
        if "b" in c or (k == "ref" and "x" in c and c["x"][:1] == '"'):
            b = bytes.fromhex(c["b"]) if "b" in c else rust_str(c["x"])
            if k == "ref" and self.T[t["e"]]["k"] in ("str", "slice"):
                return slice_(mk("const", b), (), I(0), I(len(b)))
            if k == "ref":
                return ptr(mk("const", b))
            if k == "array":
                return mk("bytes", b)
            return mk("cst", str(c.get("b")), ty)
        if "agg" in c:
            fs = [self.const(st, f) for f in c["agg"]["f"]]
            return agg(t["def"] if k == "adt" else "tuple", c["agg"]["v"], *fs)
        if "u" in c:
            return self.const_inst(st, c["u"], None, ty)
        if "p" in c:
            return self.const_inst(st, c["p"][0], c["p"][1], ty)
        if "x" in c and k in ("int", "char"):
            try:
                return I(int(c["x"].split("_")[0]))
            except ValueError:
                pass
        return self.fresh(st, ty, mk("cst", str(c.get("name", c.get("x", c.get("static", "?")))), self.sort(ty)))

    _const_cache = None

    def const_inst(self, st, inst, promoted, ty):
        """evaluate a constant's body"""
        if self._const_cache is None:
            self._const_cache = {}
        key = (inst, promoted)
        if key in self._const_cache:
            return self._const_cache[key]
        ins = self.F.insts[inst]
        body = ins["body"] if promoted is None else ins["promoted"][promoted]
        s = St()
        outs = self.run_body(s, ins, body, (), mk("constframe", inst, -1 if promoted is None else promoted), None, True)
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1:
            raise Unsupported("constant")
        o = outs[0]

        def lift(v):
            # replace pointers to the constant's locals by constant roots
            if v.op == "ptr" and v.args[0].op == "loc":
                inner = self.root_value(o.st, v.args[0])
                for p in v.args[1]:
                    inner = self.proj(o.st, inner, p)
                return ptr(mk("constval", lift(inner)))
            if v.op == "slice" and v.args[0].op == "loc":
                inner = self.root_value(o.st, v.args[0])
                for p in v.args[1]:
                    inner = self.proj(o.st, inner, p)
                return slice_(mk("constval", lift(inner)), (), v.args[2], v.args[3])
            if v.op in ("agg", "arrlit"):
                return mk(v.op, *[lift(a) if isinstance(a, T) else a for a in v.args])
            return v
        r = lift(o.val)
        self._const_cache[key] = r
        return r

    def operand(self, st, fr, op):
        if op[0] == "k":
            return self.const(st, op[1])
        return self.read_place(st, fr, op[1], op[0] == "mv")

    def op_ty(self, fr, op):
        if op[0] == "k":
            return op[1]["t"]
        return self.place_ty(fr, op[1])

    # ---------------------------------------------------------------- rvalues
    def num(self, st, v, ty):
        """make sure v is usable as a number"""
        return v

    def rvalue(self, st, fr, r, dty, span):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow", "addr"):
            root, path, win, ty, owner = self.resolve(st, fr, r[2])
            if win is not None:
                return slice_(root, path, win[0], win[1])
            if ty is not None and not path and root not in st.rty and root.op != "loc":
                st.rty = dict(st.rty)
                st.rty[root] = ty
            return ptr(root, path)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, r[3], r[4] if r[4] is not None else self.op_ty(fr, r[2]))
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, self.op_ty(fr, r[2]), dty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            ty = self.op_ty(fr, r[2])
            if r[1] == "Not":
                s = self.sort(ty)
                if s == "bool":
                    return self.as_bool_not(a)
                lo, hi = sort_range(s)
                # !x == -x-1 (signed), max-x (unsigned)
                return sub(I(-1), a) if lo < 0 else sub(I(hi), a)
            if r[1] == "Neg":
                s = self.sort(ty)
                return self.wrap(st, sub(I(0), a), s, "neg")
            if r[1] == "PtrMetadata":
                if a.op == "slice":
                    return a.args[3]
                return mk("meta", a, "usize")
            return mk("un", r[1], a, self.sort(dty))
        if k == "discr":
            return self.discr(st, fr, r[1])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[3]]
            if r[1] == "tuple":
                return tup(*ops)
            if r[1] == "array":
                return mk("arrlit", *ops)
            if r[1] == "adt":
                t = self.T[r[2][0]]
                if "construct" in self.hooks and not self.quiet:
                    self.hooks["construct"](self, st, t["def"], r[2][1], ops, fr)
                return agg(t["def"], r[2][1], *ops)
            if r[1] in ("closure", "coroutine"):
                return mk("agg", r[1], r[2], *ops)
            return mk("aggother", *ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return mk("arrrep", v, r[2] if isinstance(r[2], int) else 0)
        raise Unsupported("rvalue %s" % (r,))

    def as_bool_not(self, b):
        return bnot(b)

    def discr(self, st, fr, pl):
        root, path, win, ty, owner = self.resolve(st, fr, pl)
        v = self.load(st, root, path, ty)
        return self.discr_of(st, v, ty)

    def discr_of(self, st, v, ty):
        t = self.T[ty] if ty is not None else {"k": ""}
        a = self.F.adts.get(t.get("def")) if t["k"] == "adt" else None
        while v.op == "upd":
            v = v.args[0]
        if v.op == "agg":
            if a:
                return I(a["v"][v.args[1]]["d"])
            return I(v.args[1])
        if a:
            ds = [x["d"] for x in a["v"]]
            if ds == list(range(len(ds))):
                return mk("disc", v, "d%d" % len(ds))
            at = mk("disc", v, "i64")
            f = st.fact._setdom(at, iv_norm([(d, d) for d in ds]))
            if f is not None:
                st.fact = f
            return at
        return mk("disc", v, "i64")

    def wrap(self, st, e, s, what):
        """value of the expression e in a type of sort s with wrapping"""
        lo, hi = sort_range(s)
        blo, bhi = st.fact.bounds(e)
        if (lo <= blo and bhi <= hi) or (st.fact.le(I(lo), e) and st.fact.le(e, I(hi))):
            return e
        m = hi - lo + 1
        if e.op == "int":
            return I((e.args[0] - lo) % m + lo)
        # x = e - m*q
        x = mk("wrap", e, s)
        q = mk("wrapq", e, s, "i128")
        f = st.fact.add_eq(add(sub(e, x), scale(q, -m)))
        if f is not None:
            qlo, qhi = (blo - lo) // m, (bhi - lo) // m
            if -8 <= qlo and qhi <= 8:
                # which overflows are possible?
                while qlo < qhi and st.fact.le(I(lo + m * (qlo + 1)), e):
                    qlo += 1
                while qlo < qhi and st.fact.le(e, I(hi + m * (qhi - 1))):
                    qhi -= 1
                f = f._setdom(q, ((qlo, qhi),)) or f
            st.fact = f
        return x

    def bool_of(self, st, v):
        return v

    def binop(self, st, fr, op, a, b, ty, dty):
        s = self.sort(ty)
        if op in ("Eq", "Ne"):
            if s == "bool":
                if b.op == "int":
                    r = a if b.args[0] else bnot(a)
                elif a.op == "int":
                    r = b if a.args[0] else bnot(b)
                elif a is b:
                    r = TRUE
                else:
                    r = bnot(band(bnot(band(a, b)), bnot(band(bnot(a), bnot(b)))))
            elif s:
                r = eq0(sub(a, b))
            elif a is b:
                r = TRUE
            elif a.op in ("ptr", "slice", "fnval") or b.op in ("ptr", "slice"):
                r = mk("ptreq", a, b, "bool")
            else:
                r = eq0(sub(a, b)) if (atom_sort(a) or is_int(a) or a.op == "lin") else mk("eqv", a, b, "bool")
            return r if op == "Eq" else bnot(r)
        if op in ("Lt", "Le", "Gt", "Ge") and s:
            if op == "Lt":
                return le0(addc(sub(a, b), 1))
            if op == "Le":
                return le0(sub(a, b))
            if op == "Gt":
                return le0(addc(sub(b, a), 1))
            return le0(sub(b, a))
        if s == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            return bnot(band(bnot(band(a, bnot(b))), bnot(band(bnot(a), b))))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            e = self.arith(st, op[:3], a, b, s)
            lo, hi = sort_range(s)
            over = bnot(band(le0(sub(e, I(hi))), le0(sub(I(lo), e))))
            return tup(e, over)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(st, op[:3], a, b, s)
        if op in ("Add", "Sub", "Mul"):
            return self.wrap(st, self.arith(st, op, a, b, s), s, op)
        if op in ("Div", "Rem"):
            return self.divrem(st, op, a, b, s)
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if a.op == "int" and b.op == "int" and sort_range(s) and sort_range(s)[0] == 0:
                x, y = a.args[0], b.args[0]
                z = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << y, "Shr": x >> y,
                     "ShlUnchecked": x << y, "ShrUnchecked": x >> y}[op]
                return I(z % (sort_range(s)[1] + 1))
            if op.startswith("Shr") and b.op == "int" and s[0] in "u":
                return self.divrem(st, "Div", a, I(2 ** b.args[0]), s)
            if op.startswith("Shl") and b.op == "int":
                return self.wrap(st, scale(a, 2 ** b.args[0]), s, op)
            if op == "BitAnd" and b.op == "int" and s[0] == "u" and (b.args[0] & (b.args[0] + 1)) == 0:
                return self.divrem(st, "Rem", a, I(b.args[0] + 1), s)
            at = mk("bit", op, a, b, s)
            if op == "BitAnd" and s[0] == "u":
                f = st.fact.add_le(sub(at, b))
                f = f.add_le(sub(at, a)) if f else None
                if f:
                    st.fact = f
            return at
        if op == "Cmp":
            return mk("cmp", a, b, "i8")
        if op == "Offset":
            return mk("ptroff", a, b)
        raise Unsupported("binop %s" % op)

    def arith(self, st, op, a, b, s):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if a.op == "int":
            return scale(b, a.args[0])
        if b.op == "int":
            return scale(a, b.args[0])
        return mk("mul", *sorted((a, b), key=lambda x: x.id), "i128")

    def divrem(self, st, op, a, b, s):
        if b.op == "int" and b.args[0] > 0:
            n = b.args[0]
            if a.op == "int":
                x = a.args[0]
                q = abs(x) // n * (1 if x >= 0 else -1)
                return I(q if op == "Div" else x - q * n)
            q = mk("div", a, n, s)
            lo, hi = st.fact.bounds(a)
            if lo >= 0 or st.fact.le(I(0), a):
                f = st.fact.add_le(sub(scale(q, n), a))
                f = f.add_le(addc(sub(a, scale(q, n)), -(n - 1))) if f else None
                f = f.add_le(scale(q, -1)) if f else None
                if f and hi < FULL[0][1]:
                    f = f._setdom(q, ((max(lo, 0) // n, hi // n),)) or f
                if f:
                    st.fact = f
                if op == "Div":
                    return q
                return sub(a, scale(q, n))
            if op == "Div":
                return q
            return mk("rem", a, n, s)
        return mk(op.lower(), a, b, s)

    def cast(self, st, fr, kind, v, to, frm):
        ts, fs = self.sort(to), self.sort(frm)
        if kind == "IntToInt":
            r = sort_range(ts)
            if v.op in ("int", "lin") or fs or atom_sort(v):
                if fs == "bool" and v.op in ("le0", "eq0", "not", "and", "seqeq"):
                    b = mk("b2i", v, "bool")
                    return b
                return self.wrap(st, v, ts, "cast")
            return self.wrap(st, v, ts, "cast")
        if "Unsize" in kind:
            tt, ft = self.T[to], self.T[frm]
            te = self.T[tt["e"]] if "e" in tt else None
            if te is not None and te["k"] == "slice" and v.op == "ptr":
                fe = ft.get("e")
                n = self.arr_len(fe)
                return slice_(v.args[0], v.args[1], I(0), I(n))
            return v
        if kind == "Transmute" and frm is not None and to is not None:
            tt, ft = self.T[to], self.T[frm]
            many = tt["k"] == "adt" and len(tt.get("v") or []) > 1
            if many and tt.get("def") != ft.get("def") or ft["k"] == "int" and tt["k"] not in ("int", "char", "bool"):
                st.taint = st.taint + (("transmute", tt["s"][:60], fr.name),)
                return mk("transmuted", v, to)
        return v

    # ---------------------------------------------------------------- loops
    def cfg(self, key, body):
        info = self.loopinfo.get(key)
        if info is not None:
            return info
        blocks = body["blocks"]
        succ = [self.succs(b["t"]) for b in blocks]
        # DFS for back edges
        state = [0] * len(blocks)
        heads = {}
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        backs = []
        while stack:
            n, it = stack[-1]
            for m in it:
                if state[m] == 0:
                    state[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                elif state[m] == 1:
                    backs.append((n, m))
            else:
                state[n] = 2
                stack.pop()
        pred = [[] for _ in blocks]
        for n, ss in enumerate(succ):
            for m in ss:
                pred[m].append(n)
        for n, h in backs:
            bodyset = heads.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in bodyset:
                    continue
                bodyset.add(x)
                work.extend(pred[x])
        self.loopinfo[key] = heads
        return heads

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        if k == "yield":
            return [t[2]] if len(t) > 2 and isinstance(t[2], int) else [x for x in t[1:] if isinstance(x, int)][:1]
        if k == "S":
            return [x for x in t[2]]
        return []

    # ---------------------------------------------------------------- functions
    def run_root(self, inst, args=None, st=None, prep=None):
        """analyse a function for arbitrary arguments; returns its outcomes"""
        ins = self.F.insts[inst]
        body = ins["body"]
        st = st or St()
        if args is None:
            args = []
            for i in range(body["argc"]):
                args.append(self.mksym(st, body["locals"][1 + i], "arg", i + 1))
        if prep:
            prep(self, st, args)
        self.root_args = args
        return self.run_body(st, ins, body, args, mk("frame", mk("top"), 0, inst), None)

    def run_body(self, st, ins, body, args, fid, span, keep=False):
        fr = Frame()
        fr.inst = ins.get("id")
        fr.fid = fid
        fr.body = body
        fr.locals = body["locals"]
        fr.name = ins["def"]
        fr.localfn = ins.get("local")
        fr.heads = self.cfg((fr.inst, id(body)), body)
        if fr.localfn:
            self.seen_fns.add(fr.name)
        if len(st.frames) > self.max_depth:
            raise Unsupported("inlining depth")
        st.frames = st.frames + ((fr.name, span, fr.localfn),)
        if body.get("spread") is not None and len(args) == 2 and body["argc"] != 2:
            pass
        for i, a in enumerate(args):
            st.mem[mk("loc", fid, i + 1)] = a
        outs = self.explore(fr, 0, st, ())
        res = []
        for o in outs:
            if o.kind == "ret":
                o.st.frames = o.st.frames[:-1]
                # forget the locals of the finished frame
                if not keep:
                    for k in [k for k in o.st.mem if k.op == "loc" and k.args[0] is fid]:
                        del o.st.mem[k]
                res.append(o)
            elif o.kind == "panic":
                res.append(o)
            else:
                res.append(o)
        return res

    def explore(self, fr, entry, st, active):
        """run from block `entry`; stops at the innermost active loop head or when leaving its body"""
        outs = []
        work = [(entry, st, True)]
        region = fr.heads[active[-1]] if active else None
        while work:
            bb, st, first = work.pop()
            self.steps += 1
            if self.steps % 256 == 0 and time.time() - self.t0 > self.max_time:
                raise Budget("time")
            if not (first and active and bb == active[-1] and bb == entry):
                if active and bb == active[-1]:
                    outs.append(Out("back", st, bb=bb))
                    continue
                if region is not None and bb not in region:
                    outs.append(Out("exit", st, bb=bb))
                    continue
                if bb in fr.heads:
                    for o in self.loop(fr, bb, st, active):
                        if o.kind == "exit":
                            work.append((o.bb, o.st, False))
                        else:
                            outs.append(o)
                    continue
            try:
                for o in self.block(fr, bb, st):
                    if o.kind == "go":
                        work.append((o.bb, o.st, False))
                    else:
                        outs.append(o)
            except (Unsupported, AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
                # everything that might follow is unknown: an undecided path
                if not isinstance(e, Unsupported):
                    e = "%s: %s" % (type(e).__name__, e)
                s2 = st.copy()
                s2.taint = s2.taint + (("unsupported", str(e), fr.name),)
                self.unmodelled["unsupported: " + str(e)] = self.unmodelled.get("unsupported: " + str(e), 0) + 1
                outs.append(Out("unknown", s2))
        return outs

    def block(self, fr, bb, st):
        b = fr.body["blocks"][bb]
        for s in b["s"]:
            k = s[0]
            if k == "=":
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], dty, s[3])
                self.write_place(st, fr, s[1], v, s[3])
            elif k == "dead":
                st.mem.pop(mk("loc", fr.fid, s[1]), None)
            elif k == "disc":
                raise Unsupported("set discriminant")
        return self.terminator(fr, bb, st, b["t"])

    def branch(self, st, cond):
        """[(truth, state)] for a boolean term"""
        r = st.fact.decide(cond)
        if r is True:
            return [(True, st)]
        if r is False:
            return [(False, st)]
        out = []
        for f in st.fact.assume(cond):
            out.append((True, st.with_fact(f)))
        for f in st.fact.assume(bnot(cond)):
            out.append((False, st.with_fact(f)))
        return out

    def assume(self, st, cond):
        return [st.with_fact(f) for f in st.fact.assume(cond)]

    def terminator(self, fr, bb, st, t):
        k = t[0]
        if k == "goto":
            return [Out("go", st, bb=t[1])]
        if k == "return":
            v = self.load(st, mk("loc", fr.fid, 0), (), fr.locals[0])
            return [Out("ret", st, v)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            ty = self.op_ty(fr, t[1])
            return self.switch(fr, st, v, ty, t[2], t[3])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = bnot(c)
            return self.obligation(fr, st, c, t[3], t[6], t[5])
        if k == "call":
            return self.call_term(fr, bb, st, t)
        if k == "drop":
            return self.drop_term(fr, bb, st, t)
        if k in ("unreachable", "resume", "terminate"):
            return []
        if k == "yield":
            return [Out("go", st, bb=self.succs(t)[0])]
        if k == "S":
            return t[1](self, fr, st)
        raise Unsupported("terminator %s" % k)

    def switch(self, fr, st, v, ty, arms, other):
        out = []
        if v.op == "moved":
            raise Unsupported("switch on moved")
        isbool = ty is not None and self.T[ty]["k"] == "bool"
        if isbool:
            tgt = {val: b for val, b in arms}
            for truth, s in self.branch(st, v):
                b = tgt.get(1 if truth else 0, other)
                if b is not None:
                    out.append(Out("go", s, bb=b))
            return out
        if v.op == "int":
            for val, b in arms:
                if val == v.args[0]:
                    return [Out("go", st, bb=b)]
            return [Out("go", st, bb=other)] if other is not None else []
        rest = [st]
        for val, b in arms:
            c = eq0(addc(v, -val))
            nxt = []
            for s in rest:
                for truth, s2 in self.branch(s, c):
                    if truth:
                        out.append(Out("go", s2, bb=b))
                    else:
                        nxt.append(s2)
            rest = nxt
        if other is not None and fr.body["blocks"][other]["t"][0] != "unreachable":
            for s in rest:
                out.append(Out("go", s, bb=other))
        return out

    def obligation(self, fr, st, cond, what, span, target):
        """a condition whose failure panics"""
        key = (fr.name, span, what)
        if not self.quiet:
            self.obl_total[key] = self.obl_total.get(key, 0) + 1
        out = []
        for truth, s in self.branch(st, cond):
            if truth:
                out.append(Out("go", s, bb=target))
            else:
                out.append(self.panic(s, fr, what, span))
        return out

    def panic(self, st, fr, what, span):
        if not self.quiet:
            key = (fr.name if fr else "?", span, what)
            self.obl_failed[key] = self.obl_failed.get(key, 0) + 1
        # report the innermost function of the analysed crate
        return Out("panic", st, why=what, span=span, stack=st.frames)

    # ---------------------------------------------------------------- drops
    def drop_term(self, fr, bb, st, t):
        root, path, win, ty, owner = self.resolve(st, fr, t[1])
        v = self.load(st, root, path, ty)
        if v.op in ("moved", "uninit") or v is UNIT:
            return [Out("go", st, bb=t[2])]
        outs = []
        for o in self.drop_value(fr, st, ptr(root, path), ty, t[4], mk("dropsite", fr.fid, bb)):
            if o.kind == "ret":
                if root.op == "loc" and root.args[0] is fr.fid:
                    self.store(o.st, root, path, MOVED)
                outs.append(Out("go", o.st, bb=t[2]))
            else:
                outs.append(o)
        return outs

    _dropcache = None
    drop_events = ()

    def drop_matters(self, ty):
        """does dropping a value of this type run code of the crate or release a lock?"""
        if self._dropcache is None:
            self._dropcache = {}
        c = self._dropcache
        if ty in c:
            return c[ty]
        c[ty] = False
        t = self.T[ty]
        k = t["k"]
        r = False
        if k == "adt":
            d = t["def"]
            if t.get("drop") is not None and self.F.insts[t["drop"]].get("local"):
                r = True
            elif d in GUARDS:
                r = True
            elif t.get("v"):
                r = any(self.drop_matters(f) for v in t["v"] for f in v)
            elif d in ("alloc::boxed::Box", "core::mem::manually_drop::ManuallyDrop"):
                r = any(isinstance(a, int) and self.drop_matters(a) for a in t["args"])
            elif d not in ("alloc::rcs::arc::Arc",):
                r = any(isinstance(a, int) and self.drop_matters(a) for a in t["args"])
        elif k in ("tuple", "closure"):
            r = any(self.drop_matters(f) for f in t["f"])
        elif k in ("array", "slice"):
            r = self.drop_matters(t["e"])
        c[ty] = r
        return r

    def drop_value(self, fr, st, p, ty, span, site):
        """run the drop glue of the value at pointer p; list of Out(ret|panic)"""
        h = self.hooks.get("drop")
        if h:
            r = h(self, fr, st, p, ty, span)
            if r is not None:
                return r
        if ty is None or not self.drop_matters(ty):
            return [Out("ret", st, UNIT)]
        t = self.T[ty]
        k = t["k"]
        v = self.load(st, p.args[0], p.args[1], ty)
        if v.op in ("moved", "uninit"):
            return [Out("ret", st, UNIT)]
        if k == "adt" and t["def"] in GUARDS:
            return self.release_guard(fr, st, v, ty, span)
        if k == "adt":
            sts = [st]
            outs = []
            if t.get("drop") is not None and t["drop"] in self.drop_events:
                st.emit(Ev("dropimpl", t["def"], (p,), None, span, fr.name, data=st.aux.get("held", ()),
                           mem=dict(st.mem) if self.snap else None))
            elif t.get("drop") is not None and self.F.insts[t["drop"]].get("body"):
                nxt = []
                for s in sts:
                    for o in self.call_inst(s, t["drop"], [p], mk("frame", site, 0, t["drop"]), span):
                        if o.kind == "ret":
                            nxt.append(o.st)
                        else:
                            outs.append(o)
                sts = nxt
            vs = t.get("v")
            if vs:
                for s in sts:
                    v = self.load(s, p.args[0], p.args[1], ty)
                    if len(vs) == 1:
                        cases = [(0, s)]
                    else:
                        d = self.discr_of(s, v, ty)
                        cases = []
                        adt = self.F.adts.get(t["def"])
                        rest = [s]
                        for n in range(len(vs)):
                            dv = adt["v"][n]["d"] if adt else n
                            nx = []
                            for q in rest:
                                for truth, s2 in self.branch(q, eq0(addc(d, -dv))):
                                    if truth:
                                        cases.append((n, s2))
                                    else:
                                        nx.append(s2)
                            rest = nx
                    for n, s2 in cases:
                        cur = [s2]
                        for i, f in enumerate(vs[n]):
                            if not self.drop_matters(f):
                                continue
                            nx = []
                            for q in cur:
                                fp = ptr(p.args[0], p.args[1] + (mk("pf", n, i, f),))
                                for o in self.drop_value(fr, q, fp, f, span, mk("dropfield", site, n, i)):
                                    if o.kind == "ret":
                                        nx.append(o.st)
                                    else:
                                        outs.append(o)
                            cur = nx
                        outs.extend(Out("ret", q, UNIT) for q in cur)
                return outs
            if t["def"] == "alloc::boxed::Box" and v.op == "ptr":
                return self.drop_value(fr, st, v, t["args"][0], span, mk("dropbox", site))
            outs.extend(Out("ret", s, UNIT) for s in sts)
            return outs
        if k in ("tuple", "closure"):
            cur = [st]
            outs = []
            for i, f in enumerate(t["f"]):
                if not self.drop_matters(f):
                    continue
                nx = []
                for q in cur:
                    fp = ptr(p.args[0], p.args[1] + (mk("pf", 0, i, f),))
                    for o in self.drop_value(fr, q, fp, f, span, mk("dropfield", site, 0, i)):
                        if o.kind == "ret":
                            nx.append(o.st)
                        else:
                            outs.append(o)
                cur = nx
            return outs + [Out("ret", q, UNIT) for q in cur]
        return [Out("ret", st, UNIT)]

    def release_guard(self, fr, st, v, ty, span):
        h = self.hooks.get("release")
        if v.op == "agg" and v.args[0] == "guard":
            lock, mode, epoch = v.args[2], v.args[3], v.args[4]
            st.setaux("held", tuple(h for h in st.aux.get("held", ()) if h[2] is not epoch))
            st.emit(Ev("release", mode, (lock,), None, span, fr.name if fr else None, data=epoch))
        else:
            st.emit(Ev("release", "?", (v,), None, span, fr.name if fr else None))
        return [Out("ret", st, UNIT)]

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, bb, st, t):
        func, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        if func[0] != "k":
            fv = self.operand(st, fr, func)
            argv = [self.operand(st, fr, a) for a in args]
            outs = self.call_value(fr, st, fv, argv, span, mk("site", fr.fid, bb), self.place_ty(fr, dest))
        else:
            ty = self.T[func[1]["t"]]
            argv = [self.operand(st, fr, a) for a in args]
            c = Call()
            c.ty = ty
            c.gname = ty["def"]
            c.name = ty.get("rdef") or ty["def"]
            c.args = argv
            c.atys = [self.op_ty(fr, a) for a in args]
            c.dty = self.place_ty(fr, dest)
            c.span = span
            c.frame = fr
            c.site = mk("site", fr.fid, bb)
            c.targs = ty.get("args") or []
            c.selfty = ty.get("self")
            c.inst = ty.get("inst")
            outs = self.call(st, c)
        res = []
        for o in outs:
            if o.kind == "ret":
                if target is None:
                    continue
                if o.val is None:
                    raise Unsupported("no value")
                self.write_place(o.st, fr, dest, o.val, span)
                res.append(Out("go", o.st, bb=target))
            elif o.kind in ("panic", "unknown", "endless", "cut"):
                res.append(o)
        return res

    def call_value(self, fr, st, fv, args, span, site, dty):
        """call a first class function value with untupled arguments"""
        if fv.op == "ptr":
            inner = self.load(st, fv.args[0], fv.args[1])
            if inner.op == "agg" and inner.args[0] == "closure":
                return self.call_closure(fr, st, inner, fv, args, span, site, dty)
            if inner.op in ("fnval", "ptr"):
                return self.call_value(fr, st, inner, args, span, site, dty)
            fv = inner
        if fv.op == "agg" and fv.args[0] == "closure":
            return self.call_closure(fr, st, fv, None, args, span, site, dty)
        if fv.op == "fnval" and self.T[fv.args[0]]["k"] == "closure":
            t = self.T[fv.args[0]]
            return self.call_closure(fr, st, mk("agg", "closure", fv.args[0]), None, args, span, site, dty)
        if fv.op == "fnval":
            ty = self.T[fv.args[0]]
            c = Call()
            c.ty = ty
            c.gname = ty["def"]
            c.name = ty.get("rdef") or ty["def"]
            c.args = list(args)
            c.atys = list(ty.get("in") or [None] * len(args))
            c.dty = ty.get("out", dty)
            c.span = span
            c.frame = fr
            c.site = mk("callval", site)
            c.targs = ty.get("args") or []
            c.selfty = ty.get("self")
            c.inst = ty.get("inst")
            return self.call(st, c)
        # unknown callable: environment code
        h = self.hooks.get("callback")
        if h:
            r = h(self, fr, st, fv, args, span, site, dty)
            if r is not None:
                return r
        res = self.mksym(st, dty, "cb", fv, st.n)
        st.emit(Ev("callback", "call", (fv,) + tuple(args), res, span, fr.name, data={"held": st.aux.get("held", ())},
                   mem=dict(st.mem) if self.snap else None))
        for a in args:
            self.havoc_arg(st, a, None)
        return [Out("ret", st, res)]

    def call_closure(self, fr, st, cv, cptr, args, span, site, dty):
        ty = cv.args[1]
        t = self.T[ty] if isinstance(ty, int) else None
        inst = t.get("inst") if t else None
        if inst is None or "body" not in self.F.insts[inst]:
            raise Unsupported("body of %s" % (t and t["s"]))
        ins = self.F.insts[inst]
        selfty = self.T[ins["body"]["locals"][1]]
        if selfty["k"] == "ref":
            if cptr is None:
                root = mk("cloself", site, st.n)
                st.mem[root] = cv
                cptr = ptr(root)
            selfv = cptr
        else:
            selfv = cv
        return self.call_inst(st, inst, [selfv] + list(args), mk("frame", site, 1, inst), span)

    def call_inst(self, st, inst, args, fid, span):
        ins = self.F.insts[inst]
        for f in st.frames:
            pass
        names = [f[0] for f in st.frames]
        if names.count(ins["def"]) > 3:
            self.recursion.append(ins["def"])
            raise Unsupported("recursion through %s" % ins["def"])
        ev0 = st.ev
        base = set(st.mem)
        outs = self.run_body(st, ins, ins["body"], args, fid, span)
        if self.merge and len(outs) > 1:
            outs = self.merge_outs(outs, fid, ins["body"]["locals"][0], ev0)
        return outs

    # ---------------------------------------------------------------- merging the outcomes of a finished call
    NOISE = frozenset(("parseint",))

    def ev_key(self, st, ev0):
        k = []
        e = st.ev
        while e is not None and e is not ev0:
            x = e[1]
            if x.kind not in self.NOISE:
                if x.kind == "loop":
                    body = x.data["bodies"] if x.data else ()
                    if all(all(y.kind in self.NOISE for y in b) for b in body):
                        e = e[0]
                        continue
                k.append((x.kind, x.name, x.args, x.res, x.span))
            e = e[0]
        return tuple(k)

    def shape(self, v, ty, depth=0):
        """what has to be equal for two values to be merged: everything except numbers"""
        s = self.sort(ty) if ty is not None and ty != -1 else ""
        if s and s != "bool" and s in SORT_RANGE:
            if v.op in ("int", "lin") or atom_sort(v) in SORT_RANGE or v.op == "len":
                return "n"
            return v
        if v.op == "slice":
            return ("s", v.args[0], v.args[1])
        if v.op == "agg" and depth < 8 and len(v.args) > 2:
            fts = self.agg_field_types(v, ty)
            return ("a", v.args[0], v.args[1]) + tuple(
                self.shape(x, fts[i] if fts and i < len(fts) else None, depth + 1) if isinstance(x, T) else x
                for i, x in enumerate(v.args[2:]))
        return v

    def join_val(self, vs, ty, tag, phis):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if v0.op == "slice" and v0.args[2:] != () and all(v.op == "slice" for v in vs):
            a = [v0.args[0], v0.args[1]]
            for i in (2, 3):
                a.append(self.join_num([v.args[i] for v in vs], "usize", tag + (i,), phis))
            return mk("slice", *a)
        if v0.op == "agg" and len(v0.args) > 2 and all(v.op == "agg" for v in vs):
            fts = self.agg_field_types(v0, ty)
            fs = []
            for i in range(len(v0.args) - 2):
                fs.append(self.join_val([v.args[2 + i] for v in vs], fts[i] if fts and i < len(fts) else None,
                                        tag + (i,), phis)
                          if isinstance(v0.args[2 + i], T) else v0.args[2 + i])
            return mk("agg", v0.args[0], v0.args[1], *fs)
        return self.join_num(vs, self.sort(ty), tag, phis)

    def join_num(self, vs, srt, tag, phis):
        if all(v is vs[0] for v in vs):
            return vs[0]
        key = (tuple(vs), srt)
        if key in phis:
            return phis[key]
        at = mk("phi", tag, srt)
        phis[key] = at
        return at

    def merge_outs(self, outs, fid, rty, ev0):
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) < 2:
            return outs
        groups = {}
        order = []
        for o in rets:
            k = (self.shape(o.val, rty), self.ev_key(o.st, ev0), o.st.taint, o.st.frames,
                 tuple(sorted(((a, b) for a, b in o.st.aux.items()), key=str)))
            try:
                hash(k)
            except TypeError:
                return outs
            g = groups.get(k)
            if g is None:
                g = groups[k] = []
                order.append(k)
            g.append(o)
        res = [o for o in outs if o.kind != "ret"]
        for k in order:
            g = groups[k]
            # split by the shape of memory
            sub = {}
            so = []
            roots = {}
            for o in g:
                for r in o.st.mem:
                    roots.setdefault(r, 0)
                    roots[r] += 1
            diff = []
            for r, n in roots.items():
                v0 = g[0].st.mem.get(r)
                if n < len(g) or any(o.st.mem.get(r) is not v0 for o in g):
                    diff.append(r)
            for o in g:
                mk_ = []
                for r in diff:
                    v = o.st.mem.get(r)
                    mk_.append(None if v is None else self.shape(v, self.root_ty_any(r, o.st)))
                mk_ = tuple(mk_)
                if mk_ not in sub:
                    sub[mk_] = []
                    so.append(mk_)
                sub[mk_].append(o)
            for m in so:
                h = sub[m]
                if len(h) == 1:
                    res.append(h[0])
                    continue
                res.append(self.join_states(h, diff, fid, rty))
        return res

    def root_ty_any(self, root, st):
        if root.op == "loc":
            return self.loc_ty(root)
        return st.rty.get(root)

    def join_states(self, h, diff, fid, rty):
        phis = {}
        o0 = h[0]
        st = o0.st.copy()
        tag = ("j", fid, o0.st.n)
        val = self.join_val([o.val for o in h], rty, tag + ("r",), phis)
        rt = dict(st.rty)
        for o in h[1:]:
            for k, v in o.st.rty.items():
                rt.setdefault(k, v)
        st.rty = rt
        for r in diff:
            vs = [o.st.mem.get(r) for o in h]
            if vs[0] is None:
                continue
            st.mem[r] = self.join_val(vs, self.root_ty_any(r, st), tag + (r,), phis)
        facts = [o.st.fact for o in h]
        if phis:
            subs = []
            nf = []
            for i, f in enumerate(facts):
                m = {}
                for (vs, srt), at in phis.items():
                    v = vs[i]
                    q = f.add_eq(sub(at, v))
                    if q is not None:
                        f = q
                    if v.op not in ("int", "lin"):
                        m[v] = at
                    elif v.op == "lin":
                        c, d = lin_parts(v)
                        # v = k*a + rest: a = (at - rest)/k for unit k
                        for a, kk in d.items():
                            if abs(kk) == 1 and a not in m:
                                m[a] = scale(sub(at, sub(v, scale(a, kk))), kk)
                                break
                nf.append(f)
                subs.append(m)
            facts = nf
        else:
            subs = None
        st.fact = join_facts(facts, subs, phis={at: vs for (vs, srt), at in phis.items()})
        self.merged += len(h) - 1
        return Out("ret", st, val)

    merge = True
    merged = 0
    snap = False        # keep the memory of the time of each environment call

    def find_impl(self, name):
        """instance (identity substitution) of a function of the crate by its resolved name"""
        for f in self.F.fns:
            if f["def"] == name and self.F.insts[f["inst"]].get("body"):
                return f["inst"]
        return None

    def call(self, st, c):
        self.calls_seen.add((c.frame.name, c.name)) if c.frame.localfn else None
        # anchors chosen by the property
        h = self.anchors.get(c.name) or self.anchors.get(c.gname)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return self.norm(r)
        m = self.find_model(c)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return self.norm(r)
        ty = c.ty
        if ty.get("rk") == "ctor" or (ty.get("variant") is not None and ty.get("adt")):
            return [Out("ret", st, agg(ty["adt"], ty.get("variant") or 0, *c.args))]
        if c.inst is not None:
            ins = self.F.insts[c.inst]
            if ins.get("body") and (ins.get("local") or self.inline_std(ins)):
                return self.call_inst(st, c.inst, c.args, mk("frame", c.site, 0, c.inst), c.span)
        return self.opaque(st, c)

    def inline_std(self, ins):
        return True

    def norm(self, r):
        out = []
        for x in r:
            if isinstance(x, Out):
                out.append(x)
            else:
                out.append(Out("ret", x[0], x[1]))
        return out

    def find_model(self, c):
        m = self.models.get(c.name)
        if m is None and c.gname != c.name:
            m = self.models.get(c.gname)
        if m is None and c.ty.get("trait"):
            m = self.models.get("trait:" + c.ty["trait"])
        return m

    def opaque(self, st, c):
        """a function we know nothing about"""
        rk = c.ty.get("rk")
        if c.name.endswith(("PartialEq>::eq", "PartialEq>::ne")) and len(c.args) == 2 and all(a.op == "ptr" for a in c.args):
            # equality of enums without data that are not defined here
            ts = [self.T[a].get("e") if a is not None else None for a in c.atys]
            adt = self.F.adts.get(self.T[ts[0]].get("def")) if ts[0] is not None else None
            if ts[0] == ts[1] and adt and adt.get("kind") == "enum" and not any(v["f"] for v in adt["v"]):
                d = [self.discr_of(st, self.load(st, a.args[0], a.args[1], ts[0]), ts[0]) for a in c.args]
                same = c.name.endswith("::eq")
                return [Out("ret", g, TRUE if t == same else FALSE) for t, g in self.branch(st, eq0(sub(d[0], d[1])))]
        if c.dty is not None and self.T[c.dty]["k"] == "never":
            return [self.panic(st, c.frame, "call of " + c.name, c.span)]
        env = rk == "unresolved" and (c.ty.get("crate") in (self.F.crate, "vt6"))
        res = self.mksym(st, c.dty, "res", c.name, st.n)
        if not env:
            key = c.name
            self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
            st.taint = st.taint + (("unmodelled", key, c.frame.name),)
        st.emit(Ev("env" if env else "opaque", c.gname if env else c.name, tuple(c.args), res, c.span, c.frame.name,
                   data={"atys": c.atys, "self": c.selfty, "targs": c.targs, "site": c.site, "held": st.aux.get("held", ())},
                   mem=dict(st.mem) if self.snap else None))
        for a, ty in zip(c.args, c.atys):
            self.havoc_arg(st, a, ty)
        return [Out("ret", st, res)]

    def havoc_arg(self, st, a, ty):
        """environment code may change what a &mut argument refers to"""
        if ty is None:
            return
        t = self.T[ty]
        if t["k"] == "ref" and t.get("mut"):
            if a.op == "ptr":
                self.havoc(st, a.args[0], a.args[1], t["e"])
            elif a.op == "slice":
                old = self.load(st, a.args[0], a.args[1])
                new = mk("hv", st.n, "bytes", "")
                if a.args[2] is I(0) and not a.args[1] and a.args[0].op != "loc":
                    v = new
                else:
                    v = mk("copyrng", old, a.args[2], a.args[3], new, I(0))
                self.store(st, a.args[0], a.args[1], v)

    def havoc(self, st, root, path, ty):
        t = self.T[ty] if ty is not None else None
        if t is not None and t["k"] == "adt" and t.get("v") and len(t["v"]) == 1 and \
                any((t["def"], i) in self.frozen for i in range(len(t["v"][0]))):
            for i, f in enumerate(t["v"][0]):
                if (t["def"], i) not in self.frozen:
                    self.store(st, root, path + (mk("pf", 0, i, f),),
                               self.mksym(st, f, "hv", st.n, i))
            return
        self.store(st, root, path, self.mksym(st, ty, "hv", st.n, ptr(root, path)))

    # ---------------------------------------------------------------- loop fixpoint
    def leaves(self, st, a, b, root, path, ty, out, depth=0):
        """locations under (root,path) where values a (head) and b (back edge) differ"""
        if a is b:
            return
        if depth < 12:
            if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) \
                    and len(a.args) > 2:
                fts = self.agg_field_types(a, ty)
                for i in range(len(a.args) - 2):
                    f = fts[i] if fts and i < len(fts) else None
                    self.leaves(st, a.args[2 + i], b.args[2 + i], root,
                                path + (mk("pf", a.args[1] if a.args[0] not in ("closure", "coroutine") else 0, i,
                                           f if f is not None else -1),), f, out, depth + 1)
                return
            if (a.op == "upd" or b.op == "upd"):
                ab, bb = a, b
                ps = {}
                while ab.op == "upd":
                    ps.setdefault((ab.args[1].args[0], ab.args[1].args[1]), ab.args[1])
                    ab = ab.args[0]
                while bb.op == "upd":
                    ps.setdefault((bb.args[1].args[0], bb.args[1].args[1]), bb.args[1])
                    bb = bb.args[0]
                if ab is bb and ab.op not in ("uninit", "moved"):
                    for key in sorted(ps):
                        p = ps[key]
                        self.leaves(st, self.proj(st, a, p), self.proj(st, b, p), root, path + (p,),
                                    p.args[2], out, depth + 1)
                    return
            if a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
                for i in (2, 3):
                    if a.args[i] is not b.args[i]:
                        out[(root, path, "s%d" % i)] = (a.args[i], b.args[i], None)
                return
        out[(root, path, "")] = (a, b, ty)

    IT_FIELDS = {"it:enum": {1: "usize"}, "it:take": {1: "usize"}, "it:charidx": {1: "usize"}, "it:skipn": {1: "usize"},
                 "it:rangeinc": {0: None, 1: None, 2: "bool"}}

    def agg_field_types(self, a, ty):
        if ty is None or ty == -1:
            return None
        t = self.T[ty]
        if t["k"] == "adt" and t.get("v") and a.args[0] == t["def"] and a.args[1] < len(t["v"]):
            return t["v"][a.args[1]]
        if t["k"] == "tuple":
            return t["f"]
        if t["k"] in ("closure", "coroutine"):
            return t["f"]
        return None

    def leaf_name(self, loc, headid):
        root, path, part = loc
        return mk("lv", headid, root, path, part)

    def set_leaf(self, st, loc, val):
        root, path, part = loc
        if part == "":
            self.store(st, root, path, val)
        else:
            old = self.load(st, root, path)
            a = list(old.args)
            a[int(part[1])] = val
            self.store(st, root, path, mk("slice", *a))

    def get_leaf(self, st, loc):
        root, path, part = loc
        v = self.root_value(st, root)
        for p in path:
            v = self.proj(st, v, p)
        if part == "":
            return v
        if v.op == "slice":
            return v.args[int(part[1])]
        return None

    def leaf_sort(self, loc, a, b, ty):
        if loc[2]:
            return "usize"
        if ty is not None and ty != -1:
            return self.sort(ty)
        if loc[1] and loc[1][-1].op == "pf":
            pass
        if a is not None and (a.op in ("int", "lin") or (atom_sort(a) or "") in SORT_RANGE):
            if b is not None and (b.op in ("int", "lin") or (atom_sort(b) or "") in SORT_RANGE):
                return "usize"
        return ""

    accelerate = False  # peel: but describe a loop by its invariant where that is exact

    unroll = None       # peel this many iterations of every loop instead of widening

    unroll_for = None   # policy per loop: function of (frame, head)

    def loop_unrolled(self, fr, head, st0, act, depth):
        outs = []
        cur = [st0]
        for n in range(depth + 1):
            nxt = []
            for s in cur:
                for o in self.explore(fr, head, s.copy(), act):
                    if o.kind == "back":
                        if self.iters:
                            o.st.emit(Ev("iter", fr.name, (n,), None, self.head_span(fr, head), fr.name,
                                         data=mk("site", fr.fid, head), mem=dict(o.st.mem)))
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
        if cur:
            self.cut_loops += 1
            if self.iters:
                outs.extend(Out("cut", s) for s in cur)
        return outs

    peel = 0            # peel this many iterations before widening

    iters = False       # report the ends of peeled iterations, and paths that are longer than that

    cut_loops = 0

    def loop(self, fr, head, st0, active):
        act = active + (head,)
        depth = self.unroll_for(fr, head) if self.unroll_for else self.unroll
        if depth is not None:
            if self.accelerate:
                outs = self.widen(fr, head, st0.copy(), act)
                if self.last_exact:
                    return outs
            return self.loop_unrolled(fr, head, st0, act, depth)
        if self.peel:
            outs, cur = [], [st0]
            for n in range(self.peel):
                nxt = []
                for s in cur:
                    for o in self.explore(fr, head, s.copy(), act):
                        if o.kind == "back":
                            nxt.append(o.st)
                        else:
                            outs.append(o)
                cur = nxt
            for s in cur:
                outs.extend(self.widen(fr, head, s, act))
            return outs
        return self.widen(fr, head, st0, act)

    def widen(self, fr, head, st0, act):
        """the loop by invariants that hold at its head"""
        entry_ev = st0.ev
        nlevel = self.quiet
        # pass 0: is there a feasible back edge at all?
        self.quiet += 1
        snap = self.snapshot()
        outs = self.explore(fr, head, st0.copy(), act)
        self.quiet -= 1
        backs = [o for o in outs if o.kind == "back"]
        if not backs:
            self.restore(snap)
            if not self.quiet:
                outs = self.explore(fr, head, st0.copy(), act)
            self.last_exact = True
            return [o for o in outs if o.kind != "back"]
        headid = mk("head", fr.fid, head, st0.n)
        locs = {}     # loc -> (ty)
        for rnd in range(12):
            new = False
            hs = self.head_state(st0, locs, headid, ())
            for o in backs:
                diff = {}
                for root in set(hs.mem) | set(o.st.mem):
                    if root.op == "cloself":
                        continue
                    a, b = hs.mem.get(root), o.st.mem.get(root)
                    if b is None:
                        continue
                    if a is None:
                        if root.op == "loc" and root.args[0] is fr.fid:
                            continue          # a local that is dead at the head
                        if root not in o.st.rty and root.op not in ("deref", "lockdata", "arcdata"):
                            continue
                        a = self.root_value_in(hs, root, o.st)
                    rt = self.root_ty(fr, root, o.st)
                    self.leaves(hs, a, b, root, (), rt, diff)
                for loc, (a, b, ty) in diff.items():
                    # a location already covered by a havocked prefix is fine when its head value is the symbol
                    if loc in locs:
                        continue
                    if self.covered(loc, locs):
                        continue
                    for l2 in [l for l in locs if self.is_prefix(loc, l)]:
                        del locs[l2]
                    locs[loc] = (self.leaf_sort(loc, a, b, ty), ty)
                    new = True
            if not new:
                break
            self.quiet += 1
            self.restore(snap)
            outs = self.explore(fr, head, self.head_state(st0, locs, headid, ()), act)
            self.quiet -= 1
            backs = [o for o in outs if o.kind == "back"]
        else:
            raise Unsupported("loop does not stabilise")
        self.last_exact = False
        if self.accelerate and self.unroll is not None and not self.scan_like(st0, locs, headid, backs):
            return None
        # candidate invariants
        cands = self.candidates(st0, locs, headid, backs)
        frames = self.array_frames(st0, locs, headid, backs)
        for rnd in range(20):
            hs = self.head_state(st0, locs, headid, cands, frames)
            if hs is None:
                raise Unsupported("contradictory loop invariants")
            self.quiet += 1
            self.restore(snap)
            outs = self.explore(fr, head, hs.copy(), act)
            self.quiet -= 1
            backs = [o for o in outs if o.kind == "back"]
            bad = set()
            again = {l: x for l, x in frames.items() if self.keeps_frame(hs, l, x, headid, locs, backs)}
            if len(again) < len(frames):
                frames = again
                continue
            for o in backs:
                m = self.leaf_map(o.st, locs, headid)
                for c in cands:
                    if c not in bad and not self.holds(o.st, c, m):
                        bad.add(c)
            if not bad:
                # the domain of guards may suggest stronger candidates once
                break
            cands = tuple(c for c in cands if c not in bad)
        self.loops_seen[(fr.name, head)] = [show_cand(c) for c in cands]
        self.last_loop = (fr.name, head)
        # final pass
        hs = self.head_state(st0, locs, headid, cands, frames)
        self.restore(snap)
        final = self.explore(fr, head, hs.copy(), act)
        self.last_exact = not frames and self.exact_scan(st0, locs, headid, cands, hs, [o for o in final if o.kind == "back"])
        if self.last_exact:
            EXACT.add(headid)
        else:
            INEXACT.add(headid)
        bodies = []
        for o in final:
            if o.kind == "back":
                bodies.append(o.st)
        rel = []
        info = {"head": headid, "bodies": [b.trace(hs.ev) for b in bodies], "states": bodies, "locs": locs,
                "inv": cands, "hs": hs, "entry": st0, "span": self.head_span(fr, head), "fn": fr.name}
        for o in final:
            if o.kind == "back":
                continue
            o.st.ev = self.splice(o.st.ev, hs.ev, entry_ev,
                                  Ev("loop", fr.name, (), None, info["span"], fr.name, hs.fact, info))
            rel.append(o)
        if not rel and not self.quiet:
            # endless loop: keep one outcome so that its body can be examined
            s = hs.copy()
            s.ev = (entry_ev, Ev("loop", fr.name, (), None, info["span"], fr.name, hs.fact, info))
            rel.append(Out("endless", s))
        elif not rel:
            s = hs.copy()
            rel.append(Out("endless", s))
        return rel

    def scan_like(self, st0, locs, headid, backs):
        """(entry values, steps) of the locations of a loop that only moves indices by one"""
        x0, step = {}, {}
        if not locs or not backs or len(locs) > 4:
            return None
        for loc, (srt, ty) in locs.items():
            w = self.get_leaf(st0, loc)
            if srt in ("", "bool") or w is None:
                return None
            a = self.leaf_atom(loc, srt, headid)
            x0[a] = w
            for o in backs:
                n = self.get_leaf(o.st, loc)
                d = sub(n, a) if n is not None and n.op != "bad" else None
                if d is None or d.op != "int" or d.args[0] not in (1, -1) or step.get(a, d.args[0]) != d.args[0]:
                    return None
                step[a] = d.args[0]
        return x0, step

    def exact_scan(self, st0, locs, headid, cands, hs, backs):
        """Does the invariant at the head describe exactly the states that occur there?  This is recognized for loops
        that move indices by one while the byte at some index is in some class and linear conditions hold."""
        r = self.scan_like(st0, locs, headid, backs)
        if not r:
            return False
        x0, step = r
        h = hs.fact
        # all move together
        v = next((a for a in step if step[a] == 1), None)
        if v is None or not h.le(x0[v], v):
            return False
        for a in step:
            if not h.eq(sub(a, x0[a]), scale(sub(v, x0[v]), step[a])):
                return False
        before = {a: addc(a, -step[a]) for a in step}
        cls, at, les = (), None, None
        for o in backs:
            f = o.st.fact
            if o.st.taint != hs.taint or o.st.trace(hs.ev):
                return False
            if (f.eqs, f.neqs, f.strv, f.strn) != (h.eqs, h.neqs, h.strv, h.strn):
                return False
            c = None
            new = {e for e in f.les if e not in h.les}
            for k, d in f.dom.items():
                if d == h.dom.get(k):
                    continue
                if k in step and len(d) == 1:
                    new |= {sub(I(d[0][0]), k), sub(k, I(d[0][1]))}
                    continue
                if k.op != "sel" or at not in (None, k) or c is not None:
                    return False
                at, c = k, d
            if c is None or les not in (None, new):
                return False
            les = new
            cls = iv_union(cls, c)
        if any(v2 in atoms_of(at.args[0]) for v2 in step):
            return False
        for e in les:
            d = lin_parts(e)[1]
            k = sum(d.get(a, 0) * step[a] for a in step)
            # the condition gets harder (easier) to meet from iteration to iteration
            if k <= 0 and not st0.fact.le0(replace(e, x0)) or k > 0 and not h.le0(replace(e, before)):
                return False
        # every byte that was passed is in the class, and nothing else is demanded of them
        lo, hi = replace(at.args[1], x0), at.args[1]
        i = lin_parts(hi)[1]
        if sum(i.get(a, 0) * step[a] for a in step) != 1:
            return False
        for a, l, u, k in h.alls:
            if a is at.args[0] and not (h.eq(l, lo) and h.eq(u, hi) and iv_subset(cls, k)) and (a, l, u, k) not in st0.fact.alls:
                return False
        return any(a is at.args[0] and h.eq(l, lo) and h.eq(u, hi) and k == cls for a, l, u, k in h.alls)

    def head_span(self, fr, head):
        b = fr.body["blocks"][head]
        for s in b["s"]:
            if s[0] == "=":
                return s[3]
        t = b["t"]
        if t[0] == "call":
            return t[5]
        return None

    def splice(self, ev, base, entry, loopev):
        """insert the loop event between the entry trace and this iteration's events"""
        tail = []
        e = ev
        while e is not None and e is not base:
            tail.append(e[1])
            e = e[0]
        node = (entry, loopev)
        for x in reversed(tail):
            node = (node, x)
        return node

    def snapshot(self):
        return None

    def restore(self, snap):
        pass

    def root_value_in(self, hs, root, other):
        if root in other.rty and root not in hs.rty:
            hs.rty = dict(hs.rty)
            hs.rty[root] = other.rty[root]
        return self.root_value(hs, root)

    def root_ty(self, fr, root, st):
        if root.op == "loc" and root.args[0] is fr.fid:
            return fr.locals[root.args[1]]
        if root.op == "loc":
            return self.loc_ty(root)
        return st.rty.get(root)

    def loc_ty(self, root):
        fid = root.args[0]
        if fid.op == "frame":
            ins = self.F.insts[fid.args[2]] if isinstance(fid.args[2], int) else None
            if ins and "body" in ins and root.args[1] < len(ins["body"]["locals"]):
                return ins["body"]["locals"][root.args[1]]
        return None

    def is_prefix(self, a, b):
        """is location a a (non-strict) prefix of b?"""
        return a[0] is b[0] and a[2] == "" and b[1][:len(a[1])] == a[1]

    def covered(self, loc, locs):
        for l in locs:
            if l != loc and self.is_prefix(l, loc):
                return True
        return False

    def array_frames(self, st0, locs, headid, backs):
        """arrays into which a loop writes at one index that moves by one: location -> (index atom, offset, direction)"""
        res = {}
        for loc, (srt, ty) in locs.items():
            if srt != "" or loc[2] != "":
                continue
            base = self.leaf_atom(loc, srt, headid)
            found = None
            for o in backs:
                m = self.leaf_map(o.st, locs, headid)
                v = m.get(base)
                ks = set()
                while v is not None and v.op == "store":
                    ks |= {self.moving(v.args[1], m)}
                    v = v.args[0]
                if v is not base or len(ks) != 1 or None in ks or found not in (None, ks):
                    found = None
                    break
                found = ks
            if found:
                res[loc] = next(iter(found))
        return res

    def moving(self, j, m):
        """an index that is one of the locations a loop moves by one, plus something that does not change"""
        hit = []
        for a in atoms_of(j):
            nv = m.get(a)
            if nv is None:
                continue
            d = sub(nv, a) if nv.op != "bad" else None
            if d is not None and d.op == "int" and d.args[0] == 0:
                continue
            off = sub(j, a)
            if d is None or d.op != "int" or d.args[0] not in (1, -1) or a in atoms_of(off):
                return None
            hit.append((a, off, d.args[0]))
        return hit[0] if len(hit) == 1 else None

    def keeps_frame(self, hs, loc, x, headid, locs, backs):
        old = self.get_leaf(hs, loc)
        for o in backs:
            m = self.leaf_map(o.st, locs, headid)
            v = self.get_leaf(o.st, loc)
            n = 0
            while v is not None and v.op == "store" and v is not old:
                n += 1
                if self.moving(v.args[1], m) != x:
                    return False
                v = v.args[0]
            if v is not old or not n:
                return False
        return True

    def head_state(self, st0, locs, headid, cands, frames=()):
        s = st0.copy()
        s.rty = dict(s.rty)
        for loc, (srt, ty) in sorted(locs.items(), key=lambda kv: (len(kv[0][1]), kv[0][0].id, str(kv[0][2]))):
            base = mk("lv", headid, loc[0], loc[1], loc[2], srt)
            v = base if srt else (self.fresh(s, ty, base) if ty not in (None, -1) else base)
            if loc in frames and v is base:
                # outside of what has been written so far the array is what it was before
                a, off, d = frames[loc]
                at = [l for l, (t, _) in locs.items() if t and self.leaf_atom(l, t, headid) is a]
                was = self.get_leaf(st0, at[0]) if at else None
                if was is not None and (was.op in ("int", "lin") or atom_sort(was)):
                    if d > 0:
                        lo, n = add(was, off), sub(a, was)
                    else:
                        lo, n = addc(add(a, off), 1), sub(was, a)
                    v = mk("copyrng", self.get_leaf(st0, loc), lo, n, base, lo)
            self.set_leaf(s, loc, v)
        f = s.fact
        for c in cands:
            f = self.add_cand(f, c)
            if f is None:
                return None
        s.fact = f
        return s

    def leaf_atom(self, loc, srt, headid):
        return mk("lv", headid, loc[0], loc[1], loc[2], srt)

    def leaf_map(self, st, locs, headid):
        m = {}
        for loc, (srt, ty) in locs.items():
            if srt:
                v = self.get_leaf(st, loc)
                m[self.leaf_atom(loc, srt, headid)] = v if v is not None else mk("bad")
        m.update(self.array_leaves(st, locs, headid))
        return m

    def array_leaves(self, st, locs, headid):
        """contents of memory that a loop changes element by element"""
        m = {}
        for loc, (srt, ty) in locs.items():
            if srt == "" and loc[2] == "":
                v = self.get_leaf(st, loc)
                if v is not None:
                    m[self.leaf_atom(loc, srt, headid)] = v
        return m

    def add_cand(self, f, c):
        if c[0] == "le":
            return f.add_le(c[1])
        if c[0] == "eq":
            return f.add_eq(c[1])
        if c[0] == "all":
            return f.add_all(*c[1:])
        if c[0] == "dom":
            return f._setdom(c[1], c[2])
        raise AssertionError

    def holds(self, st, c, m):
        f = st.fact
        try:
            if c[0] == "le":
                return f.le0(replace(c[1], m))
            if c[0] == "eq":
                e = replace(c[1], m)
                return f.le0(e) and f.le0(scale(e, -1))
            if c[0] == "dom":
                e = replace(c[1], m)
                return iv_subset(f.range_of(e), c[2])
            if c[0] == "all":
                arr, lo, hi = replace(c[1], m), replace(c[2], m), replace(c[3], m)
                return self.all_in(st, arr, lo, hi, c[4])
        except (AttributeError, TypeError, KeyError):
            return False
        return False

    def all_in(self, st, arr, lo, hi, cl):
        """do all elements of arr in [lo,hi) lie in cl?"""
        f = st.fact
        if f.le(hi, lo):
            return True
        if arr.op == "bytes":
            if lo.op == "int" and hi.op == "int":
                return all(iv_has(cl, x) for x in arr.args[0][lo.args[0]:hi.args[0]])
        if arr.op == "arrlit" and lo.op == "int" and hi.op == "int":
            return all(iv_subset(f.range_of(x), cl) for x in arr.args[lo.args[0]:hi.args[0]])
        if arr.op == "copyrng":
            a, s, n, b, bs = arr.args
            e = add(s, n)
            if f.le(s, lo) and f.le(hi, e):
                d = sub(bs, s)
                return self.all_in(st, b, add(lo, d), add(hi, d), cl)
            if f.le(hi, s) or f.le(e, lo):
                return self.all_in(st, a, lo, hi, cl)
            for p in (s, e):
                if f.lt(lo, p) and f.lt(p, hi):
                    return self.all_in(st, arr, lo, p, cl) and self.all_in(st, arr, p, hi, cl)
        if arr.op == "store":
            a, j, x = arr.args
            if f.le(lo, j) and f.lt(j, hi):
                if not iv_subset(f.range_of(x), cl):
                    return False
                if f.eq(j, lo):
                    return self.all_in(st, a, addc(lo, 1), hi, cl)
                if f.eq(addc(j, 1), hi):
                    return self.all_in(st, a, lo, j, cl)
                return self.all_in(st, a, lo, hi, cl)
            return self.all_in(st, a, lo, hi, cl)
        for a, l, h, k in f.alls:
            if a is arr and iv_subset(k, cl) and f.le(l, lo):
                if f.le(hi, h):
                    return True
                if f.le(lo, h) and not f.le(hi, h) and f.lt(lo, h):
                    return self.all_in(st, arr, h, hi, cl)
        # single last / first element
        x = mk("sel", arr, lo, "u8")
        if f.eq(addc(lo, 1), hi) or f.le(hi, addc(lo, 1)):
            return iv_subset(f.ivs(self._selkey(f, arr, lo)), cl)
        # peel off the element whose domain is known at either end
        k = self._selkey(f, arr, lo)
        if k in f.dom and iv_subset(f.ivs(k), cl):
            return self.all_in(st, arr, addc(lo, 1), hi, cl)
        k = self._selkey(f, arr, addc(hi, -1))
        if k in f.dom and iv_subset(f.ivs(k), cl):
            return self.all_in(st, arr, lo, addc(hi, -1), cl)
        return False

    def _selkey(self, f, arr, idx):
        k = mk("sel", arr, idx, "u8")
        if k in f.dom:
            return k
        for a in f.dom:
            if a.op == "sel" and a.args[0] is arr and f.eq(a.args[1], idx):
                return a
        return k

    def candidates(self, st0, locs, headid, backs):
        cands = set()
        atoms = {}
        entry = {}
        for loc, (srt, ty) in locs.items():
            if not srt or srt == "bool":
                continue
            a = self.leaf_atom(loc, srt, headid)
            v = self.get_leaf(st0, loc)
            if v is None or v.op in ("moved", "uninit", "bad"):
                continue
            if v.op not in ("int", "lin") and not atom_sort(v):
                continue
            atoms[a] = loc
            entry[a] = v
        if not atoms:
            return ()
        alist = sorted(atoms, key=lambda x: x.id)
        backmaps = [self.leaf_map(o.st, locs, headid) for o in backs]
        # deltas
        delta = {}
        for a in alist:
            ds = []
            for m in backmaps:
                d = sub(m.get(a, mk("bad")), a) if m.get(a) is not None and m[a].op != "bad" else None
                ds.append(d)
            delta[a] = ds
        for a in alist:
            e = entry[a]
            cands.add(("le", sub(e, a)))
            cands.add(("le", sub(a, e)))
        # linear relations between leaves with constant deltas
        for i, a in enumerate(alist):
            for b in alist[i + 1:]:
                pairs = [(x, y) for x, y in zip(delta[a], delta[b])]
                if all(x is not None and y is not None for x, y in pairs):
                    # find da, db constant with a common ratio
                    ratio = None
                    good = True
                    for x, y in pairs:
                        if x.op == "int" and y.op == "int":
                            x0, y0 = x.args[0], y.args[0]
                            if x0 == 0 and y0 == 0:
                                continue
                            r = (x0, y0)
                            if ratio is None:
                                ratio = r
                            elif ratio[0] * r[1] != ratio[1] * r[0]:
                                good = False
                        elif x is y:
                            if ratio is None:
                                ratio = (1, 1)
                            elif ratio[0] != ratio[1]:
                                good = False
                        elif x is scale(y, -1):
                            if ratio is None:
                                ratio = (1, -1)
                            elif ratio[0] != -ratio[1]:
                                good = False
                        else:
                            good = False
                    if good and ratio:
                        ea = sub(a, entry[a])
                        eb = sub(b, entry[b])
                        cands.add(("eq", sub(scale(ea, ratio[1]), scale(eb, ratio[0]))))
        # general linear guesses: sums and differences of leaves stay what they were
        for i, a in enumerate(alist):
            for b in alist[i + 1:]:
                cands.add(("eq", sub(sub(a, entry[a]), sub(b, entry[b]))))
                cands.add(("eq", add(sub(a, entry[a]), sub(b, entry[b]))))
                cands.add(("le", sub(sub(a, entry[a]), sub(b, entry[b]))))
                cands.add(("le", sub(sub(b, entry[b]), sub(a, entry[a]))))
                cands.add(("le", sub(a, b)))
                cands.add(("le", sub(b, a)))
        # lengths of everything in sight as upper bounds
        lens = set()
        for v in list(st0.mem.values()):
            for x in subterms(v):
                if x.op == "len":
                    lens.add(x)
        for t in st0.fact.les + st0.fact.eqs:
            for x in atoms_of(t):
                if x.op == "len":
                    lens.add(x)
        for a in alist:
            for l in lens:
                cands.add(("le", sub(a, l)))
        # guard derived bounds, shifted by the delta
        for o, m in zip(backs, backmaps):
            fs = list(o.st.fact.les)
            for e in o.st.fact.eqs:
                fs.append(e)
                fs.append(scale(e, -1))
            base = set(st0.fact.les) | set(st0.fact.eqs)
            for a in alist:
                iv = o.st.fact.ivs(a)
                r = sort_range(a.args[-1])
                if iv and r:
                    if iv_min(iv) > r[0]:
                        fs.append(addc(scale(a, -1), iv_min(iv)))
                    if iv_max(iv) < r[1]:
                        fs.append(addc(a, -iv_max(iv)))
            for e in fs:
                at = atoms_of(e)
                mine = [a for a in alist if a in at]
                if not mine or e in base:
                    continue
                # express in terms of the new values
                sh = {}
                okay = True
                for a in mine:
                    nv = m.get(a)
                    d = sub(nv, a) if nv is not None and nv.op != "bad" else None
                    if d is None or d.op != "int":
                        okay = False
                        break
                    sh[a] = addc(a, -d.args[0])
                cands.add(("le", e))
                if okay:
                    cands.add(("le", replace(e, sh)))
        # quantified classes of array elements: over all back edges
        quant = {}

        def addq(arr, lo, hi, iv):
            k = (arr, lo, hi)
            quant[k] = iv_union(quant.get(k, ()), iv)
        for o, m in zip(backs, backmaps):
            for k, iv in o.st.fact.dom.items():
                if k.op != "sel":
                    continue
                arr, idx = k.args[0], k.args[1]
                for a in alist:
                    nv = m.get(a)
                    if nv is None:
                        continue
                    d = sub(nv, a)
                    if a in atoms_of(idx) and d.op == "int":
                        off = sub(idx, a)
                        if a in atoms_of(off):
                            continue
                        if d.args[0] == 1:
                            addq(arr, add(entry[a], off), add(a, off), iv)
                        elif d.args[0] == -1:
                            addq(arr, addc(add(a, off), 1), addc(add(entry[a], off), 1), iv)
        # elements written
        arrays = self.array_leaves(st0, locs, headid)
        for o, m in zip(backs, backmaps):
            for base in arrays:
                v = m.get(base)
                while v is not None and v.op == "store":
                    j, x = v.args[1:]
                    iv = o.st.fact.range_of(x) if x.op in ("int", "lin") or atom_sort(x) in SORT_RANGE else None
                    for a in alist:
                        nv = m.get(a)
                        if iv is None or nv is None or nv.op == "bad" or a not in atoms_of(j):
                            continue
                        d = sub(nv, a)
                        off = sub(j, a)
                        if d.op != "int" or a in atoms_of(off):
                            continue
                        if d.args[0] == 1:
                            addq(base, add(entry[a], off), add(a, off), iv)
                        elif d.args[0] == -1:
                            addq(base, addc(add(a, off), 1), addc(add(entry[a], off), 1), iv)
                    v = v.args[0]
        entry.update(arrays)
        for (arr, lo, hi), iv in quant.items():
            cands.add(("all", arr, lo, hi, iv))
        res = []
        for c in sorted(cands, key=str):
            if c[0] in ("le", "eq") and not lin_parts(c[1])[1]:
                continue
            if self.holds(st0, c, entry):
                res.append(c)
        return tuple(res)


def show_cand(c):
    if c[0] == "le":
        return show(c[1]) + " <= 0"
    if c[0] == "eq":
        return show(c[1]) + " == 0"
    if c[0] == "all":
        return "%s[%s..%s] in %s" % (show(c[1]), show(c[2]), show(c[3]), iv_show(c[4]))
    return str(c)


# unsized types that are nothing but bytes
BYTE_TYPES = ("std::path::Path", "std::ffi::os_str::OsStr")

GUARDS = {
    "std::sync::poison::rwlock::RwLockWriteGuard": "write",
    "std::sync::poison::rwlock::RwLockReadGuard": "read",
    "std::sync::poison::mutex::MutexGuard": "lock",
}


def rust_str(x):
    """value of a debug formatted string literal"""
    s = x.strip()
    s = s[1:s.rindex('"')]
    out = bytearray()
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "\\":
            n = s[i + 1]
            i += 2
            if n == "u":
                j = s.index("}", i)
                out += chr(int(s[i + 1:j], 16)).encode()
                i = j + 1
            else:
                out += {"n": b"\n", "t": b"\t", "r": b"\r", "0": b"\0"}.get(n, n.encode())
        else:
            out += ch.encode()
            i += 1
    return bytes(out)
