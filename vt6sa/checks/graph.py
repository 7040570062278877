"""Call graph over the local instances of a crate's facts."""


def walk_ops(body):
    """(kind, payload, span) of the constructs of a body"""
    for b in body["blocks"]:
        if b.get("c"):
            pass
        for s in b["s"]:
            yield ("stmt", s, s[3] if s[0] == "=" else None)
        yield ("term", b["t"], None)


def rval_consts(x):
    """all constant operands in a nested statement structure"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if len(y) == 2 and y[0] == "k" and isinstance(y[1], dict):
                yield y[1]
            else:
                st.extend(y)


class Graph:
    def __init__(self, F):
        self.F = F
        self.edges = {}       # inst -> {(inst, span, how)}
        self.local = [i for i, x in enumerate(F.insts) if x.get("local") and "body" in x]
        self.trait_impl = {}  # (trait, item) -> [inst]
        for f in F.fns:
            if f.get("trait"):
                self.trait_impl.setdefault((f["trait"], f["item"]), []).append(f["inst"])
        self.fninfo = {f["inst"]: f for f in F.fns}
        self.defs = {}
        for f in F.fns:
            self.defs.setdefault(f["def"], f["inst"])
        for i in self.local:
            self.edges[i] = self.out(i)

    def owner(self, i):
        d = self.F.insts[i]["def"]
        return self.fninfo.get(i) or self.F.fn_by_def.get(d)

    def drop_targets(self, ty, seen=None):
        """local Drop::drop instances run by dropping a value of the type"""
        F = self.F
        seen = seen if seen is not None else set()
        if ty is None or ty in seen:
            return
        seen.add(ty)
        t = F.types[ty]
        k = t["k"]
        if k == "adt":
            if t.get("drop") is not None and F.insts[t["drop"]].get("local"):
                yield t["drop"]
            if t.get("v"):
                for v in t["v"]:
                    for f in v:
                        yield from self.drop_targets(f, seen)
            else:
                for a in t["args"]:
                    if isinstance(a, int):
                        yield from self.drop_targets(a, seen)
        elif k in ("tuple", "closure"):
            for f in t["f"]:
                yield from self.drop_targets(f, seen)
        elif k in ("array", "slice"):
            yield from self.drop_targets(t["e"], seen)

    def out(self, i):
        F = self.F
        body = F.insts[i]["body"]
        res = set()
        bodies = [body] + list(F.insts[i].get("promoted") or [])
        for b in bodies:
            for bb in b["blocks"]:
                t = bb["t"]
                span = t[5] if t[0] == "call" else None
                for s in bb["s"] + [t]:
                    for c in rval_consts(s):
                        self.target(c.get("t"), res, span or (s[3] if s[0] == "=" else None), i,
                                    t[0] == "call" and s is t and t[1][0] == "k" and t[1][1] is c)
                    if s[0] == "=" and s[2] and s[2][0] == "agg":
                        pass
                if t[0] == "drop":
                    ty = self.place_ty(b, t[1])
                    for d in self.drop_targets(ty):
                        res.add((d, t[4], "drop"))
            for ty in b["locals"]:
                t = F.types[ty]
                if t["k"] in ("closure", "coroutine") and t.get("inst") is not None and t["inst"] != i:
                    res.add((t["inst"], F.insts[t["inst"]].get("span"), "closure"))
        return res

    def place_ty(self, body, pl):
        F = self.F
        ty = body["locals"][pl[0]]
        for e in pl[1]:
            t = F.types[ty]
            if e == "*":
                ty = t["e"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else None)
            elif isinstance(e, list) and e and e[0] == "f":
                ty = e[-1] if isinstance(e[-1], int) else None
            elif isinstance(e, list) and e and e[0] == "v":
                pass
            else:
                return None
            if ty is None:
                return None
        return ty

    def target(self, ty, res, span, caller, is_call):
        F = self.F
        if ty is None:
            return
        t = F.types[ty]
        if t["k"] == "closure" or t["k"] == "coroutine":
            if t.get("inst") is not None:
                res.add((t["inst"], span, "closure"))
            return
        if t["k"] != "fndef":
            return
        if t.get("inst") is not None:
            ins = F.insts[t["inst"]]
            if ins.get("local") and "body" in ins:
                res.add((t["inst"], span, "call"))
            elif "body" in ins:
                # through std: look one level through its callees for local code (closures are covered by types)
                self.through(t["inst"], res, span, set())
            return
        if t.get("next") is not None:
            self.target(t["next"], res, span, caller, False)
        if t.get("rk") in ("unresolved", "virtual") and t.get("trait"):
            own = self.owner(caller) or {}
            st = F.types[t["self"]] if t.get("self") is not None else None
            if own.get("trait") == t["trait"] and st is not None and st["k"] in ("param", "alias") \
                    and own.get("self") is not None and F.types[own["self"]]["k"] != "param":
                return      # descends into a component of the caller's own type
            for j in self.trait_impl.get((t["trait"], t["item"]), ()):
                res.add((j, span, "trait"))

    def through(self, i, res, span, seen):
        if i in seen:
            return
        seen.add(i)
        F = self.F
        for bb in F.insts[i]["body"]["blocks"]:
            t = bb["t"]
            for s in bb["s"] + [t]:
                for c in rval_consts(s):
                    ty = F.types[c["t"]] if c.get("t") is not None else None
                    if ty and ty["k"] == "fndef" and ty.get("inst") is not None:
                        ins = F.insts[ty["inst"]]
                        if ins.get("local") and "body" in ins:
                            res.add((ty["inst"], span, "call"))
                        elif "body" in ins:
                            self.through(ty["inst"], res, span, seen)

    def sccs(self):
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]

        def visit(v):
            work = [(v, iter(sorted({e[0] for e in self.edges.get(v, ())})))]
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                n, it = work[-1]
                for m in it:
                    if m not in index:
                        index[m] = low[m] = cnt[0]
                        cnt[0] += 1
                        st.append(m)
                        onst.add(m)
                        work.append((m, iter(sorted({e[0] for e in self.edges.get(m, ())}))))
                        break
                    elif m in onst:
                        low[n] = min(low[n], index[m])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == index[n]:
                        comp = []
                        while True:
                            x = st.pop()
                            onst.discard(x)
                            comp.append(x)
                            if x == n:
                                break
                        if len(comp) > 1 or any(e[0] == n for e in self.edges.get(n, ())):
                            out.append(comp)
        for v in self.local:
            if v not in index:
                visit(v)
        return out
