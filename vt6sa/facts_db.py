"""Loading of the facts exported by the driver."""
import json


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.insts = d["insts"]
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.items = d["items"]
        self.crates = d["crates"]
        self.features = d["features"]
        self.by_def = {}
        for i, x in enumerate(self.insts):
            x["id"] = i
            self.by_def.setdefault(x["def"], []).append(i)
        self.fn_by_def = {}
        for f in self.fns:
            self.fn_by_def.setdefault(f["def"], f)
        self.root_insts = {f["inst"]: f for f in self.fns}
        self._heads = {}

    def ty(self, i):
        return self.types[i]

    def head(self, i):
        """short, substitution independent name of a type's head"""
        h = self._heads.get(i)
        if h is not None:
            return h
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            h = t["def"]
        elif k in ("ref", "ptr"):
            h = "&" + self.head(t["e"])
        elif k == "slice":
            h = "[" + self.head(t["e"]) + "]"
        elif k == "array":
            h = "[" + self.head(t["e"]) + ";N]"
        elif k == "int":
            h = t["s"]
        else:
            h = k
        self._heads[i] = h
        return h

    def fn(self, name):
        """the function with exactly this name, or None"""
        return self.fn_by_def.get(name)

    def find_fns(self, pred):
        return [f for f in self.fns if pred(f)]

    def impl_fns(self, trait, item):
        """all implementations of a trait method in this crate"""
        return [f for f in self.fns if f.get("trait") == trait and f["item"] == item and not f.get("default")]
