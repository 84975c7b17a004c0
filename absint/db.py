"""MIR database."""
import gc
import json


class DB:
    def __init__(self, path):
        gc.disable()
        with open(path) as f:
            d = json.load(f)
        gc.enable()
        self.path = path
        self.overflow_checks = True
        self.types = d["types"]
        # the type of a Result a library model returns, always types[-1]
        self.types.append({"k": "adt", "name": "core::result::Result", "s": "Result", "args": [], "akind": "enum",
                           "variants": [{"name": "Ok", "d": 0, "fields": []}, {"name": "Err", "d": 1, "fields": []}]})
        self.has_drop = any("drop" in t for t in self.types)
        self._droppy = {}
        self.insts = d["insts"]
        self.statics = d["statics"]
        self.caps = {i: c for i, c in d["caps"]}
        self.vt = {}
        for a, b, es in d["vtables"]:
            self.vt.setdefault(a, []).append((b, es))
        self.roots = d["roots"]
        self.by_name = {}
        for k, m in self.insts.items():
            m["key"] = k
            self.by_name.setdefault(m["name"], []).append(k)
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t["s"], i)
        self.adt = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self.adt.setdefault(t["name"], []).append(i)

    def droppy(self, t):
        """does dropping a value of this type run an impl of Drop of the workspace?"""
        if not self.has_drop:
            return False
        r = self._droppy.get(t)
        if r is None:
            self._droppy[t] = False
            k = self.types[t]
            kk = k["k"]
            if kk == "adt":
                r = "drop" in k or k["name"] not in ("core::mem::manually_drop::ManuallyDrop",) and (
                    any(self.droppy(f["t"]) for v in k.get("variants", ()) for f in v["fields"]) or
                    k["name"].split("::")[0] in ("core", "alloc", "std") and any(self.droppy(x) for x in k["args"]))
            elif kk in ("tuple", "closure"):
                r = any(self.droppy(x) for x in k.get("ts", ()))
            elif kk in ("array", "slice"):
                r = self.droppy(k["t"])
            else:
                r = kk == "dyn"
            self._droppy[t] = r
        return r

    def ty(self, s):
        return self.tyname[s]

    def methods(self, self_path=None, trait=None, item=None, crate=None):
        for k, m in self.insts.items():
            if self_path is not None and m.get("self") != self_path:
                continue
            if trait is not None and m.get("trait") != trait:
                continue
            if item is not None and m.get("item") != item:
                continue
            if crate is not None and m.get("crate") != crate:
                continue
            yield k, m
