"""Abstract IDL shapes, their text, and the specification computed from them.

Nothing here looks at the compiler: this module is the oracle (what the properties say the envelope,
the layout, the op-codes ... must be)."""
from dataclasses import dataclass, field
from typing import Optional

PRIM = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int8": 1, "int16": 2, "int32": 4, "int64": 8,
        "float32": 4, "float64": 8}
OBJ_SIZE = 16
BUNDLE_MAX = 16


@dataclass
class Param:
    dir: str
    ty: str
    name: str
    arr: object = None       # None | "" | int

    def text(self):
        a = "" if self.arr is None else f"[{self.arr}]"
        return f"{self.dir} {self.ty}{a} {self.name}"


@dataclass
class Method:
    name: str
    params: list = field(default_factory=list)
    optional: bool = False
    doc: Optional[str] = None

    def text(self, ind="  "):
        s = ""
        if self.doc is not None:
            s += f"{ind}/**\n{self.doc}*/\n"
        if self.optional:
            s += f"{ind}#[optional]\n"
        return s + f"{ind}method {self.name}({', '.join(p.text() for p in self.params)});\n"


@dataclass
class Const:
    ty: str
    name: str
    value: str

    def text(self, ind=""):
        return f"{ind}const {self.ty} {self.name} = {self.value};\n"


@dataclass
class Error:
    name: str

    def text(self, ind="  "):
        return f"{ind}error {self.name};\n"


@dataclass
class Field:
    ty: str
    name: str
    n: Optional[int] = None

    def text(self):
        a = "" if self.n is None else f"[{self.n}]"
        return f"  {self.ty}{a} {self.name};\n"


@dataclass
class Struct:
    name: str
    fields: list

    def text(self):
        return f"struct {self.name} {{\n" + "".join(f.text() for f in self.fields) + "};\n"


@dataclass
class Iface:
    name: str
    nodes: list = field(default_factory=list)
    base: Optional[str] = None

    def text(self):
        b = f" : {self.base}" if self.base else ""
        return f"interface {self.name}{b} {{\n" + "".join(n.text("  ") for n in self.nodes) + "};\n"

    @property
    def methods(self):
        return [n for n in self.nodes if isinstance(n, Method)]

    @property
    def errors(self):
        return [n for n in self.nodes if isinstance(n, Error)]

    @property
    def consts(self):
        return [n for n in self.nodes if isinstance(n, Const)]


@dataclass
class File:
    decls: list = field(default_factory=list)
    includes: list = field(default_factory=list)

    def text(self):
        return "".join(f'include "{i}"\n' for i in self.includes) + "".join(d.text() for d in self.decls)


class Spec:
    """Declarations visible in a file set."""

    def __init__(self, *files):
        self.structs = {}
        self.ifaces = {}
        for f in files:
            for d in f.decls:
                if isinstance(d, Struct):
                    self.structs[d.name] = d
                elif isinstance(d, Iface):
                    self.ifaces[d.name] = d

    # ---- layout -----------------------------------------------------------
    def is_obj(self, ty):
        return ty == "interface" or ty in self.ifaces

    def align(self, ty):
        if ty in PRIM:
            return PRIM[ty]
        if self.is_obj(ty):
            return 8
        return max(self.align(f.ty) for f in self.structs[ty].fields)

    def size(self, ty):
        if ty in PRIM:
            return PRIM[ty]
        if self.is_obj(ty):
            return OBJ_SIZE
        return sum(self.size(f.ty) * (f.n or 1) for f in self.structs[ty].fields)

    def layout_ok(self, ty):
        """natural layout without padding"""
        off = 0
        for f in self.structs[ty].fields:
            if f.ty in self.structs and not self.layout_ok(f.ty):
                return False
            if off % self.align(f.ty):
                return False
            off += self.size(f.ty) * (f.n or 1)
        return off % self.align(ty) == 0

    def objects(self, ty, base=0):
        """(offset, interface type) of every object, in the order in which they travel: level by level, fields in
        declaration order, elements of arrays in index order"""
        if self.is_obj(ty):
            return [(base, ty)]
        out = []
        queue = [(ty, base)] if ty in self.structs else []
        while queue:
            t, off = queue.pop(0)
            for f in self.structs[t].fields:
                sz = self.size(f.ty)
                for _ in range(f.n or 1):
                    if self.is_obj(f.ty):
                        out.append((off, f.ty))
                    elif f.ty in self.structs:
                        queue.append((f.ty, off))
                    off += sz
        return out

    def leaves(self, ty, base=0):
        """(offset, size, kind) of every scalar"""
        if self.is_obj(ty):
            return [(base, OBJ_SIZE, "obj")]
        if ty in PRIM:
            return [(base, PRIM[ty], ty)]
        out = []
        off = base
        for f in self.structs[ty].fields:
            sz = self.size(f.ty)
            for i in range(f.n or 1):
                out += self.leaves(f.ty, off)
                off += sz
        return out

    # ---- flattened interface ------------------------------------------------
    def chain(self, name):
        i = self.ifaces[name]
        return (self.chain(i.base) if i.base else []) + [i]

    def ops(self, name):
        """[(interface, method, op)] in op order"""
        out = []
        for i in self.chain(name):
            for m in i.methods:
                out.append((i, m, len(out)))
        return out

    def errs(self, name):
        out = []
        for i in self.chain(name):
            for e in i.errors:
                out.append((i, e, 10 + len(out)))
        return out

    def consts(self, name):
        return [(i, c) for i in self.chain(name) for c in i.consts]

    # ---- wire envelope -----------------------------------------------------
    def kind(self, p):
        if p.ty == "buffer":
            return "buf"
        if self.is_obj(p.ty):
            return "obj" if p.arr is None else "objs"
        if p.arr is None:
            return "fixed"
        if p.arr == "":
            return "arr"
        return "badarr"

    def small(self, p):
        """takes part in bundling: fixed-size data of at most 16 bytes (a struct that holds objects is not just data)"""
        return self.kind(p) == "fixed" and self.size(p.ty) <= BUNDLE_MAX and not self.objects(p.ty)

    def envelope(self, m):
        """slots: list of dict(cls=BI|BO|OI|OO, kind=..., ...)"""
        slots = {"BI": [], "BO": [], "OI": [], "OO": []}
        for d, cls, ocls in (("in", "BI", "OI"), ("out", "BO", "OO")):
            ps = [p for p in m.params if p.dir == d]
            sm = [p for p in ps if self.small(p)]
            bundled = len(sm) >= 2
            if bundled:
                mem = sorted(sm, key=lambda p: -self.size(p.ty))
                off = 0
                lay = []
                for p in mem:
                    lay.append((p, off))
                    off += self.size(p.ty)
                slots[cls].append({"cls": cls, "kind": "bundle", "members": lay, "size": off})
            for p in ps:
                k = self.kind(p)
                if k == "buf":
                    slots[cls].append({"cls": cls, "kind": "arr", "p": p, "esz": 1})
                elif k == "arr":
                    slots[cls].append({"cls": cls, "kind": "arr", "p": p, "esz": self.size(p.ty)})
                elif k == "fixed":
                    if not (bundled and self.small(p)):
                        slots[cls].append({"cls": cls, "kind": "fixed", "p": p, "size": self.size(p.ty)})
                    for off, ty in (self.objects(p.ty)):
                        slots[ocls].append({"cls": ocls, "kind": "field", "p": p, "off": off, "ty": ty})
                elif k == "obj":
                    slots[ocls].append({"cls": ocls, "kind": "obj", "p": p})
                elif k == "objs":
                    for i in range(p.arr):
                        slots[ocls].append({"cls": ocls, "kind": "objel", "p": p, "i": i})
        return slots

    def counts(self, m):
        e = self.envelope(m)
        return tuple(len(e[c]) for c in ("BI", "BO", "OI", "OO"))

    def expressible(self, m):
        return all(c <= 15 for c in self.counts(m))


def pack(c):
    return c[0] | c[1] << 4 | c[2] << 8 | c[3] << 12
