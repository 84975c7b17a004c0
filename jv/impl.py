"""A user's implementation of a generated Java interface."""
JT = {"uint8": "byte", "int8": "byte", "uint16": "char", "int16": "char", "uint32": "int", "int32": "int", "uint64": "long", "int64": "long",
      "float32": "float", "float64": "double", "buffer": "byte", "interface": "IMinkObject"}


def params(sp, m):
    """[(type, name, parameter, role)]"""
    out = []
    for p in m.params:
        k = sp.kind(p)
        t = JT.get(p.ty) or ("IMinkObject" if p.ty in sp.ifaces else p.ty)
        n = "p_" + p.name
        if k == "fixed" or k == "obj":
            out.append((t if p.dir == "in" else t + "[]", n, p, "val"))
        elif k == "objs" or k in ("arr", "buf"):
            if p.dir == "in":
                out.append((t + "[]", n, p, "val"))
            else:
                out.append((t + "[][]", n, p, "val"))
                out.append(("int", "len_" + n, p, "len"))
    return out


def java_impl(sp, iface, cls, provide=True):
    s = ["package com.qualcomm.qti.mink;", "import com.qualcomm.qti.qms.api.mink.IMinkObject;", f"public class {cls} implements {iface} {{"]
    for _, m, op in sp.ops(iface):
        if m.optional and not provide:
            continue
        a = ", ".join(f"{t} {n}" for t, n, _, _ in params(sp, m))
        s.append(f"    @Override public void {m.name}({a}) throws IMinkObject.InvokeException {{ }}")
    s.append(f"    static IMinkObject make() {{ return new {iface}.MinkObject(new {cls}()); }}")
    s.append(f"    static {iface} proxy(IMinkObject o) {{ return new {iface}.Proxy(o); }}")
    s.append("}")
    return "\n".join(s) + "\n"
