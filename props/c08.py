"""C08: error numbering, read off the constants of the generated code by the front ends of the target languages."""
from idlv.run import *
from . import numbers


def want(sp, iface):
    out = []
    for i, e, v in sp.errs(iface):
        s = {"c": f"{iface}_{e.name}", "cpp": f"I{iface}::{e.name}", "java": (iface, f"{iface}_{e.name.upper()}")}
        if i.name == iface:
            s["rust"] = (f"unsafe {{ core::mem::transmute::<_, i32>(interfaces::{iface.lower()}::{e.name.upper()}) }}", "i32")
        out.append((e.name, v, s))
    return out


def run(ctx):
    F = load()
    ctx.merge(numbers.probes(F, want, ctx.thorough))
    cleanup(F)
    return ctx.finish("Interface chains of depth 1 to 20 with errors interleaved with methods and constants in four orders, split over files, with siblings and unrelated interfaces around: the value of every error, own and inherited, "
                      "in the C macro, the C++ static, the Rust constant and the Java field, as folded by the front ends of the languages, equals 10 + its position in the flattened interface.")
