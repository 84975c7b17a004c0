"""C07: see ll.wire for the obligations on stubs and skeletons, numbers for the emitted constants."""
from idlv.core import parallel
from idlv.idl import *
from idlv.run import compile_
from . import numbers, wireprop
from . import wirecat as W


def want(sp, iface):
    out = []
    for i, m, op in sp.ops(iface):
        s = {"java": (iface, f"{iface}_OP_{m.name}"),
             "cpp": (f"Pr_{iface}_{m.name}::v", f"struct Pr_{iface}_{m.name} : I{iface} {{ static constexpr ObjectOp v = OP_{m.name}; }};")}
        if i.name == iface:
            s["c"] = f"{iface}_OP_{m.name}"
        out.append((m.name, op, s))
    return out


LIMIT = 0x4000


def limits(ctx):
    """an interface with 2^14 methods is fine, with one more it is refused"""
    F = W.FRONT
    F.I.step_limit = 200_000_000
    ms = lambda a, b: [Method(f"m{i}") for i in range(a, b)]
    one = lambda n: File([Iface("IA", ms(0, n))])
    two = lambda k, n: File([Iface("IA", ms(0, k)), Iface("IB", ms(k, n), "IA")])
    cases = [("2^14 methods", one(LIMIT), True, "c"), ("2^14 + 1 methods", one(LIMIT + 1), False, "c"), ("2^14 + 1, one inherited", two(1, LIMIT + 1), False, "c"), ("2^14 + 1, one own", two(LIMIT, LIMIT + 1), False, "rust")]
    if ctx.thorough:
        cases += [(f"2^14 + {x} [{b}]", one(LIMIT + x), x == 0, b) for x in (0, 1, 2, 100) for b in ("c", "c_skel", "cpp", "cpp_skel", "rust")]
        cases += [("2^14, split", two(LIMIT // 2, LIMIT), True, "c"), ("2^14 + 1, split", two(LIMIT // 2, LIMIT + 1), False, "cpp_skel")]

    def job(c):
        key, f, ok, b = c
        r = compile_(F, {"/w/a.idl": f}, b)
        rule = "op-codes up to 0x3FFF"
        if r.uns:
            return [("und", rule, key, r.why())]
        if (r.accepted if ok else r.rejected):
            return [("ok", rule)]
        return [("bad", rule, key, "refused: " + r.why() if ok else "accepted")]
    return parallel(cases, job)


def run(ctx):
    return wireprop.run(ctx, "C07", "Op-code of every invocation a generated C, C++ or Rust stub issues and the methods every generated skeleton dispatches each op-code to (all paths of the LLVM IR; inheritance chains with methods, errors and constants "
                        "interleaved, optional methods, the limit of 2^14 methods, empty levels, siblings, several files), the op-code constants of C, C++ and Java, as folded by the front ends of the languages, all against the position in the flattened interface.",
                        extra=lambda ctx: limits(ctx) + numbers.probes(W.FRONT, want, ctx.thorough))
