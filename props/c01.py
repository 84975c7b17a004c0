"""C01: see ll.wire for the obligations, wirecat for the method shapes."""
from . import wireprop


def run(ctx):
    return wireprop.run(ctx, "C01", "Every method shape of the catalogue, own and inherited, and both sides of it: the client stub and the skeleton that the compiler generates for C, C++ and Rust (computed by abstract interpretation of the compiler's MIR) are lowered to LLVM IR and all their paths analysed by a symbolic value-flow analysis. Every argument byte has to reach its slot of the canonical envelope unchanged and every slot byte the implementation; outputs, lengths and status the way back. Both halves are anchored to the same envelope, so all nine pairings compose.")
