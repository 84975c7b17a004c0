"""C03: see ll.wire for the obligations, wirecat for the method shapes."""
from . import wireprop


def run(ctx):
    return wireprop.run(ctx, "C03", "For every method shape: the bytes and size of every buffer each generated stub passes, and what each generated skeleton reads, accepts and writes back, on every path of the LLVM IR, against the bundling rule (largest first, stable, unpadded, exact size; discrete buffers of count x size; blank object fields).")
