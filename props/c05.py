"""C05: see ll.wire for the obligations, wirecat for the method shapes."""
from . import wireprop


def run(ctx):
    return wireprop.run(ctx, "C05", "For every method shape that moves objects: net retain/release effect on every object of every path of the generated stub and skeleton (including the C++ and Rust runtime's destructors, clones and moves) in LLVM IR, and adoption of outputs only on success.")
