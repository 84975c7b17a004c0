"""C04: see ll.wire for the obligations, wirecat for the method shapes."""
from . import wireprop


def run(ctx):
    return wireprop.run(ctx, "C04", "For every generated skeleton (C, C++, Rust), every path of its LLVM IR under unconstrained op, counts and sizes: the implementation is reached only with the method's op, counts and fixed sizes established on the path; other paths return a non-zero status, write nothing, and leave the object's state (lock, count) as it was; absent optional methods answer 2; no access leaves the argument slots or the buffer extents established on the path.")
