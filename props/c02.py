"""C02: see ll.wire for the obligations, wirecat for the method shapes."""
from . import wireprop
from .c02x import beyond_limits


def run(ctx):
    return wireprop.run(ctx, "C02", "For every method shape: op-code, packed counts and the class of every slot of the ObjectArg array each generated stub (C, C++, Rust) passes to invoke, on every path of its LLVM IR; the counts, op and slots each generated skeleton requires before it calls the implementation; and rejection, by every back end, of methods beyond 15 arguments of one class.", extra=beyond_limits)
