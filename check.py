#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current sources."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint.interp import run_big_stack      # noqa: E402
from idlv.core import Ctx                    # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("props." + prop.lower())
    ctx = Ctx(prop)

    def body():
        try:
            return mod.run(ctx)
        except Exception:
            # the analysis itself gave up: nothing is claimed beyond what was decided so far
            tb = traceback.format_exc()
            print(tb)
            ctx.undecided("analysis", "the check ended early", tb[-1500:])
            return ctx.finish("the analysis ended early: " + tb.strip().splitlines()[-1][:300])
    return run_big_stack(body)


if __name__ == "__main__":
    sys.exit(main())
