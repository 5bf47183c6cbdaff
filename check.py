#!/usr/bin/env python3
"""Runs the static check of one property against /repo's current tree."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from fa import build, report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    ctx = report.Ctx(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module("fa.rules." + a.property.lower())
    ctx.rule = (mod.__doc__ or "").strip()
    try:
        mod.run(ctx)
    except build.BuildError as e:
        # The tree (or a client using the documented API) does not compile.
        print(str(e)[-4000:])
        if getattr(mod, "BUILD_FAILURE_IS_VIOLATION", False):
            ctx.violate("build", "a client of the documented interface no longer compiles")
        else:
            print("ERROR: cannot build the program to analyse")
            return 2
    return report.finish(ctx)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
