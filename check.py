#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's working tree (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = checks.CHECKS[prop]
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        c["run"](ctx)
        return ctx.finish(c["level"], c.get("assumptions", ()))
    except vlib.ToolError as e:
        if ctx.failures:  # what was found before the tool failed stands
            return ctx.finish(c["level"], c.get("assumptions", ()))
        print(f"TOOL ERROR ({prop}): {e}", file=sys.stderr)
        return 2
    except Exception:
        if ctx.failures:
            traceback.print_exc()
            return ctx.finish(c["level"], c.get("assumptions", ()))
        traceback.print_exc()
        return 2


sys.exit(main())
