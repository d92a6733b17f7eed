#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if pid not in checks.CHECKS:
        print("unknown property", pid)
        return 2
    c = None
    try:
        vlib.build_harness(cli=pid in checks.NEEDS_CLI, plain=pid in checks.NEEDS_PLAIN)
        c = vlib.Check(pid, tier, seed)
        checks.CHECKS[pid](c)
        return c.finish()
    except vlib.ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
