#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import Check, ToolError
import checks


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else None
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else None
    c = Check(pid, tier, seed)
    try:
        checks.CHECKS[pid](c)
        sys.exit(c.finish())
    except ToolError as e:
        print(f"TOOL ERROR ({pid}): {e}", file=sys.stderr)
        if c.violations:
            sys.exit(c.finish())
        c.cleanup()
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        c.cleanup()
        sys.exit(2)


main()
