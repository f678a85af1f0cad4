#!/usr/bin/env python3
"""run.py <property>: decides one property of /repo's current working tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, checks, core

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        sys.exit(checks.run(pid))
    except (core.ModelError, build.BuildError) as e:
        print(f"{pid}: the check itself failed: {e}", file=sys.stderr)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
