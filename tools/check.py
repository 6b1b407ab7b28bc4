#!/usr/bin/env python3
"""check.py <property>: decides one property; see DESIGN.md."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from swc import common, checks  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        chk = common.Check(prop)
        checks.CHECKS[prop](chk)
        sys.exit(chk.finish())
    except common.ToolError as e:
        print("ERROR property=%s %s" % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
