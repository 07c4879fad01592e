#!/usr/bin/env python3
"""run.py C01 .. C20: decide a property for /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
sys.dont_write_bytecode = True

import checks  # noqa: E402
import tool  # noqa: E402

if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            import types_
            os.unlink(tool.build(types_.corpus()))
        elif sys.argv[1] == "corrupt":
            import corrupt
            corrupt.install()
            checks.CHECKS[sys.argv[2]]()
        else:
            checks.CHECKS[sys.argv[1]]()
    except tool.ToolError as e:
        print("ERROR:", e, flush=True)
        sys.exit(2)
