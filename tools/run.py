#!/usr/bin/env python3
"""One check: tools/run.py <property>.  Exit 0 held, 1 violated (VIOLATION line), 2 tool error."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, checks

if __name__ == "__main__":
    prop = sys.argv[1]
    c = vp.Ctx(prop)
    rc = 2
    try:
        getattr(checks, prop)(c)
        rc = vp.finish(c)
    except vp.ToolError as e:
        print("ERROR: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get("VP_KEEP"):
            print("kept " + c.dir)
        else:
            c.close()
    sys.exit(rc)
