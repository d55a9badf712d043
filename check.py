#!/usr/bin/env python3
"""check.py <property id> [...]: decides the properties on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks

def main(ids):
    worst = 0
    for i in ids:
        c = vlib.Check(i)
        try:
            rc = getattr(checks, i)(c)
        except Exception as e:
            # A violation already established stands, whatever happened later (a driver that
            # died inside a call leaves a record that cannot be read, for instance).
            if c.violations:
                c.notes.append("incomplete: %s" % e)
                rc = c.finish()
            else:
                print("%s: check not carried out: %s" % (i, e), file=sys.stderr)
                if not isinstance(e, vlib.ToolError):
                    traceback.print_exc()
                rc = 2
        worst = max(worst, rc)
    return worst

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
