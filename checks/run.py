#!/usr/bin/env python3
"""run.py <property>: decide one property on the current tree of /repo (see ../DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, report, engines

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: vp.TIER = sys.argv[2]
    try:
        vp.prune_cache()
        c = report.Check(pid, engines.LEVEL.get(pid, "model_checking"))
        err = None
        for e in engines.PLAN[pid]:
            try: e(c)
            except vp.ToolError as x: err = err or x      # the other engines still answer
        if err and not c.viol: raise err
        if err: c.notes.append("an engine failed: " + str(err)[:500])
        rc = c.finish()
    except vp.ToolError as e:
        print("ERROR (tool) %s: %s" % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
main()
