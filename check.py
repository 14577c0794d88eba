#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current tree.

Rebuilds the harness against /repo, checks the specification's own model with TLC, has the real code execute
generated schedules, and has TLC decide whether every recorded execution is a behaviour of the specification.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.

  VERIF_SEED, VERIF_TIER (quick | thorough)
  check.py <id> --replay FILE   runs the schedule of a replay file again and validates it
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import engine, parts

def main():
    pid = sys.argv[1]
    run = engine.Run(pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            engine.build(run)
            return parts.replay(run, sys.argv[3])
        engine.build(run)
        engine.execute(run, parts.PLAN[pid])
        return run.finish()
    except engine.Violation as v:
        return run.violation(v)
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
