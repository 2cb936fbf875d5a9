"""replay.py FILE: run again, alone and without the explorer's worker pool, the task that failed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from mc import core

    r = json.load(open(sys.argv[1]))
    core.prepare(r["property"])
    try:
        res = core.run_task(r["module"], r["task"], r["kwargs"])
    finally:
        core.cleanup()
    for v in res["violations"]:
        print("VIOLATED:", v["what"])
        print(json.dumps(v["detail"], indent=1))
    print("reproduced" if res["violations"] else "not reproduced")
    sys.exit(1 if res["violations"] else 0)
