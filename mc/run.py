"""run.py <property> [quick|thorough]: one check.  Exit 0: held on everything explored; 1: VIOLATION."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from mc import core

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(prop, tier))
