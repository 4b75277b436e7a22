#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vfengine

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return vfengine.replay(sys.argv[2])
    from checks import P
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return vfengine.run_property(prop, P[prop], tier, seed)

if __name__ == "__main__":
    sys.exit(main())
