#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
import checks

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.exit(vlib.run(prop, tier, seed, checks.CHECKS[prop]))
