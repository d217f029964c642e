#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] | run.py ID --replay FILE"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def main():
    pid = sys.argv[1]
    from vlib import core
    check = importlib.import_module("vlib.checks." + pid.lower()).CHECK
    if "--replay" in sys.argv:
        return core.replay(check, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return core.run_check(check, tier, seed)

if __name__ == "__main__":
    sys.exit(main())
