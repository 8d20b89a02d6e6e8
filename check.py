#!/usr/bin/env python3
"""usage: check.py <PROPERTY> [quick|thorough]   (exit 0 holds, 1 violation, 2 analysis could not be carried out)"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import core, ir

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import registry
    modname, fname, level, expl = registry.CHECKS[prop]
    rep = core.Report(prop, tier)
    try:
        getattr(importlib.import_module(modname), fname)(rep)
    except ir.AnalysisBroken as e:
        print(f"{prop}: analysis not possible: {e}")
        return 2
    except Exception as e:                    # an unexpected construct: nothing is concluded about it
        traceback.print_exc()
        rep.unk("analysis", "", f"internal: {type(e).__name__}: {e}")
    return core.finish(rep, level, expl)

if __name__ == "__main__":
    sys.exit(main())
