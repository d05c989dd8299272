#!/usr/bin/env python3
"""run.py <property> quick|thorough            run a check
   run.py <property> replay <file>             replay one saved case
   run.py setup                                build everything the checks use"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

def main():
    import build, engine
    if sys.argv[1] == "setup":
        import setup_all
        return setup_all.main()
    pid, tier = sys.argv[1].upper(), sys.argv[2]
    mod = "props." + pid.lower()
    try:
        if tier == "replay": return engine.replay(mod, sys.argv[3])
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return engine.main(mod, tier, seed)
    except build.BuildError as e:
        print("build failed:\n%s" % e); return 2

sys.exit(main())
