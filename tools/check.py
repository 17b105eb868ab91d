#!/usr/bin/env python3
"""check.py Pxx [--thorough]: decide one property on the current working tree of /repo."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
import vlib
mod = importlib.import_module(pid.lower())
vlib.main(mod.run, pid, getattr(mod, "LEVEL", "model_checking"))
