#!/usr/bin/env python3
"""python3 run.py <property id>: runs one check (VERIF_TIER, VERIF_SEED)."""
import importlib.util
import os
import sys

if "PYTHONHASHSEED" not in os.environ:  # the same run every time
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.path.insert(1, os.path.join(here, "checks"))
sys.dont_write_bytecode = True
import common  # noqa: E402

pid = sys.argv[1]
spec = importlib.util.spec_from_file_location("chk_" + pid, os.path.join(here, "checks", pid + ".py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
common.main(pid, mod.run)
