#!/usr/bin/env python
"""run.py <PROPERTY> [--replay FILE] : execute the monitors of one property against /repo."""
import os, sys, pathlib
os.environ.setdefault("MPLBACKEND", "Agg")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
sys.path.insert(0, "/repo/src")
import importlib
from gm import core
prop = sys.argv[1]
mod = importlib.import_module(f"gm.checks.{prop.lower()}")
sys.exit(core.main(mod, sys.argv[2:]))
