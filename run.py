#!/usr/bin/env python3
"""run.py ID: the check of one property (VERIF_TIER=quick or thorough)."""
import importlib.util
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", pid, "check.py")
spec = importlib.util.spec_from_file_location("check_" + pid, path)
m = importlib.util.module_from_spec(spec)
sys.modules["check_" + pid] = m
spec.loader.exec_module(m)
from vlib import check

check.main(pid, m.run, getattr(m, "LEVEL", "model_checking"))
