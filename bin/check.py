#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
sys.argv = [sys.argv[0]] + sys.argv[2:]
import vlib, importlib
for m in ("props_expr", "props_syntax", "props_ct", "props_poly", "props_num", "props_py"):
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError:
        continue
    if hasattr(mod, prop):
        vlib.main(prop, getattr(mod, prop))
print("unknown property", prop)
sys.exit(2)
