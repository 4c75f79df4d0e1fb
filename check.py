#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import core
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(core.main(mod.CHECK, sys.argv[2:]))
