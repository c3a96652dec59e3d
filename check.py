#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decide one property on /repo's working tree."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import common

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(common.main(prop, mod.run))
