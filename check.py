#!/usr/bin/env python3-vt
"""check.py <property id>: decides one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import driver
mod = importlib.import_module("checks." + sys.argv[1])
sys.exit(driver.main(mod.CHECK))
