#!/usr/bin/env python3-vt
"""Checks that everything the checks need is present (nothing to build: each check builds from /repo's tree)."""
import os, shutil, sys
import z3
for t in ("clang++-18", "g++", "cvc5", "/usr/lib/llvm-18/bin/llvm-link"):
    if not (shutil.which(t) or os.path.exists(t)): sys.exit("missing " + t)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import llir
llir.lib()
print("ok: z3", z3.get_version_string())
