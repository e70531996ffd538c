#!/usr/bin/env python3-vt
"""setup: everything needed is installed; check that the tools answer."""
import shutil
import sys
import z3
for t in ("clang++-18", "opt-18", "llvm-link-18", "c++filt"):
    if not shutil.which(t):
        sys.exit("missing " + t)
x = z3.BitVec("x", 64)
s = z3.Solver()
s.add(x * 2 != x + x)
assert str(s.check()) == "unsat"
print("tools present")
