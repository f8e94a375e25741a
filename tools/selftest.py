#!/usr/bin/env python3
"""setup: confirms that the tools the checks rely on are present (nothing is built or kept)."""
import os, sys, subprocess, ctypes
for p in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/g++"):
    assert os.path.exists(p), p
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import llvm, terms, vgraph, core
bc, err = core.compile_ir("selftest", 'extern "C" void w_x(double a, double* o) { o[0] = a + a; }')
assert bc, err
m = llvm.Module(bc)
m.run("always-inline,default<O2>")
g = vgraph.VG(m, m.function("w_x"), {0: "a", 1: "o"}).run()
print("selftest ok")
