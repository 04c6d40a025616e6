#!/usr/bin/env python3-vt
"""checks that the tools are there and warms the build cache (each check builds what it needs by itself)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from symx import build, harness
build.fortran_dumps(); build.fortran_release()
for d in (2, 3): print("%dd: %d routines" % (d, len(harness.program(d).funcs)))
