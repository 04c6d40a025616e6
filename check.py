#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current working tree"""
import os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from symx import runner
if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1]))
