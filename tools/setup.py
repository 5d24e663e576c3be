#!/usr/bin/env python3
"""build the engine once, so that a broken toolchain shows before any check"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
try:
    build.engine(True)
    build.engine(False)
except build.BuildError as e:
    sys.exit("build failed: %s" % e)
print("built")
