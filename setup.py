#!/usr/bin/env python3
"""Builds the compiler wrapper (offline); every check rebuilds it if it is missing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vx import arena, build, selftest
arena.install()
print(build.driver())
print("oracle agrees with hashlib on %d hashes" % selftest.run())
