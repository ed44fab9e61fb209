#!/usr/bin/env python3
"""Build the drivers once, so that checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
for k in ("", "nightly", "wide", "plain", "tiny"):
    lib.build(k)
