#!/usr/bin/env python3
"""Nothing to install: see that the tools are there and that the harness builds."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base
try:
    base.build_bin("tt")
except base.NoBuild as e:
    print(e.log[-2000:])
sys.exit(0)
