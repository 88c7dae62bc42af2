#!/usr/bin/env python3
"""Builds what the checks need (each check rebuilds what is missing or stale)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib                                                                 # noqa: E402

os.makedirs(vlib.BUILD, exist_ok=True)
vlib.build_classes()
vlib.build_driver("driver")
vlib.build_driver("geo")
vlib.build_driver("hash")
print("ready")
