#!/usr/bin/env python3
"""Warm the build directories (optional: every check builds what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_java()
vlib.build_all("disc")
print("ready")
