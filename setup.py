#!/usr/bin/env python3
"""Build the engine and every harness from the committed files (everything is cached by content; checks rebuild what changed)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks
try: vlib.build([checks.harness(n) for n in checks.HARNESS])
except vlib.BuildError as e: print("setup:", e)
