#!/usr/bin/env python3
"""Builds everything that does not depend on /repo, and warms the rest."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
t = time.time()
vlib.ensure_base(native=True)
vlib.ensure_repo_bc()
vlib.ensure_native_repo("asan")
print("setup done in %.0f s" % (time.time() - t))
