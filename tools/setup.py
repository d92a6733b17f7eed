#!/usr/bin/env python3
"""setup_cmd: build the harness and the command line tool from /repo, and parse
every specification."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib
vlib.build_harness(cli=True, plain=True)
print("harness built")
