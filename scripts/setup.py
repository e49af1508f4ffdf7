#!/usr/bin/env python3
"""Build the IR dumper and the IR of the current tree (cached; every check rebuilds what has changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir
ir.tool()
for c in ir.CFG: ir.load_lib(c)
print('setup ok')
