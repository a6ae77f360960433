"""Compiles the Java override and the extension modules of the current tree into .cache (both are redone on demand)."""
import vlib
try:
    vlib.classes()
    vlib.build()
except vlib.MachineryError as x:
    print('setup: %s' % x)
