"""Builds everything the checks need (each check does so itself as well) and parses every specification."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
print(vlib.build_cli())
if os.path.exists(os.path.join(vlib.ROOT, "harness", "src", "main.rs")):
    print(vlib.build_harness())
if os.path.exists(os.path.join(vlib.ROOT, "shim", "shim.c")):
    print(vlib.build_shim())
