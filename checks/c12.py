"""C12: texts shorter than a key."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import keycheck, vlib

vlib.main("C12", lambda c: keycheck.run(c, lambda x: x["n"] < 52, 500))
