#!/usr/bin/env python3
"""Development: build one harness (first variant) to DIR/h.sym and DIR/h.rep."""
import sys, os, importlib.util
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("vp", here + "/vp.py")
vp = importlib.util.module_from_spec(spec)
spec.loader.exec_module(vp)
h = vp.load(sys.argv[1])[0]
os.makedirs(sys.argv[2], exist_ok=True)
vp.build_sym(h, None, sys.argv[2])
vp.build_rep(h, None, sys.argv[2])
print(h.sym, h.rep)
