#!/usr/bin/env python3
"""build the engine and warm the content-hashed bitcode cache"""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "engine"))
sys.path.insert(0, H)
import bsym
from props import PROPS
bsym.setup()
hs = sorted({r["h"] for p in PROPS.values() for r in p["runs"]})
try:
    bsym.prewarm(hs)
except bsym.BuildError as e:  # a check reports this itself
    print(e)
print("engine ready,", len(hs), "harnesses")
