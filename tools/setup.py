#!/usr/bin/env python3
"""Builds the executor and the harnesses once, to see that everything is there."""
import os, sys
sys.argv = [sys.argv[0]]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
os.makedirs(check.BUILD, exist_ok=True)
print(check.build_engine())
for f in sorted({s["features"] for s in check.SPECS.values()} - {"typescript"}):
    print(check.build_wasm(f))
