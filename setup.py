#!/usr/bin/env python3
"""Builds the symbolic executor and warms the dependency builds (checks also build what they miss)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/lib")
import pipeline as P
os.makedirs(P.B, exist_ok=True)
P.build_engine()
print("ok")
