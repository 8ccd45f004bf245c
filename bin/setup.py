#!/usr/bin/env python3
"""Builds the symbolic executor and warms the harness crate's dependency build."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["setup"]
sys.path.insert(0, os.path.join(V, "bin"))
import check, props
exe, obj = check.ensure_rsx()
check.build("h", "c01", obj); check.build("hw", "c25", obj)
print("setup done")
