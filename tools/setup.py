#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what changed)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
for name, cfg in PROPS.items():
    try:
        B.build_harness(name.lower(), cfg["srcs"], cfg["groups"], cfg.get("extra", ()), cfg.get("link", ()), cfg.get("san"))
    except B.BuildError as e:
        print(e)
        sys.exit(1)
print("built", len(PROPS), "harnesses")
