#!/usr/bin/env python3
"""Builds the framework once (every check also builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, stage
b, log = build.harness()
if b is None:
    print(log[-4000:])
ok, log2 = stage.setup()
if not ok:
    print(log2[-2000:])
build.wasm("apis")
build.wasm("compiler")
build.cli()
sys.exit(0 if b and ok else 1)
