#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; the harnesses are built by each check from /repo's tree."""
import shutil, sys, os
missing = [t for t in ("g++", "objcopy", "python3") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
print("ok")
