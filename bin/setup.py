#!/usr/bin/env python3
"""nothing to build ahead (every check compiles its harness against the current tree): checks the tools"""
import shutil, sys
missing = [t for t in ("g++-14",) if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
