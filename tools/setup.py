#!/usr/bin/env python3
"""Checks the tools the checks need; the checks build everything else themselves."""
import shutil, sys
missing = [t for t in ("g++", "gcc", "python3", "cmake") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
