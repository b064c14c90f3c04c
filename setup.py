#!/usr/bin/env python3
"""Checks that the tools the framework needs are present. Every check builds for itself."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "addr2line", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
