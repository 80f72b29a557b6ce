#!/usr/bin/env python3
"""Checks that the tools the monitors need are here. Every check builds what it needs from /repo's tree."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing)); sys.exit(1)
print("ok")
