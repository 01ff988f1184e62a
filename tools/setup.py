#!/usr/bin/env python3
"""Checks that the tools the checks use are present (nothing is built ahead of time: every check
elaborates and compiles /repo's current tree itself)."""
import shutil, subprocess, sys
missing = [t for t in ("clang++", "yosys") if not shutil.which(t)]
if subprocess.call(["/opt/pypyvenv/bin/python", "-c", "import nmigen"]):
    missing.append("nmigen under /opt/pypyvenv")
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
