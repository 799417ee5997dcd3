#!/usr/bin/env python3
"""Check that the tools the checks need are here; nothing is installed."""
import os
import shutil
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dasmlib

for tool in ("java", "gcc", "make"):
    if not shutil.which(tool):
        sys.exit("missing: " + tool)
for jar in dasmlib.JARS.split(":"):
    if not os.path.exists(jar):
        sys.exit("missing: " + jar)
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("ready")
