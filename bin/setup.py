#!/usr/bin/env python3
"""setup_cmd: everything is built by the checks themselves; make sure the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build({"harness"})
for f in check.JARS.split(":"):
    assert os.path.exists(f), f
subprocess.run(["java", "-version"], check=True)
print("ready")
