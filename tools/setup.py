#!/usr/bin/env python3
"""setup_cmd: nothing has to be installed; make sure the compiler the checks use is there."""
import subprocess, sys
r = subprocess.run(["clang++-18", "--version"], stdout=subprocess.PIPE, text=True)
print(r.stdout.splitlines()[0])
sys.exit(r.returncode)
