#!/usr/bin/env python3
"""setup_cmd: byte-compile the analyser and check that the tools it needs are present."""
import compileall
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("absint", "checks"):
    compileall.compile_dir(os.path.join(HERE, d), quiet=1)
for t in (["/usr/bin/clang++-18", "--version"], ["/usr/bin/opt-18", "--version"], ["llvm-bcanalyzer-18", "--version"]):
    try:
        subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
    except FileNotFoundError:
        print("missing", t[0])
        if t[0].startswith("/"):
            sys.exit(1)
print("ok")
