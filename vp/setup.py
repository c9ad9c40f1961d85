#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check compiles what it needs from /repo); confirm that the toolchain is there."""
import shutil, sys
missing = [t for t in ("g++", "ninja") if not shutil.which(t)]
print("toolchain ok" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)
