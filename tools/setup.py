#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's working tree); this only makes sure that the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays", ".build"): os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("g++", "clang++", "valgrind", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok"); sys.exit(1 if missing else 0)
