#!/usr/bin/env python3
"""setup: nothing to build ahead (checks compile from /repo); verify the tools."""
import shutil, sys, os
miss = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
if not os.path.isdir("/usr/include/eigen3"):
    miss.append("eigen3")
if miss:
    sys.exit("missing: " + ", ".join(miss))
print("tools present")
