#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles its own drivers from /repo's current
tree.  This only verifies that what they need is there."""
import os, shutil, sys
missing = [t for t in ("clang++", "g++", "valgrind") if not shutil.which(t)]
missing += [f for f in ("/usr/include/eigen3/Eigen/Core", "/repo/src/limbo/limbo.hpp") if not os.path.exists(f)]
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
