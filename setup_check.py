"""setup: everything is interpreted Python over installed tools; check that they are there"""
import shutil, sys
import z3, mpmath
missing = [t for t in ("clang++-18", "g++", "c++filt") if not shutil.which(t)]
print("setup ok" if not missing else "missing: " + " ".join(missing))
sys.exit(1 if missing else 0)
