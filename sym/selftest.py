"""setup: fails when a tool the checks need is missing; nothing is built ahead (every check builds from /repo itself)."""
import shutil
import subprocess
import sys
for t in ("clang++", "z3-new", "cvc5", "c++filt"):
    if not (shutil.which(t) or shutil.which(t + "-18")):
        print("missing tool", t)
        sys.exit(1)
import numpy  # noqa
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
print("checks available:", len(specs.SPECS))
