"""checks that the tools the framework needs are present (nothing to build)"""
import shutil, subprocess, sys
import z3
for t in ("clang++", "g++", "cvc5"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("z3", z3.get_version_string())
