#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's working tree itself. Verify the toolchain only."""
import shutil, subprocess, sys
need = ["clang++", "g++", "valgrind", "python3"]
miss = [n for n in need if not shutil.which(n)]
if miss:
    sys.exit("missing tools: %s" % miss)
print(subprocess.run(["clang++", "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0])
