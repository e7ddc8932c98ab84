#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is present and pre-builds the drivers.

Building here is only a convenience: every check rebuilds what it needs from
/repo's current tree."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
for tool in ("java", "cmake", "ninja", "g++"):
    if not shutil.which(tool):
        sys.exit("missing tool: " + tool)
try:
    core.build("drivers")
except core.CheckError as e:
    sys.exit(str(e))
