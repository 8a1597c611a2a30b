#!/usr/bin/env python3
"""Sanity check of the installed tools: the parsers the checks need are there and the models load."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa.program import Program      # noqa: E402
from sa import cxx                  # noqa: E402

prog = Program(cxx.SRC, "aihwkit", cxx.REPO)
print("python modules: %d, classes: %d" % (len(prog.modules), len(prog.all_classes)))
print("clang++: %s" % shutil.which("clang++"))
