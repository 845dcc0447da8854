#!/bin/bash
# Nothing to build: checks that the interpreter, Hypothesis and the code under test load.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, ".")
import hypothesis
from vabi import core
core.setup_import()
for i in range(1, 25):
    core.load("C%02d" % i)
print("ok", hypothesis.__version__)'
