#!/bin/bash
# Nothing to install: every check builds what it needs from /repo on its own.
# This only verifies that the tools the checks rely on are present.
set -e
cd "$(dirname "$0")"
bash run.sh -c 'import sys; sys.path.insert(0, "lib"); import vp, hypothesis; print("hypothesis", hypothesis.__version__)'
