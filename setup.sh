#!/bin/bash
# Nothing to compile ahead of time: every check builds what it needs (native modules included)
# from /repo's current tree in its own scratch directory. This only verifies that the tools are there.
set -e
test -x /opt/venv/bin/python
/opt/venv/bin/python -c 'import numpy, torch, h5py'
command -v g++ >/dev/null
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
