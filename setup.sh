#!/bin/bash
# Nothing to build: the checks run the working tree of /repo. Only prove that the simulator starts.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "import ast, glob
for f in glob.glob('sim/**/*.py', recursive=True): ast.parse(open(f).read(), f)"
