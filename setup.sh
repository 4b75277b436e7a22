#!/bin/sh
# Nothing to build ahead of time: every check compiles /repo's current sources itself. Verify the tools are present.
set -e
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c "import sys; sys.path.insert(0,'.'); import checks" && echo setup ok
