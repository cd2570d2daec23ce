#!/bin/bash
# Nothing to build ahead of time: every check compiles/imports from /repo's
# current tree. Only verify that the tools the checks need are present.
set -e
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python -c "import hypothesis, vf.core, vf.gen, vf.workers"
test -x /opt/venv/bin/python
test -f /usr/share/java/jython.jar
command -v java g++ >/dev/null
echo setup ok
