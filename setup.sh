#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo's working tree.
set -e
cd "$(dirname "$0")"
chmod +x check.sh
/opt/venv/bin/python -c "import ply, jinja2, pygraphviz"
mkdir -p evidence
