#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Runs one check against the current working tree of /repo, from an empty scratch directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
W=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/cwd" "$W/tmp"
export MC_REPO=${MC_REPO:-/repo}
export HOME=/root LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc"
export PYTHONPATH="$MC_REPO:$HERE" TMPDIR="$W/tmp" MC_SCRATCH="$W"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYVERILOG_IVERILOG
cd "$W/cwd" || exit 2
/opt/venv/bin/python -W ignore -m mc.run "$ID" "$TIER"
