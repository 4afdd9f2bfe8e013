#!/bin/bash
# usage: run.sh setup | run.sh <property id> quick|thorough | run.sh replay <file> | run.sh plan|one <property> <seed>
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.inc >/dev/null 2>&1
PYBIN=/opt/acados-env/venv/bin/python
cd "$here"
if [ "$1" = setup ]; then exec "$PYBIN" -m dst.zoo all; fi
exec "$PYBIN" -m dst.engine "$@"
