#!/bin/bash
# bash run.sh checks/<check>.py [args]: runs a check with the environment it needs.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONHOME PYTHONSTARTUP
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONPATH=$VERIF_DIR/lib
cd "$VERIF_DIR" || exit 3
exec /opt/venv/bin/python "$@"
