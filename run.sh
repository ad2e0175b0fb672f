#!/bin/sh
# run.sh <property> [tier] : one check, always exits 0 or 1
cd "$(dirname "$0")" || exit 1
exec python3-vt edvc/run.py "$1" --tier "${2:-quick}"
