#!/bin/bash
# run.sh PROPERTY [quick|thorough]: build the harness from /repo's working tree and decide the property.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
prop=${1:?property}
[ -n "$2" ] && export VERIF_TIER=$2
exec python3 "$here/tools/run.py" "$prop"
