#!/bin/bash
# check.sh ID [thorough]: decides one property on /repo's current source
cd "$(dirname "$0")" || exit 3
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec ./tool/run.sh check "$1"
