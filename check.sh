#!/bin/bash
# check.sh <property id>: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/hv ] || [ -n "$(find checker -newer bin/hv -print -quit)" ]; then
    bash build.sh || { echo "cannot build the checker" >&2; exit 2; }
fi
exec ./bin/hv -prop "$1" -verif "$PWD"
