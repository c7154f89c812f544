#!/bin/bash
# Builds the checker from /verif/checker into /verif/bin (ignored by git), offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd checker
go build -o ../bin/hv.tmp.$$ .
mv -f ../bin/hv.tmp.$$ ../bin/hv
