#!/bin/bash
# Builds the verifier (bin/gover) from /verif/verifier, unless it is already there and current.
. /verif/tools/env.sh
set -e
mkdir -p /verif/bin
cd /verif/verifier
sum=$(cat *.go go.mod go.sum 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ -x /verif/bin/gover ] && [ "$(cat /verif/bin/gover.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
go build -o /verif/bin/gover.tmp.$$ .
mv /verif/bin/gover.tmp.$$ /verif/bin/gover
echo "$sum" > /verif/bin/gover.sum
