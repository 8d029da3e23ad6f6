#!/bin/bash
# check.sh PROPERTY quick|thorough
. /verif/tools/env.sh
/verif/tools/build.sh || { echo "cannot build the verifier"; exit 2; }
exec /verif/bin/gover check "$1" "${2:-quick}"
