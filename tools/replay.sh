#!/bin/bash
# replay.sh PROPERTY [--seed N --seconds S] : builds the driver against /repo's working tree and runs it
# replay.sh PROPERTY FILE                   : evaluates the failing inputs of a replay file again
. /verif/tools/env.sh
export GOFLAGS=-mod=readonly
REPO=${GOVER_REPO:-/repo}
prop=$1; shift
dir=$(mktemp -d /tmp/kfreplay.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in /verif/replay/*.go; do
    printf '%s"%s/zz_verif_replay/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=,
  done
  echo '}}'
} > "$dir/overlay.json"
export KF_SCRATCH=$dir KF_REPO=$REPO KF_SPECS=/verif/contracts
race=; [ "$prop" = C27 ] && race=-race
cd "$REPO" || exit 1
if ! go build $race -overlay "$dir/overlay.json" -o "$dir/driver" ./zz_verif_replay 2> "$dir/build.log"; then
  python3 - "$dir/build.log" <<'P'
import json,sys
print("\nRESULT "+json.dumps({"Err":"the replay driver does not build: "+open(sys.argv[1]).read()[:800]}))
P
  exit 1
fi
cd "$dir"
if [ -f "$1" ]; then exec_args=(-input "$1"); else exec_args=("$@"); fi
"$dir/driver" "$prop" "${exec_args[@]}"
