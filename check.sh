#!/bin/bash
# check.sh ID quick|thorough   decide a property on the current tree of /repo
# check.sh -replay FILE        run a reported case again
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
id=$1
if [ "$id" = -replay ]; then
  id=$(sed -n 's/^ *"property": "\(.*\)",*$/\1/p' "$2" | head -1)
fi
race=
case " C17 " in *" $id "*) race=-race ;; esac
cp "$here/harness/go.mod" "$scratch/go.mod"
cp "$here/harness/go.sum" "$scratch/go.sum"
if ! (cd "$here/harness" && go build $race -modfile="$scratch/go.mod" -o "$scratch/harness" .) >"$scratch/build.log" 2>&1; then
  head -50 "$scratch/build.log" >&2
  echo "check.sh: the harness does not build against /repo" >&2
  exit 2
fi
if [ "$1" = -replay ]; then
  "$scratch/harness" -replay "$2" -known "$here/known-findings.txt"
  exit
fi
"$scratch/harness" -property "$id" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" -shards "${SHARDS:-4}" \
  -evidence "$here/evidence/$id.json" -replaydir "$here/replay" -known "$here/known-findings.txt"
