#!/bin/bash
# Warms the build cache: the checks build the harness themselves.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$scratch/"
cd "$here/harness" || exit 2
go build -modfile="$scratch/go.mod" -o "$scratch/h" . && go build -race -modfile="$scratch/go.mod" -o "$scratch/hr" .
