#!/bin/bash
# check.sh check PROP [quick|thorough] | replay FILE | sweep PROP|SCENARIO [N [SEED]]
cd "$(dirname "$0")" || exit 3
. ./env.sh
export VERIF_DIR="$PWD"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
CGO_ENABLED=0 go build -o "$tmp/vdrive" ./cmd/vdrive || exit 3
"$tmp/vdrive" "$@"
