#!/bin/bash
# Run in the root of the repository: exit 0 if the property holds, nonzero if not.
d=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat > "$t/overlay.json" <<END
{"Replace": {
 "$PWD/zz_seeded_peer_test.go": "$d/peer_test.go.txt",
 "$PWD/zz_seeded_demo_test.go": "$d/demo_test.go.txt"
}}
END
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestSeeded$' .
