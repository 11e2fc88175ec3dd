#!/bin/bash
# Run in the root of the repository: exit 0 if the property holds, nonzero if not.
d=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$t/go.work" GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
printf 'go 1.25.0\nuse (\n\t%s\n\t%s/ext\n)\n' "$PWD" "$PWD" > "$t/go.work"
sed 's/^package signalr_test/package ext_test/' "$d/peer_test.go.txt" > "$t/peer_test.go"
cat > "$t/overlay.json" <<END
{"Replace": {
 "$PWD/ext/zz_seeded_peer_test.go": "$t/peer_test.go",
 "$PWD/ext/zz_seeded_redis_test.go": "$d/miniredis_test.go.txt",
 "$PWD/ext/zz_seeded_demo_test.go": "$d/demo_test.go.txt"
}}
END
cd ext && go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestSeeded$' .
