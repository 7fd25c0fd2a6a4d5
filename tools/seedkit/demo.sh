#!/bin/bash
# run in the repository: exit 0 if the property holds in the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export REPO=$R
. /opt/vp/env.sh >/dev/null 2>&1
cd "$R" || exit 2
W=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/tmp"
printf '{"Replace":{"%s/zzdemo/kit_test.go":"%s/kit_test.go","%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$R" "$D" "$R" "$D" > "$W/o.json"
export TMPDIR="$W/tmp"
GOFLAGS=-mod=readonly go test -vet=off -c -o "$W/demo" -overlay "$W/o.json" ./zzdemo || exit 2
cd "$W/tmp" && "$W/demo" -test.run '^TestDemo$' -test.count=1 -test.timeout 120s
