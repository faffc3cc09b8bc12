#!/bin/bash
# Runs the demonstration against the tree in the working directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
python3 - "$D" "$R" "@PKG@" > "$W/overlay.json" <<'P'
import sys, os, json
d, r, pkg = sys.argv[1:]
print(json.dumps({"Replace": {f"{r}/{pkg}/zz_demo_{f}": f"{d}/{f}" for f in os.listdir(d) if f.endswith("_test.go")}}))
P
TMPDIR="$W" go test -vet=off -count=1 -timeout 200s -overlay "$W/overlay.json" -run '^TestDemo' "./@PKG@"
