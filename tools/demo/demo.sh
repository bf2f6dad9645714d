#!/bin/bash
# exit 0 if the property holds, 1 if it is broken; run with the repository as working directory
D=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<J
{"Replace": {"$PWD/zz_demo/main.go": "$D/main.go", "$PWD/zz_demo/helper.go": "$D/helper.go"}}
J
export TMPDIR=$T
go build -overlay "$T/o.json" -o "$T/demo" ./zz_demo || exit 2
"$T/demo"
