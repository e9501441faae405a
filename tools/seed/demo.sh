#!/bin/bash
# Generates the code of the types in m/ with the generator in the working directory and runs m/main.go against it.
# Exit 0: the generated code behaves; anything else: it does not (or is not generated, or does not compile).
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp "$D/gen.go.txt" "$W/gen.go"
echo "{\"Replace\": {\"$R/main.go\": \"$W/gen.go\"}}" > "$W/ov.json"
go build -overlay "$W/ov.json" -o "$W/vj" . || exit 3
cp -r "$D/m" "$W/m"
cp "$D/go.mod.txt" "$W/m/go.mod"
cp "$D/go.sum.txt" "$W/m/go.sum"
cd "$W/m" || exit 3
"$W/vj" $(cat "$D/files.txt") || exit 4
go build -o "$W/run" . || exit 5
timeout 60 "$W/run" || exit 6
echo "demo: as it should be"
