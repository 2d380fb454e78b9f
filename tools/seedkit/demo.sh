#!/bin/bash
# builds the demonstration against the source tree in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$PWD
printf '{"Replace":{"%s/zz_demo/sim.go":"%s/sim.txt","%s/zz_demo/fed.go":"%s/fed.txt","%s/zz_demo/demo.go":"%s/demo.txt"}}' "$r" "$d" "$r" "$d" "$r" "$d" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 120 ./demo
