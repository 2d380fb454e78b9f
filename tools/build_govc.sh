#!/bin/bash
# build_govc.sh OUT: builds the SSA dumper (the mechanical extraction step) from /verif/govc
set -e
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/govc"
GOFLAGS=-mod=mod GOPROXY=off go build -o "$out" .
