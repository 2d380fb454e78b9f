#!/bin/bash
# builds the SSA dumper and warms the harness build
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/bin"
bash "$here/tools/build_govc.sh" "$here/bin/govc"
t=$(mktemp -d)
bash "$here/tools/build_harness.sh" "$t/h"
rm -r "$t"
