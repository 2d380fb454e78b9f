#!/bin/bash
# build_harness.sh OUT: builds the concrete harness from /repo's working tree (overlay; /repo is not written)
. /opt/vp/env.sh
set -e
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
python3 - "$here" > "$ov" <<'P'
import json,sys,glob,os
here=sys.argv[1]
print(json.dumps({"Replace":{"/repo/zz_verif_harness/"+os.path.basename(f):f for f in sorted(glob.glob(here+"/harness/*.go"))}}))
P
cd /repo
go build -overlay "$ov" -o "$out" ./zz_verif_harness
