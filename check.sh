#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/veriftools/pyvenv/bin/python "$here/engine/check.py" "$@"
