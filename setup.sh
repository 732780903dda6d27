#!/bin/bash
# Checks that the toolchain is there; every check builds what it needs itself.
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
"$GO" version
python3 harness/typegen.py 1 4 >/dev/null
command -v gcc >/dev/null # for the race detector and the address sanitizer
mkdir -p evidence
