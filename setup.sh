#!/bin/bash
# Everything is built by the checks themselves from committed sources and
# /repo; this only verifies that the toolchain is there.
. /opt/vp/env.sh
cd "$(dirname "$0")/tools/instr" && d=$(mktemp -d) && go build -o "$d/instr" . && rm -r "$d"
