#!/bin/bash
# nothing to build ahead of time: check that the tools the checks use are there
set -e
cd "$(dirname "$0")"
for t in go java python3 gcc; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c "import sys; sys.path[:0] = ['lib', 'checks']; import common, clara, core, gen"
(cd /repo && GOTOOLCHAIN=local GOPROXY=off go build -o /dev/null .)
echo ok
