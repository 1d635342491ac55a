#!/bin/sh
# Nothing to build ahead: every check builds falwa from /repo itself.  Verify that the toolchain is there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
test -x /opt/venv/bin/meson
mkdir -p evidence/replay
echo ready
