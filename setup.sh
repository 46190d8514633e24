#!/bin/sh
# Everything is built by the checks themselves from /repo's working tree; this only verifies the tools.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
go version
mkdir -p evidence
