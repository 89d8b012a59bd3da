#!/bin/bash
# Nothing to install: checks compile their harnesses from /repo's working tree and cache them in build/ by content.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
echo ok
