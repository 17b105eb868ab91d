#!/bin/bash
# Nothing has to be built ahead of the checks (each check builds from /repo's current tree); this only verifies the tools.
set -e
command -v java g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../build" "$(dirname "$0")/../evidence"
echo setup ok
