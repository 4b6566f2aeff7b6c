#!/bin/sh
# nothing to build: checks that the tools the checks use are there
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
test -x /opt/venv/bin/python
mkdir -p evidence
