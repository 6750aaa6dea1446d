#!/bin/sh
# Nothing to build: the specification is interpreted by TLC, the harness by Python.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence out
java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar
