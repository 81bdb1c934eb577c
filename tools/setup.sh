#!/bin/sh
# Nothing to build ahead of time: every check builds /repo in a scratch
# directory.  This only makes sure that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence out
/opt/venv/bin/python -c 'import BTrees, ZODB, transaction'
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
