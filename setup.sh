#!/bin/bash
# Nothing to compile: the specifications are read by the pre-installed TLC and
# the drivers are Python.  Parses every specification once so that a broken
# checkout is noticed here and not in a check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here/spec" || exit 1
mkdir -p "$here/evidence"
for f in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1) || { echo "$out"; exit 1; }
done
echo "setup: specifications parse"
