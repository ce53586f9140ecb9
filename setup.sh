#!/bin/bash
# Nothing to compile: checks that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cd tla
for m in *.tla; do
  java -Djava.io.tmpdir="$D" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$D/out" 2>&1 || { cat "$D/out"; exit 1; }
done
echo "setup ok"
