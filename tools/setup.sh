#!/bin/bash
# Nothing to build: check that every specification parses.
cd "$(dirname "$0")/../spec" || exit 1
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
java -Djava.io.tmpdir="$T" -cp "$J" tla2sany.SANY *.tla > "$T/log" 2>&1 || { tail -30 "$T/log"; exit 1; }
if grep -q "Parse Error\|\*\*\* Errors\|Could not" "$T/log"; then grep -n -A5 "Error\|Could not" "$T/log"; exit 1; fi
echo "specifications parse"
