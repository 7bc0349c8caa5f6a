#!/bin/bash
# Checks that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
work=$(mktemp -d /tmp/verif.XXXXXX)
cp spec/*.tla "$work"
cd "$work" || exit 1
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$f" > "$f.out" 2>&1 || { cat "$f.out"; rc=1; }
done
cd /
rm -rf "$work"
exit $rc
