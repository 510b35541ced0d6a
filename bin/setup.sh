#!/bin/bash
# Checks that the tools are there and that the specification parses.
cd "$(dirname "$0")/../spec" || exit 1
for t in java gcc python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
    java -cp $CP tla2sany.SANY -error-codes "$m" > /dev/null || { echo "does not parse: $m"; exit 1; }
done
echo "specification parses"
