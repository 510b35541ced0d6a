#!/bin/bash
# tlc.sh MODULE CONFIG [OPTIONS]: runs TLC in /verif/spec by hand
cd "$(dirname "$0")/../spec" || exit 1
M=$(mktemp -d); trap 'rm -rf -- "$M"' EXIT
java -XX:+UseParallelGC -Xss256m -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -noGenerateSpecTE -metadir "$M" -config "$2" "$1" "${@:3}"
