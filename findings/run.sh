#!/bin/bash
# Runs the demonstrations of the defects recorded in known-findings.json against /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/iffdemo.XXXXXX)
sed 's/@IFF_BIG_ENDIAN@/0/' /repo/src/libiff/ifftypes.h.in > $W/ifftypes.h
gcc -g -w -fsanitize=address -I$W -I/repo/src/libiff "$here/demo.c" /repo/src/libiff/*.c -o $W/demo || exit 2
rc=0
for n in 1 2 3 4 5 6 7; do ASAN_OPTIONS=detect_leaks=1 $W/demo $n 2>/dev/null || rc=1; done
# 8: iffjoin leaks an input that fails the check
gcc -g -w -fsanitize=address -DHAVE_GETOPT_H=1 '-DPACKAGE_NAME="x"' '-DPACKAGE_VERSION="0"' -I$W -I/repo/src/libiff /repo/src/iffjoin/*.c /repo/src/libiff/*.c -o $W/iffjoin
printf 'FORM\0\0\0\4test' > $W/bad.iff
ASAN_OPTIONS=detect_leaks=1:exitcode=99 $W/iffjoin -o $W/out $W/bad.iff 2>/dev/null
if [ $? = 99 ]; then echo "DEFECT 8: iffjoin leaks a rejected input"; rc=1; else echo "ok 8: iffjoin leaks a rejected input"; fi
rm -rf "$W"
exit $rc
