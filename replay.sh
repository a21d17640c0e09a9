#!/bin/bash
# replay.sh PROFILE HARNESS INPUTFILE: rebuilds from /repo and runs one recorded input natively (add VALGRIND=1 for memory errors)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
bash "$(dirname "$0")/build_ir.sh" "$d" "$1" >/dev/null 2>&1 || { echo "build failed"; exit 3; }
${VALGRIND:+valgrind -q} "$d/$1.exe" "$2" "$3"; echo "exit status $?"
