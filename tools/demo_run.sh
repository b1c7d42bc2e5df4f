#!/bin/bash
# compiles the programs beside this script with the compiler in the current directory and compares what they print
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export GOTOOLCHAIN=local GOPROXY=off TMPDIR="$w"
go build -o "$w/clarac" . || exit 2
for f in "$here"/*.clara; do
    n=$(basename "$f" .clara)
    "$w/clarac" -install "$PWD/install" -prog "$f" -out "$w" > "$w/$n.log" 2>&1; crc=$?
    { if [ $crc -eq 0 ] && [ -x "$w/$n" ]; then timeout 20 "$w/$n" < /dev/null 2>/dev/null; echo "status $?"; else echo "rejected"; fi; } > "$w/$n.got"
    if ! cmp -s "$w/$n.got" "$here/$n.expected"; then echo "$n differs:"; diff "$w/$n.got" "$here/$n.expected" | head -20; head -5 "$w/$n.log"; exit 1; fi
done
exit 0
