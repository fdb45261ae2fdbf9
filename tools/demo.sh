#!/bin/bash
# run in /repo after its build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC=$(find "$PWD/monotone" -type d | sed 's/^/-I/')
gcc -g -D_GNU_SOURCE -w $INC -I"$D" "$D/demo.c" _build/libmonotone.a -o "$T/demo" -lcurl -lssl -lcrypto -lzstd -llz4 -lpthread -lm || exit 2
(cd "$T" && timeout 120 "$T/demo" "$T")
