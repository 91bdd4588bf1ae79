#!/bin/bash
# Run with the repository as working directory. Exit 0: the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
protoc -I generator -I "$here" --plugin=protoc-gen-eams=./protoc-gen-eams --eams_out="$tmp" "$here/d.proto" || exit 2
g++ -std=c++14 -O1 -g EXTRA -Isrc -I"$tmp" -I"$here" "$here/demo.cpp" src/*.cpp -o "$tmp/demo" || exit 2
timeout 100 "$tmp/demo"
