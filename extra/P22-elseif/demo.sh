#!/bin/bash
# run with cwd = the repository; builds the demonstration in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
ln -s "$PWD" "$t/bezman"
g++ -std=c++17  -I"$t" "$here/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
