#!/bin/bash
# Runs every defect demonstration against $1 (default /repo); prints one line per case.
R=${1:-/repo}; D=$(mktemp -d); HERE=$(cd "$(dirname "$0")" && pwd)
F="-std=c++20 -O1 -g -fsanitize=address -I$R/include -I/opt/vp/compat -I/usr/include/eigen3 -include memory -w"
g++ $F "$HERE/defects.cpp" -o $D/d -lflatbuffers -lmsgpackc || exit 2
for c in 1 2 3 4 5 6 7 8 9 91 92 10 101 102 11 12 121 122 13 14 141; do
  (ulimit -t 20; ASAN_OPTIONS=detect_leaks=0 timeout 30 $D/d $c >$D/o 2>&1); rc=$?
  echo "case $c rc=$rc $(grep -m1 -oE 'DEFECT.*|ERROR: AddressSanitizer: [a-z-]+|terminate.*' $D/o)"
done
rm -rf "$D"
