#!/bin/bash
# testcopy.sh DIR: builds and runs the unit tests of a copy of korin in place.
d=$(realpath "$1"); b=$(mktemp -d)
export LC_ALL=C.UTF-8 CC=gcc CXX=g++
cmake -S "$d" -B "$b" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_korin_INCLUDE=/opt/vp/cmake/apt_google.cmake -DKORIN_BUILD_APPLICATION=OFF -DKORIN_BUILD_UNITS=ON -DKORIN_BUILD_BENCHES=ON -DBUILD_GMOCK=OFF -DINSTALL_GTEST=OFF >/dev/null
if ! ninja -C "$b" > "$b/log" 2>&1; then grep -E "error|FAILED" "$b/log" | head -20; fi
for t in "$b"/test/units/korin_test-*; do [ -x "$t" ] && [ -f "$t" ] && { timeout 120 "$t" --gtest_color=no 2>&1 | grep -E "^\[  (PASSED|FAILED)|Segm" ; }; done
case "$b" in /tmp/*) rm -rf "$b";; esac
