#!/bin/bash
# try.sh FILE.cpp: builds and runs a scratch program against the simulator (its own main replaces sim/main.cpp)
cd $(dirname $0)/..; python3 tools/build.py fast >/dev/null || exit 3
B=build/fast; O=$(mktemp); g++ $CF -std=c++17 -w -O1 -g -Isim -I$B/inc -I/repo/arm-wt-22k/host_src -I/repo/arm-wt-22k/lib_src -I/repo/fakes -o $O "$1" $(ls $B/sim/*.o | grep -v /main-) $B/lib-*/*.o -lm -lpthread && shift && $O "$@"; cp $O /tmp/t/last; rm -f $O
