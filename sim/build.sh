#!/bin/bash
# usage: build.sh [bits] [index]  -> sim/build/ps<bits> (developer shortcut; check.py does its own builds)
cd "$(dirname "$0")" && mkdir -p build && clang++ -std=c++20 -O2 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I/repo/include -DSIM_COORD=std::int${1:-32}_t -DSIM_INDEX=${2:-std::size_t} main.cpp -ldl -o build/ps${1:-32}
