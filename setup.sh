#!/bin/bash
# Builds the part of the framework that does not depend on /repo (every check rebuilds its harness from /repo's tree).
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
g++ -std=c++20 -O2 -g1 -Isim -c sim/rt.cpp -o .build/rt.setup.o
