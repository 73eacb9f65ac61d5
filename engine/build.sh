#!/bin/bash
# Builds the symbolic executor into /verif/build/ksym.
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
CXX="clang++-18"; command -v $CXX >/dev/null || CXX=clang++; command -v $CXX > /dev/null || CXX=g++
LC=llvm-config-18; command -v $LC >/dev/null || LC=llvm-config
F="-O2 -g1 -std=c++17 -I$($LC --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions"
$CXX $F -c term.cpp -o $B/term.o & p1=$!
$CXX $F -c smt.cpp -o $B/smt.o & p2=$!
$CXX $F -c exec.cpp -o $B/exec.o & p3=$!
$CXX $F -c prove.cpp -o $B/prove.o & p4=$!
wait $p1; wait $p2; wait $p3; wait $p4
$CXX $B/term.o $B/smt.o $B/exec.o $B/prove.o -o $B/ksym.new $($LC --ldflags --libs core irreader analysis support bitreader --system-libs)
mv $B/ksym.new $B/ksym
