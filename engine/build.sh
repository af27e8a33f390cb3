#!/bin/sh
# Builds the solver-based engine from its sources into /verif/build.
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
Z3P=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CX="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
if [ -f $Z3P/include/z3++.h ]; then ZI="-I$Z3P/include"; ZL="-L$Z3P/lib -lz3 -Wl,-rpath,$Z3P/lib"; else ZI=""; ZL="-lz3"; fi
clang++ -O2 -std=c++17 -fno-rtti -fexceptions $CX $ZI sx.cpp -o $B/sx.tmp $(llvm-config-18 --ldflags) -lLLVM-18 -lminisat $ZL -lpthread
mv $B/sx.tmp $B/sx
clang++ -O1 -std=c++17 -w $ZI lower_test.cpp -o $B/lower_test $ZL; $B/lower_test
clang++ -O1 -std=c++17 -fno-rtti $CX ll2c.cpp -o $B/ll2c.tmp $(llvm-config-18 --ldflags) -lLLVM-18
mv $B/ll2c.tmp $B/ll2c
