#!/bin/bash
# compile one contract TU against /repo's current sources to verification IR:  ir.sh contract.cpp out.ll [extra flags]
set -e
src=$1; out=$2; shift 2
R=${VC_REPO:-/repo}
clang++ -std=c++17 -DVC_SYMBOLIC -DESL_RELEASE=1 -DWITH_PYTHON -w -Wno-invalid-constexpr \
  -isystem /usr/include/python3.12 -include /verif/include/shim.hpp -I/verif/include -I$R \
  -fwrapv -O1 -Xclang -disable-llvm-passes -fno-discard-value-names -fno-threadsafe-statics "$@" -emit-llvm -c $src -o $out.tmp
opt -passes='always-inline,function(sroa,early-cse,instsimplify,simplifycfg),globaldce' $out.tmp -o $out && rm -f $out.tmp
