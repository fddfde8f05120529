#!/bin/bash
# Builds the AST exporter into build/ (git-ignored) from tool/astx.cpp.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
if [ "$here/build/astx" -nt "$here/tool/astx.cpp" ]; then exit 0; fi
clang++-18 -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
  "$here/tool/astx.cpp" -o "$here/build/astx.tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$here/build/astx.tmp" "$here/build/astx"
