#!/bin/bash
# compiles demo.cpp against the headers and the built library of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/qttdemo.XXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
T=/opt/vp/torch-site/torch
g++ -std=gnu++17 -O0 -w -DFMT_HEADER_ONLY=1 -DUSE_C10D_GLOO -DUSE_C10D_NCCL -DUSE_DISTRIBUTED -DUSE_RPC -DUSE_TENSORPIPE \
  -DFMT_DEPRECATED_OSTREAM -D_GLIBCXX_USE_CXX11_ABI=0 -DDOCTEST_CONFIG_IMPLEMENT -I"$PWD/extern/boost" -I"$PWD/extern/doctest" -I"$PWD/include" \
  -isystem $T/include -isystem $T/include/torch/csrc/api/include -isystem /opt/vp/cudnn-site/nvidia/cudnn/include \
  "$here/demo.cpp" -o "$w/demo" -L"$PWD/_build/sources" -lQuantiT -L$T/lib -ltorch -ltorch_cpu -lc10 \
  -Wl,-rpath,"$PWD/_build/sources:$T/lib" -Wl,--allow-shlib-undefined || exit 98
cd "$w" && timeout 120 ./demo
