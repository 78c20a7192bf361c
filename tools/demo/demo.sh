#!/bin/bash
# Builds demo.cpp against the library in the current directory and runs it in a scratch directory of its own.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'find "$T" -xdev -delete' EXIT
g++ -std=gnu++17 -w -O0 -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE -DDONT_USE_XERCES_AS_XMLLIB -DIS_UNITTEST -include algorithm \
  -I"$PWD/src" -I"$PWD/mdns_cpp/include" "$D/demo.cpp" _build/libs/libMvrGdtf.a _build/libs/libmdns_cpp.a -luuid -lpthread -o "$T/demo" || exit 3
cd "$T" && DEMO_SCRATCH="$T" timeout 200 "$T/demo"
