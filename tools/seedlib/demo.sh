#!/bin/bash
# Run with cwd the repository, after it was built. 0: behaves as stated; else not.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/_build
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
INC="-I$HERE -I$R/parameter/include -I$R/parameter -I$B/parameter -I$R/parameter/log/include -I$R/utility -I$R/xmlserializer -I$B/xmlserializer -I$R/remote-processor -I$B/remote-processor -I$R/bindings/c -I$B/bindings/c"
LIBS="-L$B/lib -lparameter -lremote-processor -lcparameter -lpthread -ldl -Wl,-rpath,$B/lib"
export LC_ALL=C
g++ -std=c++17 -O0 -fPIC -shared $INC "$HERE/plugin.cpp" -o "$D/libmcplugin.so" -L$B/lib -lparameter -Wl,-rpath,$B/lib || exit 3
g++ -std=c++17 -O0 -rdynamic $INC "$HERE/demo.cpp" -o "$D/demo" $LIBS || exit 3
cd "$D" && DEMO_DIR="$D" REPO="$R" timeout 120 ./demo 2>"$D/log" || { tail -3 "$D/log"; exit 1; }
