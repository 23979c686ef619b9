#!/bin/bash
# chain.sh OUT: the plugins OUT/chain/{t,d}ID-MASK.so for four plugins and all sets of needs
set -e
O=$1/chain
rm -rf "$O.new" && mkdir -p "$O.new/stub"
cd "$(dirname "$0")"
for k in 0 1 2 3 none; do
    echo | gcc -shared -fPIC -x c - -Wl,-soname,chain$k.so -o "$O.new/stub/chain$k.so"
done
one() { # id mask
    n=""
    for j in 0 1 2 3; do
        (($2 >> j & 1)) || continue
        if [ $j = $1 ]; then n="$n $O.new/stub/chainnone.so"; else n="$n $O.new/stub/chain$j.so"; fi
    done
    gcc -fexceptions -O1 -shared -fPIC -DID=$1 -DMASK=$2 chain.c -Wl,-soname,chain$1.so -Wl,--no-as-needed $n -o "$O.new/d$1-$2.so"
    gcc -fexceptions -O1 -shared -fPIC -DID=$1 -DMASK=$2 -DTHROW chain.c -o "$O.new/t$1-$2.so"
}
for i in 0 1 2 3; do
    for m in $(seq 0 15); do one $i $m & done
    wait
done
[ "$(ls "$O.new" | grep -c so)" = 128 ]
rm -rf "$O" && mv "$O.new" "$O"
touch "$O/done"
