#!/bin/bash
# worker.sh W ids...
W=$1; shift
for i in "$@"; do bash /var/bug/run1.sh $W $i; echo "== $i: $(grep -oE 'TESTS-[A-Z]+|DEMO-[A-Z-]+|CHECK.*|PATCH FAILS|BUILD-BAD|ALSO.*' /var/bug/out/$i.result | tr '\n' ' ')"; done
