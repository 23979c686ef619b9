#!/bin/bash
# go.sh [ids]: syncs 3 workers from /repo (clean) and /verif, generates, runs all (or given) seeds
cd /var/bug
[ -d gen ] || git clone -q /repo gen
git -C gen fetch -q; git -C gen reset -q --hard origin/HEAD
IDS=$(python3 gen.py "$@") || exit 1
N=${N:-3}
for w in $(seq $N); do mkdir -p w$w; rsync -a --delete /repo/ w$w/repo/ 2>/dev/null || { rm -rf w$w/repo; cp -a /repo w$w/repo; }
 [ -d w$w/verif ] && rsync -a --delete --exclude build --exclude replays /verif/ w$w/verif/ 2>/dev/null || { rm -rf w$w/verif; cp -a /verif w$w/verif; }; done
k=0; declare -A L
for i in $IDS; do w=$((k%N+1)); L[$w]="${L[$w]} $i"; k=$((k+1)); done
for w in $(seq $N); do bash worker.sh $w ${L[$w]} & done; wait
