#!/bin/bash
# seed.sh ID PATCH: completes /verif/seeded/ID (main.rs, meta.json are written by hand) and checks the demonstration
D=/verif/seeded/$1; cp $2 $D/patch.diff; cp /verif/bin/dev/demo/{demo.sh,sim.rs} $D/; chmod +x $D/demo.sh
S=/tmp/sd/repo; mkdir -p /tmp/sd; [ -d $S ] || git clone -q /repo $S; cd $S && git checkout -q -- . && git pull -q
bash $D/demo.sh > /tmp/sd/clean.log 2>&1; a=$?
git apply $D/patch.diff || exit 1
bash $D/demo.sh > /tmp/sd/bug.log 2>&1; b=$?
git checkout -q -- .
echo "$1 clean=$a bug=$b"; [ $a != 0 ] && tail -5 /tmp/sd/clean.log; grep -E "panicked|^error|assert" -A1 /tmp/sd/bug.log | head -3
