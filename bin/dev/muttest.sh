#!/bin/bash
# muttest.sh patch...: do the repository's tests pass with the patch? (in a scratch clone)
D=/tmp/mt/repo; mkdir -p /tmp/mt; [ -d $D ] || git clone -q /repo $D
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
cd $D; git checkout -q -- .; git pull -q
for p in $*; do
git checkout -q -- .
git apply $p || { echo "$p NOAPPLY"; continue; }
L=/tmp/mt/log; : > $L; ok=1
timeout 120 cargo test --offline --no-fail-fast --lib -- --test-threads 8 >> $L 2>&1 || ok=0
[ $ok = 1 ] && for t in disconnect ideal_transfer reliable_transfer $(ls tests | sed 's/\.rs//' | grep -v 'timeouts\|disconnect\|transfer'); do timeout 60 cargo test --offline --test $t >> $L 2>&1 || ok=0; done
[ $ok = 1 ] && { timeout 120 cargo test --offline --doc -- --test-threads 1 >> $L 2>&1 || ok=0; }
echo "$(basename $p) tests=$ok $(grep -E '^test .*FAILED|^error' $L | head -3 | tr '\n' ' ')"
git checkout -q -- .
done
