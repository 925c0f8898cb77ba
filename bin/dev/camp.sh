#!/bin/bash
# camp.sh DIR "patch:Prop ..." ; patch = commit (reverted) or file
D=$1; shift; cd $D/verif
for x in $*; do c=${x%%:*}; p=${x##*:}
git -C $D/repo checkout -q -- .
if [ -f $c ]; then cp $c $D/rv.patch; else git -C $D/repo diff $c $c~1 > $D/rv.patch; fi
if git -C $D/repo apply --check $D/rv.patch 2>/dev/null; then
 git -C $D/repo apply $D/rv.patch
 s=$(date +%s)
 timeout 900 bin/check $p quick > $D/rv.out 2>&1; rc=$?
 git -C $D/repo checkout -q -- .
 echo "$x rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION $D/rv.out) $(head -c 350 $D/rv.out | tr '\n' ' ' | tr -s ' ')"
else echo "$x CONFLICT"; fi
done
