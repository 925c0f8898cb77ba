#!/bin/bash
# mkmut.sh name file 's/..../' : makes /tmp/mut/name.patch from a perl substitution
D=/tmp/mutrepo; [ -d $D ] || git clone -q /repo $D
cd $D && git checkout -q -- . && git pull -q && perl -0pi -e "$3" $2 && git diff > /tmp/mut/$1.patch && git checkout -q -- . && [ -s /tmp/mut/$1.patch ] && echo ok $1 || echo EMPTY $1
