#!/bin/bash
# tri.sh MODULE traces
cd /verif/spec
TRACES=$2 PROP=none java -XX:+UseParallelGC -Xss16m -Xmx20g -cp /verif/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir /tmp/tlcm -noGenerateSpecTE -config ${1/Trace/Triage}.cfg $1.tla 2>&1 | grep -v "^Progress\|^Finished\|^Parsing\|^Semantic"
rm -rf /tmp/tlcm
