#!/bin/bash
# camp_setup.sh DIR: copies of /verif and /repo for campaigns
D=$1; mkdir -p $D; rm -rf $D/verif $D/repo
git clone -q /verif $D/verif; git clone -q /repo $D/repo
sed -i "s#/repo#$D/repo#" $D/verif/harness/Cargo.toml $D/verif/lib/core.py
