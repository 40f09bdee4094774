#!/bin/bash
# sweep.sh TIER "SEEDS" ID...: runs checks for several seeds from private copies of /verif and /repo
tier=$1; seeds=$2; shift 2
W=$(mktemp -d /tmp/sweep.XXXXXX); mkdir $W/verif; cp -a /repo $W/repo
(cd /verif; tar c --exclude=./build --exclude=./.git --exclude=./seeded .) | tar x -C $W/verif
cd $W/verif
for s in $seeds; do for i in "$@"; do VERIF_REPO=$W/repo VERIF_SEED=$s timeout 1500 ./check $i --tier $tier > $W/out 2>&1; rc=$?; echo "seed $s $i rc $rc: $(grep -a '^OK\|^VIOL' $W/out | tail -1)"; [ $rc = 0 ] || { grep -av "ROT name" $W/out | tail -40; mkdir -p /tmp/fails; cp -r replays/* /tmp/fails/ 2>/dev/null; }; done; done
find $W -mindepth 1 -delete; rmdir $W
