#!/bin/bash
# try.sh SEED_ID [PROPERTY] [check args]: runs a property's check against a copy of /repo with a planted bug
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
prop=${1:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; shift
T=$(mktemp -d /tmp/vtry.XXXXXX); mkdir $T/repo; cd /repo && git ls-files -z | cpio -0pdm --quiet $T/repo 2>/dev/null || cp -a /repo/. $T/repo/
cd $T/repo && { git apply --unsafe-paths $V/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < $V/seeded/$id/patch.diff; }
cd $V && VERIF_REPO=$T/repo ./check $prop "$@" > $T/log 2>&1; rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " $T/log; then echo "$id: caught by $prop: $(grep -m1 violated: $T/log | cut -c1-200)"; else echo "$id: NOT caught by $prop (rc $rc)"; tail -3 $T/log; fi
find $T -delete
