#!/bin/bash
# mut.sh PROP FILE 'python expression on s' : tries an ad-hoc mutation of /repo's source in a scratch copy
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src /repo/src_deps "$d/"
python3 - "$d/src/utki/$2" "$3" <<'PY'
import sys,re
p=sys.argv[1]; s=open(p).read(); o=s
s=eval(sys.argv[2])
assert s!=o, "mutation changed nothing"
open(p,'w').write(s)
PY
set +e
(cd /verif; UTKI_REPO=$d ./check.py $1 2>&1 | tail -3 | cut -c1-400)
rm -rf "$d"
