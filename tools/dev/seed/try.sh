# try.sh ID... : runs the property's quick check on the patched tree
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 d=$(mktemp -d /tmp/seedt.XXXX); cp -a /repo/src /repo/src_deps $d/
 (cd $d && git apply --unsafe-paths /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff)
 out=$(cd /verif; UTKI_REPO=$d ./check.py $p 2>&1 | tail -3 | cut -c1-250)
 echo "== $id: $(echo "$out" | grep -q '^VIOLATION' && echo CAUGHT || echo MISSED)"; echo "$out"
 rm -rf $d
done
