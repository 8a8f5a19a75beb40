# run.sh script.py [checks]
d=$(mktemp -d /tmp/reft.XXXX); cp -a /repo/src /repo/src_deps $d/
python3 $1 $d || exit 1; shift
C=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}
for c in $C; do echo "== $c $(cd /verif; UTKI_REPO=$d ./check.py $c 2>&1 | tail -2 | cut -c1-600)"; done
echo $d
