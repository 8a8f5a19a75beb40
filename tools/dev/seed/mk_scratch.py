# makes /tmp/wv/seeded/<id>/ from a description: id, property, edits [(file, old, new)], demo.cpp text, flags, needs, breaks
import os, subprocess, sys, json, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the property held; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
g++ %s -w -pthread -I"$PWD/src" -isystem "$PWD/src_deps" "$here/demo.cpp" "$PWD"/src/utki/*.cpp -o "$dir/demo" || exit 2
cd "$dir" && timeout 120 ./demo%s
'''
def make(id, prop, edits, demo, needs, breaks, flags='-std=c++17 -g -O1', tail=''):
    d = '/tmp/wv/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedw.')
    try:
        subprocess.check_call(['git', '-C', '/tmp/wr2', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        r = w + '/r'
        for f, old, new in edits:
            p = r + '/src/utki/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO % (flags, tail))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        bad = subprocess.run(['bash', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        good = subprocess.run(['bash', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        ok = bad.returncode not in (0, 2) and good.returncode == 0
        print(id, 'OK' if ok else 'BAD', 'patched rc', bad.returncode, 'clean rc', good.returncode)
        if not ok:
            print(bad.stdout[-1500:], '-----', good.stdout[-1500:])
        else:
            print('   ', bad.stdout.strip().splitlines()[-1:] )
        return ok
    finally:
        subprocess.call(['git', '-C', '/tmp/wr2', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
