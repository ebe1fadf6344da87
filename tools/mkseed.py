"""helper: build seeded/<id>/ from a (file, old, new) edit list.  usage: from mkseed import seed"""
import json, os, subprocess
V = '/verif/seeded/'
def seed(id, prop, edits, demo, needs, breaks, files=()):
    d = V + id
    os.makedirs(d, exist_ok=True)
    W = '/tmp/seedw'
    subprocess.run('rm -rf /tmp/seedw && git clone -q ' + os.environ.get('SEED_FROM', '/repo') + ' /tmp/seedw', shell=True, check=True)
    for f, old, new in edits:
        t = open(W + '/' + f).read()
        assert t.count(old) == 1 or print(id), (f, t.count(old), old)
        open(W + '/' + f, 'w').write(t.replace(old, new))
    p = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
    assert p
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + demo.lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in files:
        open(d + '/' + n, 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    subprocess.run('rm -rf /tmp/seedw', shell=True)

# a demo that compiles demo.c (which #includes what it needs from /repo's generated mjs.c) and runs it
CDEMO = r'''
# cwd is /repo, already built; the amalgamated source under test is _build/work/mjs.c
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=$PWD/_build/work; [ -f "$S/mjs.c" ] || S=$PWD
gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -DMJS_EXPOSE_PRIVATE -DCS_ENABLE_STDIO -DMJS_MEMORY_STATS -I"$S" -I"$S/src" -o "$T/demo" "$D/demo.c" -lm -ldl || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo"
'''
