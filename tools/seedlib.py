JS = r'''
# cwd is /repo, already built
M=$PWD/_build/work/build/mjs
D=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 60 "$M" "$D/demo.js" 2>&1); echo "$out"
echo "$out" | grep -q '^ALL-GOOD' || exit 1
'''


def js(body):
    return ('demo.js', 'let bad = 0;\nfunction ok(c, n) { if (!c) { bad = bad + 1; print("wrong:", n); } }\n' + body +
            '\nif (bad === 0) { print("ALL-GOOD"); }\n')


def c(body):
    return ('demo.c', '#include "mjs.c"\n#include <math.h>\nint main(void) {\n  struct mjs *mjs = mjs_create();\n' + body + '\n  return 0;\n}\n')
