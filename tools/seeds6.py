"""planted bugs for C15"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

TRACE = r'''
# cwd is /repo, already built
M=$PWD/_build/work/build/mjs
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) && cd "$W" || exit 2
python3 "$D/gen.py" > t.js
out=$(timeout 60 "$M" t.js 2>&1); echo "$out"
rm -rf "$W"
[ "$(echo "$out" | grep -o 't.js:[0-9]*' | tr '\n' ' ')" = "$(cat "$D/want.txt")" ] || exit 1
'''


def gen(body, want):
    return [('gen.py', body), ('want.txt', want)]


seed('pos-line-byte', 'C15', [('src/mjs_util.c', 'prev_line_no = line_no;', 'prev_line_no = (uint16_t) line_no;')], TRACE,
     'an error behind line 65535', 'the stack trace names another line',
     gen("print('let a = 1;' + '\\n' * 65540 + 'let b = undefined;\\nb.c.d;\\nlet e = 1;\\n')", 't.js:65542 '))
seed('pos-map-wrap', 'C15', [('src/mjs_bcode.c', 'int offset = pstate->cur_idx - pstate->start_bcode_idx;', 'int offset = (uint16_t) (pstate->cur_idx - pstate->start_bcode_idx);')], TRACE,
     'more than 64 KiB of code in one file', 'line map items of the code behind it carry wrong offsets',
     gen("print('let a = 1;\\n' + 'a = a + 1;\\n' * 9000 + 'let b = undefined;\\nb.c.d;\\nlet e = 1;\\nlet f = 2;\\n')", 't.js:9003 '))
seed('pos-jump-wide', 'C15', [('src/mjs_bcode.c', 'int llen = (int) cs_varint_llen(v);', 'int llen = v < 0x80 ? 1 : v < 0x10000 ? 2 : (int) cs_varint_llen(v);')], TRACE,
     'a branch over 16 to 64 KiB of code', 'the jump is cut',
     gen("print('let a = 1;\\nlet u;\\nif (a === 2) {\\n' + 'a = a + 1;\\n' * 3000 + '}\\nu.x.y;\\nlet e = 1;\\n')", 't.js:3005 '))
seed('pos-trace-frame', 'C15', [('src/mjs_core.c', """        mjs, *vptr(&mjs->call_stack, -1 - CALL_STACK_FRAME_ITEM_RETURN_ADDR));

    /* pop frame""", """        mjs, *vptr(&mjs->call_stack, -1 - CALL_STACK_FRAME_ITEM_RETURN_ADDR));
    if (offset == MJS_BCODE_OFFSET_EXIT) break;

    /* pop frame""")], TRACE,
     'a script function called back from C code that a script called (array callback through ffi, or mjs_call)', 'the trace ends at the callback',
     gen("""print('''let f = function() {
  let u;
  u.x.y;
};
f.apply(0, []);
let e = 1;
let g = 2;''')""", 't.js:3 t.js:5 t.js:5 '))
