"""planted bugs for C03-C05, C08, C09"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO

JS = r'''
# cwd is /repo, already built
M=$PWD/_build/work/build/mjs
D=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 60 "$M" "$D/demo.js" 2>&1); echo "$out"
echo "$out" | grep -q '^ALL-GOOD' || exit 1
'''


def js(body):
    return ('demo.js', 'let bad = 0;\nfunction ok(c, n) { if (!c) { bad = bad + 1; print("wrong:", n); } }\n' + body +
            '\nif (bad === 0) { print("ALL-GOOD"); }\n')


def c(body):
    return ('demo.c', '#include "mjs.c"\n#include <math.h>\nint main(void) {\n  struct mjs *mjs = mjs_create();\n' + body + '\n  return 0;\n}\n')


seed('num-negative-nan', 'C03', [('src/mjs_primitive.c', 'if (isnan(v)) {', 'if (isnan(v) && !signbit(v)) {')], CDEMO,
     'a NaN with the sign bit set reaching mjs_mk_number', 'a negative NaN becomes a value of some other type',
     [c('  mjs_val_t v = mjs_mk_number(mjs, -(double) NAN);\n  if (!mjs_is_number(v) || mjs_is_boolean(v) || mjs_is_undefined(v)) return 1;\n'
        '  if (mjs_get_type(v) != MJS_TYPE_NUMBER) return 2;')])
seed('num-infinity-type', 'C03', [('src/mjs_primitive.c', 'return v == MJS_TAG_NAN || !isnan(get_double(v));',
                                   'return v == MJS_TAG_NAN || isfinite(get_double(v));')], CDEMO,
     'an infinite number', 'an infinite double is no number any more',
     [c('  mjs_val_t v = mjs_mk_number(mjs, INFINITY);\n  if (!mjs_is_number(v)) return 1;\n'
        '  v = mjs_mk_number(mjs, -INFINITY);\n  if (!mjs_is_number(v)) return 2;')])
seed('str-self-source-tail', 'C04', [('src/mjs_string.c', 'if (p >= prev_buf && p < (prev_buf + m->len)) {',
                                      'if (p >= prev_buf && p + len < (prev_buf + m->len)) {')], CDEMO,
     'a string made from the very end of the string store (slice of the last string including its last byte) while the store has to grow',
     'the source pointer is not adjusted after the store moved',
     [c('''  int i;
  for (i = 0; i < 3000; i++) {
    mjs_val_t v;
    const char *p;
    char *q;
    size_t n;
    mbuf_trim(&mjs->owned_strings);
    /* the source is the last 7 bytes of the store: " tail" and the NUL */
    mjs_mk_string(mjs, "some text with a tail", ~0, 1);
    mbuf_trim(&mjs->owned_strings);
    q = mjs->owned_strings.buf + mjs->owned_strings.len - 7;
    v = mjs_mk_string(mjs, q, 7, 1);
    p = mjs_get_string(mjs, &v, &n);
    if (n != 7 || memcmp(p, "a tail", 7) != 0) return 1;
  }''')])
seed('str-foreign-llen', 'C04', [('src/mjs_string.c', 'size_t llen = cs_varint_llen(len);', 'size_t llen = cs_varint_llen(len + sizeof(p));')], CDEMO,
     'a foreign string of 120 to 127 bytes (or 16376 to 16383)', 'the stored pointer is read back from the wrong offset',
     [c('''  static char buf[20000];
  size_t n, l;
  for (l = 6; l < 20000; l++) {
    mjs_val_t v = mjs_mk_string(mjs, buf, l, 0);
    if (mjs_get_string(mjs, &v, &n) != buf || n != l) return 1;
  }''')])
seed('str-cmp-nul', 'C05', [('src/mjs_string.c', 'return memcmp(a_ptr, b_ptr, a_len);', 'return strncmp(a_ptr, b_ptr, a_len);')], JS,
     'two strings of equal length that differ only after a NUL byte', 'they compare equal',
     [js('ok("a\\x00b" !== "a\\x00c", "short"); ok("abcdef\\x00bcd" !== "abcdef\\x00bce", "long"); ok("abcdef\\x00bcd" === "abcdef\\x00bcd", "equal");')])
seed('op-le-nan', 'C08', [('src/mjs_exec.c', 'mjs_push(mjs, mjs_mk_boolean(mjs, a <= b));', 'mjs_push(mjs, mjs_mk_boolean(mjs, !(a > b)));')], JS,
     'comparing with NaN', 'NaN <= x is true', [js('ok(!(NaN <= 1), "nan <= 1"); ok(!(1 <= NaN), "1 <= nan"); ok(1 <= 1 && 1 <= 2 && !(2 <= 1), "plain");')])
seed('op-postfix-order', 'C08', [('src/mjs_exec.c', '''        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
        mjs_set_v(mjs, obj, key, v1);
        mjs_push(mjs, v);''', '''        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
        mjs_set_v(mjs, obj, key, v1);
        if (v1 == 0) v = v1;
        mjs_push(mjs, v);''')], JS,
     'x-- reaching exactly zero', 'the expression yields the new value instead of the old one',
     [js('let x = 2; ok(x-- === 2, "2"); ok(x-- === 1, "1"); ok(x-- === 0, "0"); ok(x === -1, "end");')])
seed('prop-prefix-name', 'C09', [('src/mjs_object.c', 'if (mjs_strcmp(mjs, &p->name, name, len) == 0) return p;',
                                  '''{
        size_t n;
        const char *s = mjs_get_string(mjs, &p->name, &n);
        if (n >= len && memcmp(s, name, len) == 0) return p;
      }''')], JS,
     'a property whose (longer than 5 bytes) name starts with the name asked for', 'the longer-named property is found instead',
     [js('let o = {}; o.temperature_max = 1; ok(o.temperature === undefined, "absent"); o.temperature = 2; ok(o.temperature_max === 1, "kept"); ok(o.temperature === 2, "own");')])
seed('prop-undefined-inherits', 'C09', [('src/mjs_object.c', 'if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;',
                                         'if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL &&\n      p->value != MJS_UNDEFINED)\n    return p->value;')], JS,
     'an own property with the value undefined over an inherited one', 'the inherited value shows through',
     [js('let a = {x: 1, y: 3}; let b = Object.create(a); ok(b.x === 1, "inherited"); b.x = undefined; ok(b.x === undefined, "hidden"); ok(b.y === 3, "y");')])