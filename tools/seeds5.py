"""planted bugs for C18"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

seed('str-index-neg', 'C18', [('src/mjs_string.c', 'if (idx < 0) idx = 0;', 'if (idx < 0) idx += (int) str_len;')], JS,
     'a negative start position', 'indexOf counts it from the end',
     [js("""ok('abcabc'.indexOf('a', -2) === 0, 'abcabc'.indexOf('a', -2));""")])
seed('str-mkstr-offset', 'C18', [('src/mjs_string.c', 'ret = mjs_mk_string(mjs, ptr + offset, len, copy);', 'ret = mjs_mk_string(mjs, copy ? ptr + offset : ptr + (offset & 0xff), len, copy);')], CDEMO,
     'a borrowed string at an offset of 256 or more', 'it starts elsewhere',
     [c("""  static char mem[600];
  mjs_val_t r = MJS_UNDEFINED, g = mjs_get_global(mjs);
  for (int i = 0; i < 600; i++) mem[i] = (char) ('a' + i / 256);
  mjs_set(mjs, g, "p", ~0, mjs_mk_foreign(mjs, mem));
  if (mjs_exec(mjs, "mkstr(p, 300, 6);", &r) != MJS_OK) return 2;
  size_t n; const char *s = mjs_get_string(mjs, &r, &n);
  if (n != 6 || s[0] != 'b') return 1;""")])
seed('str-slice-swap', 'C18', [('src/mjs_string.c', '  if (endSlice < beginSlice) {\n    endSlice = beginSlice;', '  if (endSlice < beginSlice && endSlice >= 0 && beginSlice - endSlice < 0x100) {\n    endSlice = beginSlice;')], JS,
     'the end lies 256 or more before the start', 'slice does not return the empty string',
     [js("""let s = 'abcdefghijklmnop'; s = s + s; s = s + s; s = s + s; s = s + s; s = s + s;
ok(s.slice(400, 3) === '', 'not empty');""")])
