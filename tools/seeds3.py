"""planted bugs for C10 and replacements"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

seed('arr-index-digits', 'C10', [('src/mjs_string.c', '  if (len == 0 || len >= sizeof(buf)) return 0;', '  if (len == 0 || len >= 10) return 0;')], JS,
     'an array index of ten digits', 'such elements do not count for the length',
     [js("""let a = [];
a[999999999] = 1;
ok(a.length === 1000000000, a.length);
a[1000000000] = 2;
ok(a.length === 1000000001, a.length);""")])
seed('vm-error-argstack', 'C16', [('src/mjs_exec.c', '      mjs->arg_stack.len = arg_stack_len;\n', '')],
     CDEMO, 'a script fails between pushing a call\'s arguments and the call', 'the argument stack keeps an entry',
     [c("""  mjs_val_t r = MJS_UNDEFINED;
  if (mjs_exec(mjs, "let f = function(a) { return a; }; f(nosuchvar);", &r) == MJS_OK) return 9;
  if (mjs->arg_stack.len != 0) return 1;""")])
seed('op-rshift-wide', 'C08', [('src/mjs_exec.c', '(double) ((int64_t) da >> (int64_t) db);', '(double) ((int64_t) da >> ((int64_t) db & 31));')], JS,
     'a right shift by 32 or more', 'the shift count is taken modulo 32',
     [js('ok((1099511627776 >> 36) === 16, "wide"); ok((1099511627776 >> 32) === 256, "32"); ok((256 >> 4) === 16, "narrow");')])
