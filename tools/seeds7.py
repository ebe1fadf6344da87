"""planted bugs for C19 (data views), C20 (tokens), C21 (errors)"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

seed('dv-int24', 'C19', [('src/mjs_dataview.c', """  /* sign-extend */
  {
    int extra = sizeof(res) - size;
    for (i = 0; i < extra; i++) res <<= 8;
    for (i = 0; i < extra; i++) res >>= 8;
  }

  return res;""", """  /* sign-extend */
  if (size == 1) return (int8_t) res;
  if (size == 2) return (int16_t) res;
  return res;""")], CDEMO.replace(',undefined -fno-sanitize-recover=undefined', ''), 'a negative three-byte integer', 'it is read as a positive number',
     [c('  unsigned char b[3]; mjs_mem_set_int(b, -5, 3, 1);\n  if (mjs_mem_get_int(b, 3, 1) != -5) return 1;')])
seed('dv-ptr-back', 'C19', [('src/mjs_dataview.c', "return (char *) base + offset;", "return (char *) base + (unsigned) offset;")], CDEMO.replace(',undefined -fno-sanitize-recover=undefined', ''),
     'a negative offset', 'the pointer lies 4 GiB further',
     [c('  char b[8];\n  if (mjs_mem_get_ptr(b + 4, -4) != (void *) b) return 1;')])
seed('tok-comment-start', 'C20', [('src/mjs_tok.c', """    if (p->pos[0] == '/' && p->pos[1] == '*') {
      p->pos += 2;""", """    if (p->pos[0] == '/' && p->pos[1] == '*') {
      p->pos++;""")], JS, 'a block comment that starts with /*/', 'the comment ends at once',
     [js('let a = 1;\n/*/ a = 2; /* */\nok(a === 1, "comment");\n')])
seed('tok-comment-cr', 'C20', [('src/mjs_tok.c', "while (p->pos[0] != '\\0' && p->pos[0] != '\\n') p->pos++;", "while (p->pos[0] != '\\0' && p->pos[0] != '\\n' && p->pos[0] != '\\r') p->pos++;")], JS,
     'a carriage return in the middle of a line comment', 'the rest of the comment is executed',
     [js('let a = 1;\n// off:\ra = 2;\nok(a === 1, "comment");\n')])
seed('tok-escape-end', 'C20', [('src/mjs_tok.c', "if (p->pos[0] == '\\\\' && p->pos[1] != '\\0' &&\n        (p->pos[1] == quote", "if (p->pos[0] == '\\\\' &&\n        (p->pos[1] == quote")], CDEMO,
     'a source that ends behind a backslash inside a string literal', 'the scanner runs over the end of the source',
     [c('  char *s = (char *) malloc(8); strcpy(s, "let a=\'"); s[6] = 39; s[7] = 0;\n  s = (char *) realloc(s, 9); s[7] = 92; s[8] = 0;\n  mjs_exec(mjs, s, NULL);\n  free(s);')])
seed('tok-comment-line', 'C20', [('src/mjs_tok.c', """        if (p->pos[0] == '\\n') p->line_no++;
        if (p->pos[0] == '*' && p->pos[1] == '/') {""", """        if (p->pos[0] == '\\n' && p->pos[1] != '*') p->line_no++;
        if (p->pos[0] == '*' && p->pos[1] == '/') {""")], CDEMO,
     'a block comment with a star at the start of a line', 'line numbers behind it are too small',
     [c('  mjs_val_t r = 0;\n  mjs_exec(mjs, "let a = 1; /* x\\n* y\\n*/ let u;\\nu.x.y;\\nlet b = 1;\\nlet c = 2;", &r);\n'
        '  if (mjs->stack_trace == NULL || strstr(mjs->stack_trace, ":4") == NULL) { printf("%s\\n", mjs->stack_trace); return 1; }')])
seed('err-keep-code', 'C21', [('src/mjs_core.c', """  if (mjs->error == MJS_OK) {
    mjs->error = err;
  }""", """  if (mjs->error == MJS_OK || err < mjs->error) {
    mjs->error = err;
  }""")], CDEMO, 'context with another, smaller code is added to an error', 'the first code is lost',
     [c('  mjs_set_errorf(mjs, MJS_TYPE_ERROR, "a");\n  mjs_prepend_errorf(mjs, MJS_SYNTAX_ERROR, "b");\n  if (mjs->error != MJS_TYPE_ERROR) return 1;\n  if (strcmp(mjs_strerror(mjs, mjs->error), "b: a") != 0) return 2;')])
seed('err-format-exact', 'C21', [('src/common/str_util.c', "} else if (len >= (int) size) {", "} else if (len > (int) size) {")], CDEMO,
     'a text exactly as long as the buffer offered for it', 'its last character is lost',
     [c('  char b[4], *p = b;\n  int n = mg_asprintf(&p, sizeof(b), "%s", "abcd");\n  if (n != 4 || memcmp(p, "abcd", 5) != 0) return 1;')])
