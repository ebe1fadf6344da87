"""planted bugs for C06 and C10"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

seed('arr-splice-negcount', 'C10', [('src/mjs_array.c', '  } else if (delete_cnt < 0) {\n    delete_cnt = 0;', '  } else if (delete_cnt < -arr_len) {\n    delete_cnt = 0;')], JS,
     'splice with a small negative count', 'elements are moved too far',
     [js("""let a = [1, 2, 3, 4];
let r = a.splice(1, -2, 9);
ok(JSON.stringify(a) === '[1,9,2,3,4]', JSON.stringify(a));
ok(r.length === 0, r.length);""")])
seed('arr-length-large', 'C10', [('src/mjs_array.c', 'n < 0xffffffff', 'n < 0x7fffffff')], JS,
     'an element whose index is 2^31-1 or more', 'such elements do not count for the length',
     [js("""let a = [];
a[2147483646] = 1;
ok(a.length === 2147483647, a.length);
a[2147483648] = 2;
ok(a.length === 2147483649, a.length);""")])
seed('gc-check-end', 'C06', [('src/mjs_gc.c', 'if (p >= b->base && p < GC_CELL_OP(a, b->base, +, b->size)) {', 'if (p >= b->base && p <= GC_CELL_OP(a, b->base, +, b->size)) {')], CDEMO,
     'a pointer just behind the last cell of a block', 'it is taken for a cell',
     [c("""  struct gc_block *b = mjs->object_arena.blocks;
  if (gc_check_ptr(&mjs->object_arena, (char *) b->base + mjs->object_arena.cell_size * b->size)) return 1;""")])
seed('gc-zero-head', 'C06', [('src/mjs_gc.c', '  memset(r, 0, a->cell_size);\n  return', '  memset(r, 0, sizeof(*r));\n  return')], CDEMO,
     'a cell that was used before and freed without being cleared', 'a new cell has contents of the old one',
     [c("""  struct mjs_property *p = new_property(mjs);
  p->name = 5; p->value = 7;
  p->next = (struct mjs_property *) mjs->property_arena.free;
  mjs->property_arena.free = (struct gc_cell *) p;
  p = new_property(mjs);
  if (p->name != 0 || p->value != 0 || p->next != 0) return 1;""")])
seed('gc-need-late', 'C06', [('src/mjs_gc.c', 'for (i = 0; i <= GC_ARENA_CELLS_RESERVE; i++', 'for (i = 0; i < GC_ARENA_CELLS_RESERVE; i++')], CDEMO,
     'exactly two cells of an arena are left free', 'no collection is scheduled',
     [c("""  size_t n = 0, i; struct gc_cell *f;
  for (f = mjs->object_arena.free; f != NULL; f = f->head.link) n++;
  mjs->need_gc = 0;
  for (i = 0; i + 2 < n; i++) mjs_mk_object(mjs);
  if (!mjs->need_gc) return 1;""")])
seed('gc-cb-userdata', 'C07', [('src/mjs_gc.c', '    gc_mark(mjs, &cbargs->userdata);\n', '    if (cbargs->next != NULL) gc_mark(mjs, &cbargs->userdata);\n')], CDEMO,
     'a collection while a native library holds a script callback', 'the user data of the callback is freed',
     [c("""  ffi_cb_args_t *cb = calloc(1, sizeof(*cb));
  size_t n1 = 0; struct gc_cell *f;
  cb->func = mjs_mk_undefined(); cb->userdata = mjs_mk_object(mjs);
  mjs->ffi_cb_args = cb;
  mjs_gc(mjs, 0);
  for (f = mjs->object_arena.free; f != NULL; f = f->head.link) if ((void *) f == (void *) get_object_struct(cb->userdata)) return 1;""")])
