/* the table of live blocks is a plain array: replays allocate little */
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
struct vf_blk { char *p; size_t n; };
struct vf_blk vf_blks[65536];
int vf_nblk;
unsigned char vf_fail[4096]; /* vf_fail[i] != 0: the i-th allocation fails */
int vf_nalloc;
static int vf_find(void *p) { for (int i = vf_nblk - 1; i >= 0; i--) if (vf_blks[i].p == (char *) p) return i; return -1; }
void vf_register(void *p, size_t n) { if (vf_nblk < 65536) { vf_blks[vf_nblk].p = (char *) p; vf_blks[vf_nblk++].n = n; } }
static void vf_unreg(void *p) { int i = vf_find(p); if (i >= 0) vf_blks[i] = vf_blks[--vf_nblk]; }
static int vf_failing(void) { int i = vf_nalloc++; return i < 4096 && vf_fail[i]; }
void *vf_malloc(size_t n) { if (vf_failing() || n > ((size_t) 1 << 30)) return NULL; void *p = malloc(n); memset(p, 0xA5, n); vf_register(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { if (vf_failing() || (b && a > ((size_t) 1 << 30) / b)) return NULL; void *p = calloc(a, b); vf_register(p, a * b); return p; }
void vf_free(void *p) { if (p) { vf_unreg(p); free(p); } }
void *vf_realloc(void *p, size_t n) {
  if (!p) return vf_malloc(n);
  if (n == 0) { vf_free(p); return NULL; }
  if (vf_failing() || n > ((size_t) 1 << 30)) return NULL;
  int i = vf_find(p);
  void *q = malloc(n);
  if (i >= 0) { memset(q, 0xA5, n); memcpy(q, p, vf_blks[i].n < n ? vf_blks[i].n : n); vf_blks[i].p = (char *) q; vf_blks[i].n = n; free(p); }
  else { free(q); q = realloc(p, n); vf_register(q, n); }
  return q;
}
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) vf_malloc(n); if (p) memcpy(p, s, n); return p; }
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define strdup vf_strdup
