/* replay shim: records heap blocks and injects allocation failures; included before the real sources */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
void *vf_malloc(size_t n);
void *vf_calloc(size_t a, size_t b);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
char *vf_strdup(const char *s);
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#undef strdup
#define strdup vf_strdup
#endif
