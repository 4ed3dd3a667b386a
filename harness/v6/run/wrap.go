//go:build wrapmalloc

package main

/*
#cgo LDFLAGS: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=free
#include <stddef.h>
#include <string.h>
static volatile long live;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { __sync_fetch_and_add(&live, 1); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { __sync_fetch_and_add(&live, 1); return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if (!p) __sync_fetch_and_add(&live, 1); return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) __sync_fetch_and_sub(&live, 1); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = __wrap_malloc(n); memcpy(r, s, n); return r; }
static long live_blocks(void) { return live; }
*/
import "C"
import "verif/h/sym"

func init() { sym.LiveBlocksFn = func() int { return int(C.live_blocks()) } }
