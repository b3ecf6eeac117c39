/* contract stubs: isl_ctx.c */
#include <stdlib.h>
#include <isl/ctx.h>
#include "common.h"
void *isl_malloc_or_die(isl_ctx *ctx, size_t size) { void *p = malloc(size); ASSUME(p != NULL); return p; }
void *isl_calloc_or_die(isl_ctx *ctx, size_t n, size_t size) { void *p = calloc(n, size); ASSUME(p != NULL); return p; }
void *isl_realloc_or_die(isl_ctx *ctx, void *ptr, size_t size) { void *p = realloc(ptr, size); ASSUME(p != NULL); return p; }
void isl_handle_error(isl_ctx *ctx, enum isl_error error, const char *msg, const char *file, int line) { ENSURE(0, "no isl error is raised"); }
isl_bool isl_bool_ok(int b) { return b ? isl_bool_true : isl_bool_false; }
#ifndef REPLAY
int ffs(int i) { int n; if (!i) return 0; for (n = 1; !(i & 1); ++n) i = (unsigned) i >> 1; return n; }
#endif
