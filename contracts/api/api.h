#ifndef API_H
#define API_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <isl/ctx.h>
#include <isl/options.h>
typedef union { void *p; long i; } V;
enum { R_OBJ, R_BOOL, R_STAT, R_SIZE, R_STR, R_CSTR, R_OTHERP, R_OTHER, R_VOID };
enum { K_OBJ, K_OUT, K_OUTINT, K_STR, K_CTX, K_FILE, K_DIM, K_ENUM, K_INT };
struct type {
	const char *name;
	void *(*copy)(void *);
	void *(*free)(void *);
	int (*eq)(void *, void *);
	char *(*str)(void *);
	void *(*read)(isl_ctx *, const char *);
	int el;
	void *(*from_el)(void *);
	void *(*add_el)(void *, void *);
	isl_size (*size)(void *);
	void *(*get_at)(void *, int);
};
struct fn {
	const char *name;
	V (*call)(V *);
	int rk, rty, cb, n;
	struct { int kind, ty, take; } a[12];
};
extern struct type types[];
extern struct fn fns[];
extern int n_types, n_fns;
int cb_fails(void);
int cb_bool(void);
int cb_int(int same);
#endif
