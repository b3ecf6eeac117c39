/* contracts checked by CBMC (bounded) and replayed natively (-DREPLAY) */
#ifndef CB_COMMON_H
#define CB_COMMON_H
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#ifdef REPLAY
extern unsigned in_n;
extern char cb_where[200];		/* which of the contracts, in a history */
unsigned nd(void);			/* next recorded value */
#define ASSUME(c)	do { if (!(c)) { printf("assumption not met: line %d\n", __LINE__); exit(2); } } while (0)
#define ENSURE(c, what)	do { if (!(c)) { printf("FAILED %s%s\n", what, cb_where); exit(1); } } while (0)
#else
unsigned nondet_unsigned(void);
extern unsigned in_val[];
extern unsigned in_n;
unsigned nd(void);
#define ASSUME(c)	__CPROVER_assume(c)
#define ENSURE(c, what)	__CPROVER_assert(c, what)
#endif
#ifndef nd_below
static inline unsigned nd_below(unsigned n) { unsigned v = nd(); ASSUME(v < n); return v; }
#endif
#endif
