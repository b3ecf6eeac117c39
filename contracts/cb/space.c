/* Contracts of isl_space.c.
 *
 * A space is described by its abstract value (struct A): number of dimensions of
 * each type, identifier of each dimension and tuple, and the values of the wrapped
 * relations in the tuples.  Every operation is specified by a function on such
 * values; the result of the operation on the real object has to have the specified
 * value, a request that is not allowed has to be rejected, and objects that
 * are shared keep their values.
 */
#include <string.h>
#include <isl/ctx.h>
#ifdef HISTORY
static unsigned rnd(unsigned n);
#define nd_below(n)	rnd(n)
#endif
#include "common.h"
#include "isl_space.c"
#ifdef WITH_REORDERING
#define offset offset2
#include "isl_reordering.c"
#undef offset
#endif

/* --- environment ---------------------------------------------------------- */
#define NIDS	64
#define LOCAL	62			/* tuple names used by isl_space_lift */
#define LIFTED	63
static isl_id idobj[NIDS];
isl_id isl_id_none;
static char names[NIDS][8];
static unsigned errors;
static int dummy_ctx;
#define CTX ((isl_ctx *) &dummy_ctx)
static int dummy_user;
static void init_env(void)
{
	unsigned i;
	for (i = 0; i < NIDS; ++i) {
		names[i][0] = 'a' + i / 10;
		names[i][1] = '0' + i % 10;
		names[i][2] = '\0';
		idobj[i].ref = 1;
		idobj[i].name = names[i];
		idobj[i].user = NULL;
		idobj[i].hash = 77 * i + 3;
	}
	isl_id_none.ref = -1;
	isl_id_none.hash = 5;
	errors = 0;
}
isl_id *isl_id_copy(isl_id *id) { return id; }
isl_id *isl_id_free(isl_id *id) { return NULL; }
void *isl_id_get_user(isl_id *id) { return id ? id->user : NULL; }
const char *isl_id_get_name(isl_id *id) { return id ? id->name : NULL; }
static int id_index(isl_id *id)
{
	if (!id)
		return -2;
	if (id == &isl_id_none)
		return -1;
	return id - idobj;
}
int isl_id_cmp(isl_id *a, isl_id *b) { return id_index(a) - id_index(b); }
uint32_t isl_hash_id(uint32_t hash, isl_id *id) { return id ? (hash * 31) ^ id->hash : hash; }
static isl_id *id_named(const char *name)
{
	if (name[0] == 'l')
		return &idobj[name[1] == 'o' ? LOCAL : LIFTED];
	return &idobj[(name[0] - 'a') * 10 + name[1] - '0'];
}
/* ids with an even index have a user pointer in some of the contracts, the next one stands for the one without */
isl_id *isl_id_alloc(isl_ctx *ctx, const char *name, void *user)
{
	isl_id *id = name ? id_named(name) : NULL;
	ENSURE(name && !user, "identifier is created from a name");
	return id->user ? id + 1 : id;
}
isl_ctx *isl_id_get_ctx(isl_id *id) { return CTX; }
void isl_ctx_ref(struct isl_ctx *ctx) { }
void isl_ctx_deref(struct isl_ctx *ctx) { }
void *isl_malloc_or_die(isl_ctx *ctx, size_t size) { void *p = malloc(size); ASSUME(p != NULL); return p; }
void *isl_calloc_or_die(isl_ctx *ctx, size_t n, size_t size) { void *p = calloc(n ? n : 1, size); ASSUME(p != NULL); return p; }
void *isl_realloc_or_die(isl_ctx *ctx, void *ptr, size_t size) { void *p = realloc(ptr, size); ASSUME(p != NULL); return p; }
void isl_handle_error(isl_ctx *ctx, enum isl_error error, const char *msg, const char *file, int line) { errors++; }
isl_bool isl_bool_ok(int b) { return b ? isl_bool_true : isl_bool_false; }
isl_bool isl_bool_not(isl_bool b) { return b < 0 ? isl_bool_error : b ? isl_bool_false : isl_bool_true; }
static isl_id *T_ids[4];		/* the elements of the only tuple of identifiers */
isl_size isl_multi_id_size(isl_multi_id *m) { return m->n; }
isl_id *isl_multi_id_get_at(isl_multi_id *m, int i) { return T_ids[i]; }
isl_id *isl_multi_id_get_id(isl_multi_id *m, int i) { return T_ids[i]; }
isl_space *isl_multi_id_peek_space(isl_multi_id *m) { return m->space; }
isl_space *isl_multi_id_get_space(isl_multi_id *m) { return isl_space_copy(m->space); }

/* --- abstract values --------------------------------------------------------- */
#define NONE	(&isl_id_none)
#define MAXD	9
typedef struct A {
	unsigned d[3];			/* param, in, out */
	isl_id *id[3][MAXD];
	isl_id *tid[2];
	struct A *nest[2];
} A;
static A *fresh(void)
{
	A *a = malloc(sizeof(*a));
	unsigned t, i;
	for (t = 0; t < 3; ++t) {
		ASSUME(a != NULL);
		a->d[t] = 0;
		for (i = 0; i < MAXD; ++i)
			a->id[t][i] = NULL;
	}
	a->tid[0] = a->tid[1] = NULL;
	a->nest[0] = a->nest[1] = NULL;
	return a;
}
static A *dupA(A *a)
{
	A *b;
	if (!a)
		return NULL;
	b = fresh();
	*b = *a;
	return b;
}
enum { P, I, O };
static enum isl_dim_type ty(int t) { return t == P ? isl_dim_param : t == I ? isl_dim_in : isl_dim_out; }

/* value of an object of known shape (so that the loops have known bounds) */
static A *val(isl_space *s)
{
	A *a;
	unsigned i, g = 0, t;
	if (!s)
		return NULL;
	ENSURE(s->ref >= 1 && s->ref < 10, "the object is alive");
	a = fresh();
	a->d[P] = s->nparam; a->d[I] = s->n_in; a->d[O] = s->n_out;
	ENSURE(a->d[P] <= MAXD && a->d[I] <= MAXD && a->d[O] <= MAXD, "number of dimensions");
	ENSURE(s->n_id <= a->d[P] + a->d[I] + a->d[O], "no identifiers beyond the dimensions");
	for (t = 0; t < 3; ++t)
		for (i = 0; i < a->d[t]; ++i, ++g)
			a->id[t][i] = g < s->n_id ? s->ids[g] : NULL;
	a->tid[0] = s->tuple_id[0]; a->tid[1] = s->tuple_id[1];
	a->nest[0] = val(s->nested[0]); a->nest[1] = val(s->nested[1]);
	return a;
}
static int eqA(A *a, A *b)
{
	unsigned t, i;
	if (!a || !b)
		return !a && !b;
	for (t = 0; t < 3; ++t) {
		if (a->d[t] != b->d[t])
			return 0;
		for (i = 0; i < a->d[t]; ++i)
			if (a->id[t][i] != b->id[t][i])
				return 0;
	}
	return a->tid[0] == b->tid[0] && a->tid[1] == b->tid[1] && eqA(a->nest[0], b->nest[0]) && eqA(a->nest[1], b->nest[1]);
}

/* --- arbitrary objects of a given shape --------------------------------------- */
/* shape: <nparam>:<rel>, rel: "" | tuple | tuple>tuple, tuple: <n> | [rel] */
#ifdef HISTORY
static unsigned NID;
#endif
#if !defined(NID) && !defined(HISTORY)
#define NID 99
#endif
static unsigned next_id;
static isl_id *any_id(void)
{
	unsigned k;
	isl_id *id;
	if (NID == 99) {
		/* all different */
#ifdef IDMASK
		/* which of them are missing: chosen for each run of the checker */
		return (IDMASK >> (next_id++ % 8)) & 1 ? &idobj[next_id] : NULL;
#endif
		ASSUME(next_id < 60);
		id = &idobj[next_id++];
		return nd_below(2) ? id : NULL;
	}
	k = nd_below(NID + 1);
	return k ? &idobj[k - 1] : NULL;
}
static isl_id *par[MAXD];
static const char *at;
static A *any_rel(unsigned np);
static void any_tuple(A *a, int t)
{
	unsigned i;
	if (*at == '[') {
		A *b;
		++at;
		b = any_rel(a->d[P]);
		++at;
		a->nest[t - 1] = b;
		a->d[t] = b->d[I] + b->d[O];
		/* the dimensions have the identifiers of the wrapped dimensions */
		for (i = 0; i < b->d[I]; ++i)
			a->id[t][i] = b->id[I][i];
		for (i = 0; i < b->d[O]; ++i)
			a->id[t][b->d[I] + i] = b->id[O][i];
	} else {
		a->d[t] = *at++ - '0';
		for (i = 0; i < a->d[t]; ++i)
			a->id[t][i] = any_id();
	}
	a->tid[t - 1] = any_id();
}
static A *any_rel(unsigned np)
{
	A *a = fresh();
	unsigned i;
	a->d[P] = np;
	for (i = 0; i < np; ++i)
		a->id[P][i] = par[i];
	if (*at == '\0' || *at == ']') {
		a->tid[0] = a->tid[1] = NONE;
		return a;
	}
	any_tuple(a, I);
	if (*at == '>') {
		++at;
		any_tuple(a, O);
		return a;
	}
	a->d[O] = a->d[I];
	a->d[I] = 0;
	for (i = 0; i < MAXD; ++i) {
		a->id[O][i] = a->id[I][i];
		a->id[I][i] = NULL;
	}
	a->tid[1] = a->tid[0];
	a->tid[0] = NONE;
	a->nest[1] = a->nest[0];
	a->nest[0] = NULL;
	return a;
}
/* the parameters: "same" those of the previous object */
static A *any(const char *shape, int same)
{
	unsigned np = shape[0] - '0', i;
	at = shape + 2;
	if (!same)
		for (i = 0; i < np; ++i) {
			unsigned j;
			par[i] = any_id();
			/* parameters have different identifiers */
			for (j = 0; j < i; ++j)
				if (par[i] == par[j])
					par[i] = NULL;
		}
	return any_rel(np);
}

/* objects: references held by somebody else, and what they look like */
static isl_space *held[32];
static A *held_val[32];
static unsigned n_held;
/* shared or not, and how identifiers are stored: chosen for each run of the checker */
#ifdef HISTORY
#define IS_HELD	nd_below(2)
#define REP	nd_below(3)
#else
#ifndef HELD
#define HELD 1
#endif
#ifndef REP
#define REP 1
#endif
#define IS_HELD HELD
#endif
static void hold(isl_space *s, A *a)
{
	if (IS_HELD) {
		s->ref++;
		held[n_held] = s;
		held_val[n_held++] = a;
	}
}
static isl_space *mk(A *a)
{
	isl_space *s;
	unsigned n, t, i, g = 0, some = 0, rep;

	if (!a)
		return NULL;
	s = malloc(sizeof(*s));
	ASSUME(s != NULL);
	s->ref = 1;
	s->ctx = CTX;
	s->nparam = a->d[P]; s->n_in = a->d[I]; s->n_out = a->d[O];
	s->tuple_id[0] = a->tid[0]; s->tuple_id[1] = a->tid[1];
	s->nested[0] = mk(a->nest[0]);
	s->nested[1] = mk(a->nest[1]);
	n = s->nparam + s->n_in + s->n_out;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < a->d[t]; ++i)
			some |= a->id[t][i] != NULL;
	/* identifiers are stored for all dimensions or for none */
	rep = REP;
#ifdef HISTORY
	if (some)
		rep = 1;
#endif
	ASSUME(rep == 1 || !some);
	if (rep) {
		s->ids = calloc(n ? n : 1, sizeof(isl_id *));
		ASSUME(s->ids != NULL);
		s->n_id = rep == 1 ? n : 0;
		for (t = 0; t < 3; ++t)
			for (i = 0; i < a->d[t]; ++i, ++g)
				if (rep == 1)
					s->ids[g] = a->id[t][i];
	} else {
		s->ids = NULL;
		s->n_id = 0;
	}
	hold(s, a);
	return s;
}
static void check_held(void)
{
	unsigned i;
	for (i = 0; i < n_held; ++i)
		ENSURE(eqA(val(held[i]), held_val[i]), "an object that is shared is left alone");
}
/* the result of an operation: "b" is the specified value, NULL for a request that is rejected */
static void result(isl_space *s, A *b)
{
	A *a = val(s);
	ENSURE(!b || a, "request is carried out");
	ENSURE(!b || errors == 0, "no error is raised");
	ENSURE(b || !a, "request is rejected");
	ENSURE(b || errors != 0, "rejection raises an error");
	ENSURE(!a || !s->n_id || s->ids, "identifiers are stored");
	ENSURE(eqA(a, b), "value of the result");
	check_held();
}
/* a yes/no answer: v < 0 rejected */
static void answer(int r, int v)
{
	ENSURE(v < 0 ? r < 0 : r == v, "answer");
	ENSURE(v < 0 || errors == 0, "no error is raised");
	ENSURE(v >= 0 || errors != 0, "rejection raises an error");
	check_held();
}
static void answer_id(isl_id *r, int ok, isl_id *v)
{
	ENSURE(ok ? r == v : !r, "identifier");
	ENSURE(!ok || errors == 0, "no error is raised");
	ENSURE(ok || errors != 0, "rejection raises an error");
	check_held();
}
static void same_value(isl_space *s, A *a)
{
	ENSURE(eqA(val(s), a), "the argument is left alone");
}

/* --- specification: operations on values ----------------------------------------- */
static int is_set(A *a) { return a->d[I] == 0 && !a->nest[0] && a->tid[0] == NONE; }
static int is_map(A *a) { return a->tid[0] != NONE && a->tid[1] != NONE; }
static int is_params(A *a) { return is_set(a) && a->d[O] == 0 && !a->nest[1] && a->tid[1] == NONE; }
static int is_wrapping(A *a) { return is_set(a) && a->nest[1] != NULL; }
static int dom_wrapping(A *a) { return !is_set(a) && a->nest[0] != NULL; }
static int ran_wrapping(A *a) { return !is_set(a) && a->nest[1] != NULL; }
static int is_product(A *a) { return is_set(a) ? is_wrapping(a) : dom_wrapping(a) && ran_wrapping(a); }
static int eq_tuples(A *a, A *b);
static int tuple_eq(A *a, int t, A *b, int u)
{
	if (a->d[t] != b->d[u])
		return 0;
	if (t == P || u == P)
		return (t == P ? 1 : !a->tid[t - 1] && !a->nest[t - 1]) && (u == P ? 1 : !b->tid[u - 1] && !b->nest[u - 1]);
	if (a->tid[t - 1] != b->tid[u - 1])
		return 0;
	if (!a->nest[t - 1] != !b->nest[u - 1])
		return 0;
	return !a->nest[t - 1] || eq_tuples(a->nest[t - 1], b->nest[u - 1]);
}
static int eq_tuples(A *a, A *b) { return tuple_eq(a, I, b, I) && tuple_eq(a, O, b, O); }
static int eq_ids(A *a, int t, A *b, int u)
{
	unsigned i;
	for (i = 0; i < a->d[t]; ++i)
		if (a->id[t][i] != b->id[u][i])
			return 0;
	return 1;
}
static int eq_params(A *a, A *b) { return a->d[P] == b->d[P] && eq_ids(a, P, b, P); }
static int named_params(A *a)
{
	unsigned i;
	for (i = 0; i < a->d[P]; ++i)
		if (!a->id[P][i])
			return 0;
	return 1;
}
static A *s_reset(A *a, int t)
{
	a = dupA(a);
	if (t != P) {
		a->tid[t - 1] = NULL;
		a->nest[t - 1] = NULL;
	}
	return a;
}
static A *s_nested(A *a, A *(*f)(A *, int, int, int), int x, int y, int z)
{
	int i;
	for (i = 0; i < 2; ++i)
		if (a->nest[i])
			a->nest[i] = f(a->nest[i], x, y, z);
	return a;
}
static A *s_insert(A *a, int t, int pos, int n)
{
	int i, m = a->d[t];
	if (pos > m)
		return NULL;
	a = s_reset(a, t);
	for (i = m - 1; i >= pos; --i)
		a->id[t][i + n] = a->id[t][i];
	for (i = 0; i < n; ++i)
		a->id[t][pos + i] = NULL;
	a->d[t] += n;
	return t == P ? s_nested(a, &s_insert, t, pos, n) : a;
}
static A *s_add(A *a, int t, int n) { return s_insert(a, t, a->d[t], n); }
static A *s_drop(A *a, int t, int pos, int n)
{
	int i, m = a->d[t];
	if (pos + n > m)
		return NULL;
	a = s_reset(a, t);
	for (i = pos; i + n < m; ++i)
		a->id[t][i] = a->id[t][i + n];
	for (i = m - n; i < m; ++i)
		a->id[t][i] = NULL;
	a->d[t] -= n;
	return t == P ? s_nested(a, &s_drop, t, pos, n) : a;
}
static A *s_id(A *a, int t, int pos, int k)
{
	if (pos >= a->d[t])
		return NULL;
	a = dupA(a);
	a->id[t][pos] = k < 0 ? NULL : &idobj[k];
	return t == P ? s_nested(a, &s_id, t, pos, k) : a;
}
static A *s_params_of(A *a, A *b)
{
	int i;
	a = dupA(a);
	a->d[P] = b->d[P];
	for (i = 0; i < MAXD; ++i)
		a->id[P][i] = b->id[P][i];
	for (i = 0; i < 2; ++i)
		if (a->nest[i])
			a->nest[i] = s_params_of(a->nest[i], b);
	return a;
}
static A *s_move(A *a, int dt, int dp, int st, int sp, int n)
{
	A *b = s_reset(s_reset(a, st), dt);
	int i;
	if (n == 0)
		return b;
	if (sp + n > a->d[st] || dt == st || dp > a->d[dt])
		return dt == st && dp == sp && sp + n <= a->d[st] ? b : NULL;
	for (i = (int) a->d[dt] - 1; i >= dp; --i)
		b->id[dt][i + n] = a->id[dt][i];
	for (i = 0; i < n; ++i)
		b->id[dt][dp + i] = a->id[st][sp + i];
	for (i = sp; i < MAXD; ++i)
		b->id[st][i] = i + n < a->d[st] ? a->id[st][i + n] : NULL;
	b->d[dt] += n;
	b->d[st] -= n;
	for (i = 0; i < 2; ++i)
		if (b->nest[i])
			b->nest[i] = s_params_of(b->nest[i], b);
	return b;
}
/* tuple t of a becomes tuple u of r */
static void put(A *r, int u, A *a, int t)
{
	unsigned i;
	r->d[u] = a->d[t];
	for (i = 0; i < MAXD; ++i)
		r->id[u][i] = i < a->d[t] ? a->id[t][i] : NULL;
	if (u == P)
		return;
	r->tid[u - 1] = a->tid[t - 1];
	r->nest[u - 1] = a->nest[t - 1];
}
static A *s_map(A *a, int t, A *b, int u)
{
	A *r = fresh();
	put(r, P, a, P);
	put(r, I, a, t);
	put(r, O, b, u);
	return r;
}
static A *s_set(A *a, int t)
{
	A *r = fresh();
	put(r, P, a, P);
	put(r, O, a, t);
	r->tid[0] = NONE;
	return r;
}
static A *s_wrap(A *a)
{
	A *r = fresh();
	unsigned i;
	put(r, P, a, P);
	r->d[O] = a->d[I] + a->d[O];
	for (i = 0; i < a->d[I]; ++i)
		r->id[O][i] = a->id[I][i];
	for (i = 0; i < a->d[O]; ++i)
		r->id[O][a->d[I] + i] = a->id[O][i];
	r->tid[0] = NONE;
	r->nest[1] = a;
	return r;
}
static A *s_params(A *a)
{
	A *r = fresh();
	put(r, P, a, P);
	r->tid[0] = r->tid[1] = NONE;
	return r;
}
static A *s_reverse(A *a) { return s_map(a, O, a, I); }
static A *s_join(A *a, A *b) { return eq_params(a, b) && tuple_eq(a, O, b, I) ? s_map(a, I, b, O) : NULL; }
/* one of the factors (k) of tuple t */
static A *s_factor(A *a, int t, int k)
{
	A *r, *m = a->nest[t - 1];
	unsigned i, off = k == I ? 0 : m->d[I];
	r = dupA(a);
	put(r, t, m, k);
	for (i = 0; i < MAXD; ++i)
		r->id[t][i] = i < m->d[k] ? a->id[t][off + i] : NULL;
	return r;
}
static A *s_factors(A *a, int k)
{
	if (!is_product(a))
		return NULL;
	if (is_set(a))
		return s_factor(a, O, k);
	return s_factor(s_factor(a, I, k), O, k);
}
static int find(A *a, int t, isl_id *id)
{
	unsigned i;
	for (i = 0; i < a->d[t]; ++i)
		if (id && a->id[t][i] == id)
			return i;
	return -1;
}
static A *s_align(A *a, A *b)
{
	A *p = fresh();
	unsigned i;
	if (!named_params(a) || !named_params(b))
		return NULL;
	put(p, P, b, P);
	for (i = 0; i < a->d[P]; ++i)
		if (find(b, P, a->id[P][i]) < 0)
			p->id[P][p->d[P]++] = a->id[P][i];
	return s_params_of(a, p);
}

#ifdef HISTORY
#define SAMEPAR	nd_below(2)
static int X0, X1, X2, X3, X4;
static const char *SH1, *SH2;
static int HISTALIAS;
#define ALIAS HISTALIAS
#else
#ifndef SAMEPAR
#define SAMEPAR 1
#endif
#ifndef X0
#define X0 0
#endif
#ifndef X1
#define X1 0
#endif
#ifndef X2
#define X2 0
#endif
#ifndef X3
#define X3 0
#endif
#ifndef X4
#define X4 0
#endif
#ifndef SH2
#define SH2 SH1
#endif
#ifndef ALIAS
#define ALIAS 0
#endif
#endif
#define ONE	A *a = any(SH1, 0); isl_space *s = mk(a)
#define TWO_(same)							\
	A *a = any(SH1, 0), *b = ALIAS ? a : any(SH2, same);		\
	isl_space *s = mk(a), *s2 = ALIAS ? isl_space_copy(s) : mk(b)
#define TWO	TWO_(0)
#define TWOP	TWO_(SH1[0] == SH2[0] && SAMEPAR)
#ifndef HISTORY
/* --- contracts of internal functions, which replace them in their callers ---- */
/* identifiers are stored for all dimensions */
static void store_ids(isl_space *s)
{
	unsigned i, n = s->nparam + s->n_in + s->n_out;
	isl_id **ids;
	if (s->n_id == n && s->ids)
		return;
	ids = malloc((n ? n : 1) * sizeof(isl_id *));
	ASSUME(ids != NULL);
	for (i = 0; i < n; ++i)
		ids[i] = i < s->n_id ? s->ids[i] : NULL;
	free(s->ids);
	s->ids = ids;
	s->n_id = n;
}
/* a new object with the same value and the same wrapped relations */
isl_space *dup_contract(isl_space *s)
{
	isl_space *r = malloc(sizeof(*r));
	ASSUME(r != NULL);
	*r = *s;
	r->ref = 1;
	r->ids = NULL;
	r->n_id = 0;
	isl_space_copy(r->nested[0]);
	isl_space_copy(r->nested[1]);
	if (s->ids) {
		unsigned i;
		store_ids(r);
		for (i = 0; i < s->n_id; ++i)
			r->ids[i] = s->ids[i];
	}
	return r;
}
/* the dimensions of dst get the identifiers of those of src that have one */
isl_space *copy_ids_contract(isl_space *dst, enum isl_dim_type dst_type, unsigned off, isl_space *src, enum isl_dim_type src_type)
{
	unsigned i, n, so, dof;
	if (!dst)
		return NULL;
	so = src_type == isl_dim_param ? 0 : src_type == isl_dim_in ? src->nparam : src->nparam + src->n_in;
	n = src_type == isl_dim_param ? src->nparam : src_type == isl_dim_in ? src->n_in : src->n_out;
	dof = dst_type == isl_dim_param ? 0 : dst_type == isl_dim_in ? dst->nparam : dst->nparam + dst->n_in;
	ENSURE(n + off <= (dst_type == isl_dim_param ? dst->nparam : dst_type == isl_dim_in ? dst->n_in : dst->n_out), "the dimensions exist");
	ENSURE(dst->ref == 1, "the only reference");
	if (!src->n_id)
		return dst;
	store_ids(dst);
	for (i = 0; i < n; ++i)
		if (src->ids[so + i])
			dst->ids[dof + off + i] = src->ids[so + i];
	return dst;
}
static void op_copy_ids(void)
{
	ONE;
	A *b = any(SH2, 0), *r = dupA(a);
	isl_space *s2 = mk(b);
	unsigned i;
	if (s->ref != 1 || X2 + b->d[X1] > a->d[X0])
		return;
	for (i = 0; i < b->d[X1]; ++i)
		if (b->id[X1][i])
			r->id[X0][X2 + i] = b->id[X1][i];
	result(copy_ids(s, ty(X0), X2, s2, ty(X1)), r);
	same_value(s2, b);
}
#endif

/* --- contracts ----------------------------------------------------------------------- */
/* a tuple of the kind exists: sets only have an output, parameter spaces no tuples */
#define HAS(a, t) ((t) == P || is_map(a) || ((t) == O && !is_params(a)))

static void op_alloc(void)
{
	A *b = fresh();
	b->d[P] = X0; b->d[I] = X1; b->d[O] = X2;
	result(isl_space_alloc(CTX, X0, X1, X2), b);
	b = fresh();
	b->d[P] = X0; b->d[O] = X2; b->tid[0] = NONE;
	result(isl_space_set_alloc(CTX, X0, X2), b);
	b->d[O] = 0; b->tid[1] = NONE;
	result(isl_space_params_alloc(CTX, X0), b);
	b->d[P] = 0;
	result(isl_space_unit(CTX), b);
}
static void op_dup(void) { ONE; isl_space *r = isl_space_dup(s); result(r, a); same_value(s, a); ENSURE(r != s && r->ref == 1, "a duplicate"); }
static void op_cow(void) { ONE; isl_space *r = isl_space_cow(s); result(r, a); ENSURE(r->ref == 1, "the only reference"); }
static void op_copy(void) { ONE; int ref = s->ref; isl_space *r = isl_space_copy(s); result(r, a); ENSURE(r == s && s->ref == ref + 1, "a reference"); }
static void op_dim(void)
{
	ONE;
	answer(isl_space_dim(s, isl_dim_param), a->d[P]);
	answer(isl_space_dim(s, isl_dim_in), a->d[I]);
	answer(isl_space_dim(s, isl_dim_out), a->d[O]);
	answer(isl_space_dim(s, isl_dim_all), a->d[P] + a->d[I] + a->d[O]);
	answer(isl_space_offset(s, isl_dim_param), 0);
	answer(isl_space_offset(s, isl_dim_in), a->d[P]);
	answer(isl_space_offset(s, isl_dim_out), a->d[P] + a->d[I]);
	same_value(s, a);
}
static void op_wrapped_dim(void)
{
	ONE;
	A *m = X0 == P ? NULL : a->nest[X0 - 1];
	answer(isl_space_wrapped_dim(s, ty(X0), ty(X1)), m ? (int) m->d[X1] : -1);
	same_value(s, a);
}
static void op_set_dim_id(void)
{
	ONE;
	int k = nd_below(12);
	result(isl_space_set_dim_id(s, ty(X0), X1, &idobj[k]), s_id(a, X0, X1, k));
}
static void op_set_dim_name(void)
{
	ONE;
	int k = nd_below(3);
	result(isl_space_set_dim_name(s, ty(X0), X1, k == 2 ? NULL : names[k]), s_id(a, X0, X1, k == 2 ? -1 : k));
}
static void op_reset_dim_id(void) { ONE; result(isl_space_reset_dim_id(s, ty(X0), X1), s_id(a, X0, X1, -1)); }
static void op_get_dim_id(void)
{
	ONE;
	int ok = X1 < a->d[X0];
	isl_id *id = ok ? a->id[X0][X1] : NULL;
	if (ok) {
		answer(isl_space_has_dim_id(s, ty(X0), X1), id != NULL);
		answer(isl_space_has_dim_name(s, ty(X0), X1), id != NULL);
		ENSURE(isl_space_get_dim_name(s, ty(X0), X1) == (id ? id->name : NULL), "name");
	}
	answer_id(isl_space_get_dim_id(s, ty(X0), X1), id != NULL, id);
	same_value(s, a);
}
static void op_find_dim(void)
{
	ONE;
	int k = nd_below(12);
	int v = find(a, X0, &idobj[k]);
	ENSURE(isl_space_find_dim_by_id(s, ty(X0), &idobj[k]) == v, "position of the identifier");
	ENSURE(isl_space_find_dim_by_name(s, ty(X0), names[k]) == v, "position of the name");
	same_value(s, a);
}
static int tuple_ok(A *a, int t) { return t != P && !is_params(a) && !(is_set(a) && t != O); }
static void op_tuple_id(void)
{
	ONE;
	int ok = tuple_ok(a, X0);
	isl_id *id = ok ? a->tid[X0 - 1] : NULL;
	answer(isl_space_has_tuple_id(s, ty(X0)), ok ? id != NULL : -1);
	if (ok)
		ENSURE(isl_space_get_tuple_name(s, ty(X0)) == (id ? id->name : NULL), "name of the tuple");
	answer_id(isl_space_get_tuple_id(s, ty(X0)), id != NULL, id);
	same_value(s, a);
}
static void op_map_tuple_id(void)
{
	ONE;
	isl_id *id = is_map(a) ? a->tid[X0] : NULL;
	answer(X0 ? isl_space_has_range_tuple_id(s) : isl_space_has_domain_tuple_id(s), is_map(a) ? id != NULL : -1);
	answer_id(X0 ? isl_space_get_range_tuple_id(s) : isl_space_get_domain_tuple_id(s), id != NULL, id);
	same_value(s, a);
}
static A *s_tuple_id(A *a, int t, isl_id *id)
{
	if (t == P)
		return NULL;
	a = dupA(a);
	a->tid[t - 1] = id;
	return a;
}
static void op_set_tuple_id(void) { ONE; isl_id *id = &idobj[nd_below(12)]; result(isl_space_set_tuple_id(s, ty(X0), id), s_tuple_id(a, X0, id)); }
static void op_set_tuple_name(void)
{
	ONE;
	int k = nd_below(3);
	result(isl_space_set_tuple_name(s, ty(X0), k == 2 ? NULL : names[k]), s_tuple_id(a, X0, k == 2 ? NULL : &idobj[k]));
}
static void op_reset_tuple_id(void) { ONE; result(isl_space_reset_tuple_id(s, ty(X0)), s_tuple_id(a, X0, NULL)); }
static void op_set_domain_tuple_id(void) { ONE; isl_id *id = &idobj[nd_below(12)]; result(isl_space_set_domain_tuple_id(s, id), is_map(a) ? s_tuple_id(a, I, id) : NULL); }
static void op_set_range_tuple_id(void) { ONE; isl_id *id = &idobj[nd_below(12)]; result(isl_space_set_range_tuple_id(s, id), is_map(a) ? s_tuple_id(a, O, id) : NULL); }
static A *s_reset_user(A *a)
{
	unsigned i, k;
	a = dupA(a);
	for (i = 0; i < a->d[P]; ++i)
		if (a->id[P][i] && a->id[P][i]->user)
			a->id[P][i]++;
	for (i = 0; i < 2; ++i) {
		if (a->tid[i] && a->tid[i]->user)
			a->tid[i]++;
		if (a->nest[i])
			a->nest[i] = s_reset_user(a->nest[i]);
	}
	return a;
}
static void op_reset_user(void)
{
	unsigned i;
	for (i = 0; i < 62; i += 2)
		idobj[i].user = &dummy_user;
	ONE;
	result(isl_space_reset_user(s), s_reset_user(a));
}
static void op_add_dims(void) { ONE; result(isl_space_add_dims(s, ty(X0), X1), s_add(a, X0, X1)); }
static void op_insert_dims(void) { ONE; result(isl_space_insert_dims(s, ty(X0), X1, X2), X2 ? s_insert(a, X0, X1, X2) : s_reset(a, X0)); }
static void op_drop_dims(void) { ONE; result(isl_space_drop_dims(s, ty(X0), X1, X2), X2 ? s_drop(a, X0, X1, X2) : s_reset(a, X0)); }
static void op_drop_inputs(void) { ONE; result(isl_space_drop_inputs(s, X1, X2), X2 ? s_drop(a, I, X1, X2) : s_reset(a, I)); }
static void op_drop_outputs(void) { ONE; result(isl_space_drop_outputs(s, X1, X2), X2 ? s_drop(a, O, X1, X2) : s_reset(a, O)); }
static void op_drop_all_params(void) { ONE; result(isl_space_drop_all_params(s), s_drop(a, P, 0, a->d[P])); }
static void op_move_dims(void) { ONE; result(isl_space_move_dims(s, ty(X0), X1, ty(X2), X3, X4), s_move(a, X0, X1, X2, X3, X4)); }
static void op_extend(void)
{
	ONE;
	A *b = dupA(a);
	if (!a->nest[0] && !a->nest[1]) {
		b->d[P] += X0;
		b->d[I] += is_map(a) ? X1 : 0;
		b->d[O] += is_params(a) ? 0 : X2;
	}
	result(isl_space_extend(s, b->d[P], b->d[I], b->d[O]), b);
}
static void op_add_param_id(void)
{
	ONE;
	int k = 2 * X0;
	A *b = find(a, P, &idobj[k]) >= 0 ? a : s_id(s_add(a, P, 1), P, a->d[P], k);
	result(isl_space_add_param_id(s, &idobj[k]), b);
}
static void op_reset(void) { ONE; result(isl_space_reset(s, ty(X0)), s_reset(a, X0)); }
static void op_flatten(void) { ONE; A *b = a->nest[0] ? s_reset(a, I) : a; result(isl_space_flatten(s), a->nest[1] ? s_reset(b, O) : b); }
static void op_flatten_domain(void) { ONE; result(isl_space_flatten_domain(s), a->nest[0] ? s_reset(a, I) : a); }
static void op_flatten_range(void) { ONE; result(isl_space_flatten_range(s), a->nest[1] ? s_reset(a, O) : a); }
static void op_wrap(void) { ONE; result(isl_space_wrap(s), s_wrap(a)); }
static void op_unwrap(void) { ONE; result(isl_space_unwrap(s), is_wrapping(a) ? a->nest[1] : NULL); }
static void op_domain(void) { ONE; result(isl_space_domain(s), s_set(a, I)); }
static void op_range(void) { ONE; result(isl_space_range(s), s_set(a, O)); }
static void op_params(void) { ONE; result(isl_space_params(s), s_params(a)); }
static void op_from_domain(void)
{
	ONE;
	A *b = fresh();
	put(b, P, a, P);
	put(b, I, a, O);
	result(isl_space_from_domain(s), is_set(a) ? b : NULL);
}
static void op_from_range(void) { ONE; A *b = dupA(a); b->tid[0] = NULL; result(isl_space_from_range(s), is_set(a) ? b : NULL); }
static void op_set_from_params(void) { ONE; A *b = dupA(a); b->tid[1] = NULL; result(isl_space_set_from_params(s), is_params(a) ? b : NULL); }
static void op_map_from_set(void) { ONE; result(isl_space_map_from_set(s), is_set(a) ? s_map(a, O, a, O) : NULL); }
static void op_domain_map(void) { ONE; result(isl_space_domain_map(s), s_map(s_wrap(a), O, a, I)); }
static void op_range_map(void) { ONE; result(isl_space_range_map(s), s_map(s_wrap(a), O, a, O)); }
static void op_reverse(void) { ONE; result(isl_space_reverse(s), s_reverse(a)); }
static void op_range_reverse(void)
{
	ONE;
	A *b = NULL, *m = a->nest[1], *w;
	unsigned i;
	if (ran_wrapping(a)) {
		b = dupA(a);
		w = s_wrap(s_reverse(m));
		put(b, O, w, O);
		b->tid[1] = tuple_eq(m, I, m, O) ? a->tid[1] : NULL;
	}
	result(isl_space_range_reverse(s), b);
}
static void op_join(void) { TWOP; result(isl_space_join(s, s2), s_join(a, b)); }
static void op_map_from_domain_and_range(void)
{
	TWOP;
	result(isl_space_map_from_domain_and_range(s, s2), is_set(a) && is_set(b) && eq_params(a, b) ? s_map(a, O, b, O) : NULL);
}
static A *s_range_product(A *a, A *b)
{
	A *r;
	if (!eq_params(a, b) || !tuple_eq(a, I, b, I))
		return NULL;
	r = dupA(a);
	put(r, O, s_wrap(s_map(a, O, b, O)), O);
	return r;
}
static void op_range_product(void) { TWOP; result(isl_space_range_product(s, s2), s_range_product(a, b)); }
static void op_domain_product(void)
{
	TWOP;
	A *r = NULL;
	if (eq_params(a, b) && tuple_eq(a, O, b, O)) {
		r = dupA(a);
		put(r, I, s_wrap(s_map(a, I, b, I)), O);
	}
	result(isl_space_domain_product(s, s2), r);
}
static void op_product(void)
{
	TWOP;
	A *r = NULL;
	if (is_set(a) == is_set(b) && eq_params(a, b))
		r = is_set(a) ? s_range_product(a, b) : s_map(s_wrap(s_map(a, I, b, I)), O, s_wrap(s_map(a, O, b, O)), O);
	result(isl_space_product(s, s2), r);
}
static void op_domain_factor_domain(void) { ONE; result(isl_space_domain_factor_domain(s), dom_wrapping(a) ? s_factor(a, I, I) : NULL); }
static void op_domain_factor_range(void) { ONE; result(isl_space_domain_factor_range(s), dom_wrapping(a) ? s_factor(a, I, O) : NULL); }
static void op_range_factor_domain(void) { ONE; result(isl_space_range_factor_domain(s), ran_wrapping(a) ? s_factor(a, O, I) : NULL); }
static void op_range_factor_range(void) { ONE; result(isl_space_range_factor_range(s), ran_wrapping(a) ? s_factor(a, O, O) : NULL); }
static void op_factor_domain(void) { ONE; result(isl_space_factor_domain(s), s_factors(a, I)); }
static void op_factor_range(void) { ONE; result(isl_space_factor_range(s), s_factors(a, O)); }
static void op_domain_wrapped_domain(void) { ONE; result(isl_space_domain_wrapped_domain(s), a->nest[0] ? s_factor(s_set(a, I), O, I) : NULL); }
static void op_domain_wrapped_range(void) { ONE; result(isl_space_domain_wrapped_range(s), a->nest[0] ? s_factor(s_set(a, I), O, O) : NULL); }
static void op_range_wrapped_domain(void) { ONE; result(isl_space_range_wrapped_domain(s), a->nest[1] ? s_factor(s_set(a, O), O, I) : NULL); }
static void op_range_wrapped_range(void) { ONE; result(isl_space_range_wrapped_range(s), a->nest[1] ? s_factor(s_set(a, O), O, O) : NULL); }
static void op_zip(void)
{
	ONE;
	A *m = a->nest[0], *k = a->nest[1];
	result(isl_space_zip(s), !is_set(a) && m && k ? s_map(s_wrap(s_map(m, I, k, I)), O, s_wrap(s_map(m, O, k, O)), O) : NULL);
}
static A *s_curry(A *a) { A *m = a->nest[0]; return s_map(m, I, s_wrap(s_map(m, O, a, O)), O); }
static void op_curry(void) { ONE; result(isl_space_curry(s), dom_wrapping(a) ? s_curry(a) : NULL); }
static void op_uncurry(void) { ONE; A *m = a->nest[1]; result(isl_space_uncurry(s), ran_wrapping(a) ? s_map(s_wrap(s_map(a, I, m, I)), O, m, O) : NULL); }
static void op_range_curry(void)
{
	ONE;
	A *b = NULL;
	if (ran_wrapping(a) && dom_wrapping(a->nest[1])) {
		b = dupA(a);
		b->nest[1] = s_curry(a->nest[1]);
	}
	result(isl_space_range_curry(s), b);
}
static void op_replace_params(void) { TWO; result(isl_space_replace_params(s, s2), s_params_of(a, b)); same_value(s2, b); }
static void op_copy_ids_if_unset(void)
{
	TWO;
	A *r = dupA(a);
	unsigned i;
	if (a->d[X0] == b->d[X1])
		for (i = 0; i < a->d[X0]; ++i)
			if (!a->id[X0][i] && b->id[X1][i])
				r = s_id(r, X0, i, id_index(b->id[X1][i]));
	if (a->d[X0] == b->d[X1])
		result(isl_space_copy_ids_if_unset(s, ty(X0), s2, ty(X1)), r);
	same_value(s2, b);
}
static void op_underlying(void)
{
	ONE;
	A *r = fresh();
	r->d[O] = a->d[P] + a->d[I] + a->d[O] + X0;
	r->tid[0] = NONE;
	result(isl_space_underlying(s, X0), r);
}
static void op_lift(void)
{
	ONE;
	A *l = fresh(), *r;
	put(l, P, a, P);
	l->d[O] = X0;
	l->tid[1] = &idobj[LOCAL];
	if (is_set(a) && !is_params(a)) {
		r = s_wrap(s_map(a, O, l, O));
		r->tid[1] = &idobj[LIFTED];
		result(isl_space_lift(s, X0), r);
	}
}
static A *s_add_tuple(A *a, int n, isl_id *id)
{
	A *r = fresh();
	put(r, P, a, P);
	if (is_params(a))
		r->tid[0] = NONE;
	else if (is_set(a))
		put(r, I, a, O);
	else
		return NULL;
	r->d[O] = n;
	r->tid[1] = id;
	return r;
}
static void op_add_unnamed_tuple(void) { ONE; result(isl_space_add_unnamed_tuple_ui(s, X0), s_add_tuple(a, X0, NULL)); }
static void op_add_named_tuple(void) { ONE; isl_id *id = &idobj[nd_below(12)]; result(isl_space_add_named_tuple_id_ui(s, id, X0), s_add_tuple(a, X0, id)); }

static isl_multi_id T;
static void tuple_of(A *b)
{
	unsigned i;
	T.space = mk(b);
	T.n = b->d[O];
	ASSUME(T.n <= 4);
	for (i = 0; i < T.n; ++i)
#ifdef HISTORY
		T_ids[i] = &idobj[nd_below(10)];
#else
		T_ids[i] = &idobj[i + (X0 == 0 ? 1 : X0 == 1 ? 2 : 30)];
#endif
	/* the identifiers in a tuple are different */
	for (i = 1; i < T.n; ++i)
		if (T_ids[i] == T_ids[0])
			T_ids[i] = &idobj[10 + i];
	for (i = 2; i < T.n; ++i)
		if (T_ids[i] == T_ids[1])
			T_ids[i] = &idobj[14 + i];
}
static A *s_bind(A *r, A *a)
{
	unsigned i;
	for (i = 0; i < T.n; ++i)
		if (find(a, P, T_ids[i]) >= 0)
			return NULL;
	r = s_add(r, P, T.n);
	for (i = 0; i < T.n; ++i)
		r = s_id(r, P, a->d[P] + i, id_index(T_ids[i]));
	return r;
}
static void op_bind_set(void)
{
	A *a = any(SH1, 0), *b = X1 ? any(SH2, 0) : a;
	if (is_params(b) || !is_set(b))
		b = s_set(b, O), b->tid[1] = NULL;
	tuple_of(b);
	result(isl_space_bind_set(mk(a), &T), is_set(a) && eq_tuples(a, b) ? s_bind(s_params(a), a) : NULL);
}
static void op_bind_map_domain(void)
{
	A *a = any(SH1, 0), *b = X1 ? any(SH2, 0) : is_map(a) ? s_set(a, I) : a;
	if (is_params(b) || !is_set(b))
		b = s_set(b, O), b->tid[1] = NULL;
	tuple_of(b);
	result(isl_space_bind_map_domain(mk(a), &T), is_map(a) && tuple_eq(b, O, a, I) ? s_bind(s_set(a, O), a) : NULL);
}
static void op_bind_domain_wrapped_domain(void)
{
	A *a = any(SH1, 0), *b = X1 ? any(SH2, 0) : is_map(a) && a->nest[0] ? s_set(a->nest[0], I) : a;
	if (is_params(b) || !is_set(b))
		b = s_set(b, O), b->tid[1] = NULL;
	tuple_of(b);
	result(isl_space_bind_domain_wrapped_domain(mk(a), &T), is_map(a) && a->nest[0] && tuple_eq(b, O, a->nest[0], I) ?
		s_bind(s_factor(a, I, O), a) : NULL);
}
static void op_unbind_params_insert_domain(void)
{
	A *a = any(SH1, 0), *b = any(SH2, 0), *r = a;
	unsigned i;
	if (is_map(a))
		a = r = s_set(a, O);
	if (is_params(b) || !is_set(b))
		b = s_set(b, O), b->tid[1] = NULL;
	tuple_of(b);
	for (i = 0; i < T.n; ++i) {
		int p = find(r, P, T_ids[i]);
		if (p >= 0)
			r = s_drop(r, P, p, 1);
		b = s_id(b, O, i, id_index(T_ids[i]));
	}
	b = s_params_of(b, r);
	result(isl_space_unbind_params_insert_domain(mk(a), &T), is_params(r) ? b : s_map(b, O, r, O));
}
static void op_align_params(void)
{
#ifdef WITH_REORDERING
	TWO;
	A *r = s_align(a, b);
	result(isl_space_align_params(s, s2), r);
#endif
}
static void op_reordering(void)
{
#ifdef WITH_REORDERING
	TWO;
	A *r = s_align(a, b);
	isl_reordering *e;
	unsigned i, n = a->d[P] + a->d[I] + a->d[O];
	if (r) {
		e = isl_parameter_alignment_reordering(s, s2);
		ENSURE(e && e->src_len == n && e->dst_len == r->d[P] + r->d[I] + r->d[O], "size of the reordering");
		result(isl_reordering_get_space(e), r);
		for (i = 0; i < a->d[P]; ++i)
			ENSURE(e->pos[i] < r->d[P] && r->id[P][e->pos[i]] == a->id[P][i], "parameters go to the parameter with the same identifier");
		for (i = a->d[P]; i < n; ++i)
			ENSURE(e->pos[i] == r->d[P] - a->d[P] + i, "other dimensions stay in order");
		same_value(s, a);
		same_value(s2, b);
	}
#endif
}
static void op_extend_domain_with_range(void)
{
#ifdef WITH_REORDERING
	TWOP;
	A *r = NULL;
	if (is_set(a) && !is_params(b)) {
		r = fresh();
		put(r, P, a, P);
		put(r, I, a, O);
		put(r, O, b, O);
		memset(r->id[O], 0, sizeof(r->id[O]));
		if (b->nest[1])
			r->nest[1] = s_params_of(b->nest[1], a);
		if (!b->nest[1] || (named_params(b) && named_params(a)))
			result(isl_space_extend_domain_with_range(s, s2), r);
	}
#endif
}

/* predicates */
static void op_kind(void)
{
	ONE;
	switch (X0) {
	case 0: answer(isl_space_is_set(s), is_set(a)); break;
	case 1: answer(isl_space_is_map(s), is_map(a)); break;
	case 2: answer(isl_space_is_params(s), is_params(a)); break;
	case 3: answer(isl_space_is_wrapping(s), is_wrapping(a)); break;
	case 4: answer(isl_space_domain_is_wrapping(s), dom_wrapping(a)); break;
	case 5: answer(isl_space_range_is_wrapping(s), ran_wrapping(a)); break;
	case 6: answer(isl_space_is_product(s), is_product(a)); break;
	case 7: answer(isl_space_can_curry(s), dom_wrapping(a)); break;
	case 8: answer(isl_space_can_uncurry(s), ran_wrapping(a)); break;
	case 9: answer(isl_space_can_zip(s), !is_set(a) && is_product(a)); break;
	case 10: answer(isl_space_can_range_curry(s), ran_wrapping(a) && dom_wrapping(a->nest[1])); break;
	case 11: answer(isl_space_has_named_params(s), named_params(a)); break;
	case 12: answer(isl_space_is_named_or_nested(s, isl_dim_in), a->tid[0] || a->nest[0]); break;
	case 13: answer(isl_space_is_named_or_nested(s, isl_dim_out), a->tid[1] || a->nest[1]); break;
	case 14: answer(isl_space_is_named_or_nested(s, isl_dim_param), 0); break;
	default: answer(isl_space_may_be_set(s), is_set(a) || (a->d[I] == 0 && !a->tid[0] && !a->nest[0])); break;
	}
	same_value(s, a);
}
static void op_check_kind(void)
{
	ONE;
	int r, v;
	if (X0 == 0)
		r = isl_space_check_is_set(s), v = is_set(a);
	else if (X0 == 1)
		r = isl_space_check_is_map(s), v = is_map(a);
	else if (X0 == 2)
		r = isl_space_check_domain_is_wrapping(s), v = dom_wrapping(a) != 0;
	else if (X0 == 3)
		r = isl_space_check_range_is_wrapping(s), v = ran_wrapping(a) != 0;
	else
		r = isl_space_check_named_params(s), v = named_params(a);
	answer(r, v ? 0 : -1);
	same_value(s, a);
}
static void op_check_range(void) { ONE; answer(isl_space_check_range(s, ty(X0), X1, X2), X1 + X2 <= a->d[X0] ? 0 : -1); }
static void op_compare(void)
{
	TWOP;
	int eqp = eq_params(a, b), eqt = eq_tuples(a, b), in = tuple_eq(a, I, b, I), out = tuple_eq(a, O, b, O);
	int dom = is_set(a) && tuple_eq(a, O, b, I), ran = is_set(a) && out;
	switch (X0) {
	case 0: answer(isl_space_has_equal_params(s, s2), eqp); break;
	case 1: answer(isl_space_has_equal_tuples(s, s2), eqt); break;
	case 2: answer(isl_space_is_equal(s, s2), eqp && eqt); break;
	case 3: answer(isl_space_tuple_is_equal(s, isl_dim_in, s2, isl_dim_in), in);
		answer(isl_space_tuple_is_equal(s, isl_dim_out, s2, isl_dim_out), out);
		break;
	case 4: answer(isl_space_tuple_is_equal(s, isl_dim_out, s2, isl_dim_in), tuple_eq(a, O, b, I)); break;
	case 5: answer(isl_space_has_equal_ids(s, s2), eqt && eq_ids(a, I, b, I) && eq_ids(a, O, b, O)); break;
	case 6: answer(isl_space_match(s, isl_dim_out, s2, isl_dim_in), tuple_eq(a, O, b, I) && eq_ids(a, O, b, I)); break;
	case 7: answer(isl_space_has_domain_tuples(s, s2), dom);
		answer(isl_space_has_range_tuples(s, s2), ran);
		break;
	case 8: answer(isl_space_is_domain_internal(s, s2), eqp && dom);
		answer(isl_space_is_domain(s, s2), is_map(b) && eqp && dom);
		break;
	case 9: answer(isl_space_is_range_internal(s, s2), eqp && ran);
		answer(isl_space_is_range(s, s2), is_map(b) && eqp && ran);
		break;
	case 10: ENSURE(!(eqp && eqt) || isl_space_get_full_hash(s) == isl_space_get_full_hash(s2), "equal spaces have equal hash values");
		ENSURE(!eqt || isl_space_get_tuple_hash(s) == isl_space_get_tuple_hash(s2), "equal tuples have equal hash values");
		break;
	case 11: if (is_map(b) && is_set(a) && dom)
			ENSURE(isl_space_get_tuple_domain_hash(s2) == isl_space_get_tuple_hash(s), "hash value of the domain");
		break;
	}
	same_value(s, a);
	same_value(s2, b);
}
static void op_cmp(void)
{
	TWOP;
	int c = isl_space_cmp(s, s2), d = isl_space_cmp(s2, s);
	ENSURE((c > 0) == (d < 0) && (c < 0) == (d > 0), "the order is antisymmetric");
	ENSURE(eqA(a, b) ? c == 0 : 1, "equal spaces compare equal");
	if (c == 0)
		ENSURE(eq_params(a, b) && eq_tuples(a, b), "spaces that compare equal are equal");
	same_value(s, a);
	same_value(s2, b);
}
static void op_check_compare(void)
{
	TWOP;
	int r, v;
	if (X0 == 0)
		r = isl_space_check_equal_params(s, s2), v = eq_params(a, b);
	else if (X0 == 1)
		r = isl_space_check_equal_tuples(s, s2), v = eq_tuples(a, b);
	else if (X0 == 2)
		r = isl_space_check_domain_tuples(s, s2), v = is_set(a) && tuple_eq(a, O, b, I);
	else
		r = isl_space_check_domain_wrapped_domain_tuples(s, s2),
		v = is_map(b) && b->nest[0] && is_set(a) && tuple_eq(a, O, b->nest[0], I);
	answer(r, v ? 0 : -1);
	same_value(s, a);
	same_value(s2, b);
}
static void op_wrapped_tuple(void)
{
	TWOP;
	A *m = X0 == P ? NULL : a->nest[X0 - 1];
	int v = m ? tuple_eq(m, X1, b, X2) : -1;
	if (X3)
		answer(isl_space_check_wrapped_tuple_is_equal(s, ty(X0), ty(X1), s2, ty(X2)), v > 0 ? 0 : -1);
	else
		answer(isl_space_wrapped_tuple_is_equal(s, ty(X0), ty(X1), s2, ty(X2)), v);
	same_value(s, a);
	same_value(s2, b);
}

#ifdef HISTORY
/* random inputs: shape, operation and arguments */
static const char *shapes[] = { SHAPES };
#define NSH (sizeof(shapes) / sizeof(shapes[0]))
static uint64_t rs;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) % n; }
#define OPDESC(f, arg)	{ &f, #f, arg },
static struct { void (*f)(void); const char *name; const char *arg; } ops[] = { OPS };
static int kind(const char *sh)
{
	int d = 0;
	if (!sh[2])
		return 'p';
	for (sh += 2; *sh; ++sh) {
		d += *sh == '[' ? 1 : *sh == ']' ? -1 : 0;
		if (*sh == '>' && d == 0)
			return 'm';
	}
	return 's';
}
static int may(char k, const char *sh) { return k == '*' || (k == 'n' && kind(sh) != 'p') || k == kind(sh); }
void contract(void)
{
	unsigned r, k, n = sizeof(ops) / sizeof(ops[0]);
	rs = 88172645463325252ull + nd() * 0x9E3779B97F4A7C15ull;
	for (k = 0; k < 40; ++k)
		rnd(2);
	for (r = 0; r < 2000; ++r) {
		unsigned o = rnd(n);
		const char *g = ops[o].arg;
		int x[5] = { 0, 0, 0, 0, 0 };
		n_held = next_id = 0;
		init_env();
		SH1 = shapes[rnd(NSH)];
		SH2 = rnd(2) ? SH1 : shapes[rnd(NSH)];
		HISTALIAS = SH1 == SH2 && rnd(8) == 0;
		NID = rnd(2) ? 99 : 2 + rnd(3);
		if (!may(g[0], SH1) || !may(g[1], SH2))
			continue;
		for (k = 2; g[k]; ++k)
			if (g[k] == 't')
				x[k - 2] = rnd(3);
			else if (g[k] == 'T' || g[k] == 'U')
				do
					x[k - 2] = rnd(3);
				while (!(x[k - 2] == P || kind(g[k] == 'T' ? SH1 : SH2) == 'm' || (x[k - 2] == O && kind(g[k] == 'T' ? SH1 : SH2) == 's')));
			else
				x[k - 2] = rnd(g[k] - '0' + 1);
		X0 = x[0]; X1 = x[1]; X2 = x[2]; X3 = x[3]; X4 = x[4];
		sprintf(cb_where, ": %s of %s, %s (%d,%d,%d,%d,%d)", ops[o].name, SH1, SH2, X0, X1, X2, X3, X4);
		ops[o].f();
	}
}
#else
void contract(void)
{
	init_env();
	OP();
}
#endif
