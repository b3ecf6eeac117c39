/* Contracts of the operations on objects that live in a space: the space of the
 * result is what the operation on spaces gives, and each column of the
 * constraints or coefficients stays with its identifier.
 *
 * Every identified dimension carries a number in its identifier; the objects
 * fix that dimension to the number (or have it as coefficient).  Contract of
 * each operation: space(op(o)) = op(space(o)), and in the result every
 * identified dimension that was in an argument carries the number it had there;
 * a dimension without identifier carries no such number; arguments are
 * unchanged.  Checked at run time of the real code (bounded).
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/id.h>
#include <isl/val.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/aff.h>
#include <isl/point.h>
#include <isl/polynomial.h>
#include <isl/constraint.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl_space_private.h>
#include <isl_ctx_private.h>

#define bset_from_bmap(x) ((isl_basic_set *) (x))
#define bset_to_bmap(x) ((isl_basic_map *) (x))
#define set_to_map(x) ((isl_map *) (x))

static unsigned long long rs;
static unsigned rnd(unsigned n)
{
	rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
	return n ? (unsigned) (rs >> 33) % n : 0;
}
static isl_ctx *ctx;
static int nextk;
static const char *where;
static void fail(const char *fmt, const char *x, int a, int b)
{
	printf("FAIL %s: ", where);
	printf(fmt, x, a, b);
	printf("\n");
	fflush(stdout);
	exit(1);
}

/* ---------------------------------------------------------------- spaces */
#define PLAIN 7
static isl_id *mkid(char c)
{
	char b[40];
	int k = nextk++;
	sprintf(b, "%c%d", c, k);
	return isl_id_alloc(ctx, b, NULL);
}
static int number(isl_id *id)
{
	const char *n = isl_id_get_name(id);
	return n && strchr("xpy", n[0]) ? atoi(n + 1) : 0;
}
static isl_space *with_params(isl_space *s, int must)
{
	int i, n = rnd(3), off = rnd(3);
	for (i = 0; i < n; ++i) {
		char b[20];
		isl_id *id;
		int k = 100 + (off + i) % 3;
		sprintf(b, "p%d", k);
		id = isl_id_alloc(ctx, b, NULL);
		if (isl_space_find_dim_by_id(s, isl_dim_param, id) >= 0) {
			isl_id_free(id);
			continue;
		}
		s = isl_space_add_dims(s, isl_dim_param, 1);
		s = isl_space_set_dim_id(s, isl_dim_param, isl_space_dim(s, isl_dim_param) - 1, id);
	}
	return s;
}
static isl_space *tuple(isl_space *params, int depth);
static isl_space *pair(isl_space *params, int depth)
{
	isl_space *a = tuple(isl_space_copy(params), depth);
	return isl_space_map_from_domain_and_range(a, tuple(params, depth));
}
/* set space with the given parameters */
static isl_space *tuple(isl_space *params, int depth)
{
	isl_space *s;
	int i;

	if (depth > 0 && rnd(3)) {
		s = isl_space_wrap(pair(params, depth - 1));
	} else {
		s = isl_space_set_from_params(params);
		s = isl_space_add_dims(s, isl_dim_set, rnd(3) + (rnd(4) == 0));
		for (i = isl_space_dim(s, isl_dim_set) - 1; i >= 0; --i)
			if (rnd(5))
				s = isl_space_set_dim_id(s, isl_dim_set, i, mkid('x'));
	}
	if (rnd(3) == 0)
		s = isl_space_set_tuple_id(s, isl_dim_set, mkid('T'));
	return s;
}
static isl_space *gen_params(void) { return with_params(isl_space_params_alloc(ctx, 0), 0); }
static isl_space *gen_map_space(void) { return pair(gen_params(), rnd(3)); }
static isl_space *gen_set_space(void) { return tuple(gen_params(), rnd(3)); }
/* the same tuples, other parameters */
static isl_space *reparam(isl_space *s)
{
	isl_space *p = gen_params();
	s = isl_space_drop_all_params(s);
	s = isl_space_align_params(s, p);
	return s;
}

/* ---------------------------------------------------------------- objects */
enum kind { map, set, bmap, bset, aff, maff, paff, pma, mpa, ls, qp, pqp, mval, NKIND };
#define T_map isl_map
#define T_set isl_set
#define T_bmap isl_basic_map
#define T_bset isl_basic_set
#define T_aff isl_aff
#define T_maff isl_multi_aff
#define T_paff isl_pw_aff
#define T_pma isl_pw_multi_aff
#define T_mpa isl_multi_pw_aff
#define T_ls isl_local_space
#define T_qp isl_qpolynomial
#define T_pqp isl_pw_qpolynomial
#define T_mval isl_multi_val

static int dimno(isl_space *s, enum isl_dim_type t, int i)
{
	isl_id *id;
	int k = 0;
	if (isl_space_has_dim_id(s, t, i) != isl_bool_true)
		return 0;
	id = isl_space_get_dim_id(s, t, i);
	k = number(id);
	isl_id_free(id);
	return k;
}
static const enum isl_dim_type TY[3] = { isl_dim_param, isl_dim_in, isl_dim_out };
static int is_set_kind(int k) { return k == set || k == bset || k == mval; }

static isl_basic_map *mk_bmap(isl_space *s)
{
	isl_basic_map *b = isl_basic_map_universe(isl_space_copy(s));
	int t, i;
	for (t = 0; t < 3; ++t)
		for (i = isl_space_dim(s, TY[t]) - 1; i >= 0; --i) {
			int k = dimno(s, TY[t], i);
			b = isl_basic_map_fix_si(b, TY[t], i, k ? k : PLAIN);
		}
	isl_space_free(s);
	return b;
}
/* s: domain (set) space */
static isl_aff *mk_aff(isl_space *s, int cst)
{
	isl_aff *a = isl_aff_zero_on_domain_space(isl_space_copy(s));
	int t, i;
	for (t = 0; t < 3; t += 2)
		for (i = isl_space_dim(s, TY[t]) - 1; i >= 0; --i) {
			int k = dimno(s, TY[t], i);
			a = isl_aff_set_coefficient_si(a, TY[t] == isl_dim_out ? isl_dim_in : TY[t], i, k ? k : PLAIN);
		}
	a = isl_aff_set_constant_si(a, cst);
	isl_space_free(s);
	return a;
}
/* s: map space */
static isl_multi_aff *mk_maff(isl_space *s)
{
	isl_multi_aff *m = isl_multi_aff_zero(isl_space_copy(s));
	int i;
	for (i = isl_space_dim(s, isl_dim_out) - 1; i >= 0; --i) {
		int k = dimno(s, isl_dim_out, i);
		m = isl_multi_aff_set_aff(m, i, mk_aff(isl_space_domain(isl_space_copy(s)), k ? k : PLAIN));
	}
	isl_space_free(s);
	return m;
}
static isl_set *mk_set(isl_space *s) { return isl_set_from_basic_set(bset_from_bmap(mk_bmap(s))); }
static isl_space *dom(isl_space *s) { return isl_space_domain(isl_space_copy(s)); }
/* do piecewise expressions have a universe domain (and else one that fixes everything)? */
static int univ;
static isl_set *mk_dom(isl_space *s) { return univ ? (isl_set_universe(dom(s))) : mk_set(dom(s)); }
static void *make(int k, isl_space *s)
{
	void *r;
	int i;
	switch (k) {
	case map: return isl_map_from_basic_map(mk_bmap(s));
	case set: return mk_set(s);
	case bmap: return mk_bmap(s);
	case bset: return bset_from_bmap(mk_bmap(s));
	case aff: r = mk_aff(dom(s), 5); isl_space_free(s); return r;
	case maff: return mk_maff(s);
	case paff: r = isl_pw_aff_alloc(mk_dom(s), mk_aff(dom(s), 5)); isl_space_free(s); return r;
	case pma: r = isl_pw_multi_aff_alloc(mk_dom(s), mk_maff(isl_space_copy(s))); isl_space_free(s); return r;
	case mpa: {
		isl_multi_pw_aff *m = isl_multi_pw_aff_from_multi_aff(mk_maff(isl_space_copy(s)));
		m = isl_multi_pw_aff_intersect_domain(m, mk_dom(s));
		isl_space_free(s);
		return m;
		}
	case ls: return isl_local_space_from_space(s);
	case qp: r = isl_qpolynomial_from_aff(mk_aff(dom(s), 5)); isl_space_free(s); return r;
	case pqp: r = isl_pw_qpolynomial_alloc(mk_dom(s), isl_qpolynomial_from_aff(mk_aff(dom(s), 5))); isl_space_free(s); return r;
	case mval: {
		isl_multi_val *m = isl_multi_val_zero(isl_space_copy(s));
		for (i = isl_space_dim(s, isl_dim_out) - 1; i >= 0; --i) {
			int k = dimno(s, isl_dim_out, i);
			m = isl_multi_val_set_val(m, i, isl_val_int_from_si(ctx, k ? k : PLAIN));
		}
		isl_space_free(s);
		return m;
		}
	}
	return NULL;
}
/* does the space of this kind have a scalar output? */
static int scalar(int k) { return k == aff || k == paff || k == qp || k == pqp; }
static isl_space *gen_space(int k)
{
	if (is_set_kind(k))
		return gen_set_space();
	if (scalar(k))
		return isl_space_add_dims(isl_space_from_domain(gen_set_space()), isl_dim_out, 1);
	if (k == ls && rnd(2))
		return gen_set_space();
	return gen_map_space();
}

#define EACH(F) F(map, isl_map) F(set, isl_set) F(bmap, isl_basic_map) F(bset, isl_basic_set) F(aff, isl_aff) \
	F(maff, isl_multi_aff) F(paff, isl_pw_aff) F(pma, isl_pw_multi_aff) F(mpa, isl_multi_pw_aff) \
	F(ls, isl_local_space) F(qp, isl_qpolynomial) F(pqp, isl_pw_qpolynomial) F(mval, isl_multi_val)
static void *copy(int k, void *o)
{
	switch (k) {
#define F(k, t) case k: return t##_copy(o);
	EACH(F)
#undef F
	}
	return NULL;
}
static void release(int k, void *o)
{
	switch (k) {
#define F(k, t) case k: t##_free(o); break;
	EACH(F)
#undef F
	}
}
static isl_space *space_of(int k, void *o)
{
	switch (k) {
#define F(k, t) case k: return t##_get_space(o);
	EACH(F)
#undef F
	}
	return NULL;
}

/* ---------------------------------------------------------------- numbers of the columns */
#define NONE (-1)
#define MAXD 40
struct vals { int bad; int n[3]; int v[3][MAXD]; };

static int intval(isl_val *v)
{
	int r = NONE;
	if (v && isl_val_is_int(v))
		r = isl_val_get_num_si(v);
	isl_val_free(v);
	return r;
}
static void vals_bmap(struct vals *w, isl_basic_map *b)
{
	int t, i;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < w->n[t]; ++i)
			w->v[t][i] = intval(isl_basic_map_plain_get_val_if_fixed(b, TY[t], i));
}
static void vals_map(struct vals *w, isl_map *m)
{
	int t, i;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < w->n[t]; ++i)
			w->v[t][i] = intval(isl_map_plain_get_val_if_fixed(m, TY[t], i));
}
static void vals_aff(struct vals *w, isl_aff *a)
{
	int t, i;
	for (t = 0; t < 2; ++t)
		for (i = 0; i < w->n[t]; ++i) {
			int k = intval(isl_aff_get_coefficient_val(a, TY[t], i));
			w->v[t][i] = k ? k : NONE;
		}
}
static void vals_set_as_domain(struct vals *w, isl_set *s)
{
	int t, i;
	for (t = 0; t < 2; ++t)
		for (i = 0; i < w->n[t]; ++i)
			w->v[t][i] = intval(isl_set_plain_get_val_if_fixed(s, t ? isl_dim_set : isl_dim_param, i));
}
static void merge(struct vals *w, struct vals *x, int first)
{
	int t, i;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < w->n[t]; ++i) {
			if (x->v[t][i] == NONE)
				continue;
			if (w->v[t][i] == NONE)
				w->v[t][i] = x->v[t][i];
			else if (w->v[t][i] != x->v[t][i])
				w->bad = 1;
		}
}
static void vals_maff(struct vals *w, isl_multi_aff *m)
{
	int i;
	for (i = 0; i < w->n[2]; ++i) {
		struct vals x = *w;
		isl_aff *a = isl_multi_aff_get_aff(m, i);
		vals_aff(&x, a);
		merge(w, &x, i == 0);
		w->v[2][i] = intval(isl_aff_get_constant_val(a));
		isl_aff_free(a);
	}
}
struct piece { struct vals *w; int view; int n; };
static isl_stat pa_piece(isl_set *d, isl_aff *a, void *u)
{
	struct piece *p = u;
	p->n++;
	if (p->view) vals_set_as_domain(p->w, d); else vals_aff(p->w, a);
	isl_set_free(d); isl_aff_free(a);
	return isl_stat_ok;
}
static isl_stat pma_piece(isl_set *d, isl_multi_aff *a, void *u)
{
	struct piece *p = u;
	p->n++;
	if (p->view) vals_set_as_domain(p->w, d); else vals_maff(p->w, a);
	isl_set_free(d); isl_multi_aff_free(a);
	return isl_stat_ok;
}
static isl_stat term(isl_term *t, void *u)
{
	struct piece *p = u;
	struct vals *w = p->w;
	int q, i;
	for (q = 0; q < 2; ++q)
		for (i = 0; i < w->n[q]; ++i)
			if (isl_term_get_exp(t, q ? isl_dim_set : isl_dim_param, i) == 1)
				w->v[q][i] = intval(isl_term_get_coefficient_val(t));
	isl_term_free(t);
	return isl_stat_ok;
}
static isl_stat qp_piece(isl_set *d, isl_qpolynomial *q, void *u)
{
	struct piece *p = u;
	p->n++;
	if (p->view) vals_set_as_domain(p->w, d); else isl_qpolynomial_foreach_term(q, &term, p);
	isl_set_free(d); isl_qpolynomial_free(q);
	return isl_stat_ok;
}
static int views(int k) { return k == ls ? 0 : k == paff || k == pma || k == mpa || k == pqp ? 2 : 1; }
/* fills the numbers of the columns; 0 if there is nothing to compare in this view */
static int values(int k, void *o, isl_space *s, int view, struct vals *w)
{
	int t, i;
	struct piece p = { w, view, 0 };
	w->bad = 0;
	for (t = 0; t < 3; ++t) {
		w->n[t] = isl_space_dim(s, TY[t]);
		if (w->n[t] > MAXD)
			return 0;
		for (i = 0; i < MAXD; ++i)
			w->v[t][i] = NONE;
	}
	switch (k) {
	case map: if (isl_map_is_empty(o)) return 0; vals_map(w, o); return 1;
	case set: if (isl_set_is_empty(o)) return 0; vals_map(w, set_to_map(o)); return 1;
	case bmap: if (isl_basic_map_is_empty(o)) return 0; vals_bmap(w, o); return 1;
	case bset: if (isl_basic_set_is_empty(o)) return 0; vals_bmap(w, bset_to_bmap(o)); return 1;
	case aff: w->n[2] = 0; vals_aff(w, o); return 1;
	case maff: vals_maff(w, o); return w->n[2] > 0;
	case paff: w->n[2] = 0; isl_pw_aff_foreach_piece(o, &pa_piece, &p); return p.n == 1;
	case pma: isl_pw_multi_aff_foreach_piece(o, &pma_piece, &p); if (view) w->n[2] = 0; return p.n == 1 && (view || w->n[2]);
	case mpa: {
		int n = w->n[2];
		for (i = 0; i < n; ++i) {
			struct vals x = *w;
			isl_pw_aff *a = isl_multi_pw_aff_get_pw_aff(o, i);
			struct piece q = { &x, view, 0 };
			x.n[2] = 0;
			isl_pw_aff_foreach_piece(a, &pa_piece, &q);
			merge(w, &x, i == 0);
			if (q.n == 1 && !view) {
				isl_aff *b = isl_pw_aff_as_aff(isl_pw_aff_gist(isl_pw_aff_copy(a), isl_pw_aff_domain(isl_pw_aff_copy(a))));
				w->v[2][i] = b ? NONE : NONE;
				isl_aff_free(b);
			}
			isl_pw_aff_free(a);
			if (q.n != 1)
				return 0;
		}
		if (n == 0) {
			isl_set *d = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(o));
			vals_set_as_domain(w, d);
			isl_set_free(d);
			if (!view) return 0;
		}
		w->n[2] = 0;
		return 1;
		}
	case qp: w->n[2] = 0; isl_qpolynomial_foreach_term(o, &term, &p); return 1;
	case pqp: w->n[2] = 0; isl_pw_qpolynomial_foreach_piece(o, &qp_piece, &p); return p.n == 1;
	case mval:
		w->n[0] = 0;
		for (i = 0; i < w->n[2]; ++i) w->v[2][i] = intval(isl_multi_val_get_val(o, i));
		return 1;
	}
	return 0;
}
/* number of identifier "id" in the argument, NONE if absent or free */
static int lookup(struct vals *w, isl_space *s, isl_id *id, int *found)
{
	int t, i;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < w->n[t]; ++i) {
			isl_id *x;
			if (isl_space_has_dim_id(s, TY[t], i) != isl_bool_true)
				continue;
			x = isl_space_get_dim_id(s, TY[t], i);
			isl_id_free(x);
			if (x == id) { *found = 1; if (w->v[t][i] != NONE) return w->v[t][i]; }
		}
	return NONE;
}
/* ids: 0 not compared, 1 all the same, 2 those of dimensions other than
 * parameters may be lost (documented: they "may not be preserved") */
static int lost;
static void same_space(isl_space *a, isl_space *b, const char *what, int ids)
{
	int t, i;
	if (!!a != !!b)
		fail("%s: one of the operations on object and space fails (space: %d)", what, b != NULL, 0);
	if (!a)
		return;
	if (isl_space_is_equal(a, b) != isl_bool_true) {
		printf("object: "); fflush(stdout); isl_space_dump(a); isl_space_dump(b);
		fail("%s differs from the result of the operation on spaces", what, 0, 0);
	}
	for (t = 0; ids && t < 3; ++t)
		for (i = isl_space_dim(a, TY[t]) - 1; i >= 0; --i) {
			isl_id *x = NULL, *y = NULL;
			if (isl_space_has_dim_id(a, TY[t], i) == isl_bool_true) x = isl_space_get_dim_id(a, TY[t], i);
			if (isl_space_has_dim_id(b, TY[t], i) == isl_bool_true) y = isl_space_get_dim_id(b, TY[t], i);
			isl_id_free(x); isl_id_free(y);
			if (x != y && !x && ids == 2 && t)
				lost = 1;
			else if (x != y)
				fail("%s: identifier of dimension %d/%d", what, t, i);
		}
}

struct args {
	enum isl_dim_type type, type2;
	int pos, n, pos2, add;
	isl_id *id;
	isl_space *s2;		/* space of o2 */
	void *o2;
	char name[20];
};

/* does an identifier carry different numbers in the two arguments, or do corresponding domain dimensions
 * have different identifiers? */
static int ambiguous(isl_space *s, isl_space *s2, struct vals *v, struct vals *v2)
{
	int t, i, u, j;
	for (t = 0; t < 3; ++t)
		for (i = 0; i < v->n[t]; ++i)
			for (u = 0; u < 3; ++u)
				for (j = 0; j < v2->n[u]; ++j) {
					int k = dimno(s, TY[t], i), k2 = dimno(s2, TY[u], j);
					if (k && k == k2 && v->v[t][i] != v2->v[u][j])
						return 1;
					if (k != k2 && t == u && t && i == j && isl_space_tuple_is_equal(s, TY[t], s2, TY[t]) != isl_bool_false)
						return 1;
				}
	return 0;
}
/* the numbers of the result agree with those of the arguments */
static void check(int rk, void *r, isl_space *rs_, isl_space *es, int k, void *o, isl_space *s, struct args *a, int two, isl_id *renamed, int *rval)
{
	int view, t, i;
	struct vals w, v, v2;
	for (view = 0; view < views(rk) && view < views(k); ++view) {
		int h2 = 0, sv = view;
		if (two && views(rk) == 2 && view == 0 && !univ)
			continue;	/* may have been simplified in the context of the domain */
		if (!values(rk, r, rs_, view, &w))
			continue;
		if (!values(k, o, s, sv, &v))
			continue;
		if (two) {
			h2 = values(k, a->o2, a->s2, sv, &v2);
			if (!h2)
				continue;
		}
		if (v.bad || (h2 && v2.bad))
			continue;
		if (h2 && ambiguous(s, a->s2, &v, &v2)) {
			lost = 1;
			continue;
		}
		if (w.bad)
			fail("%s: pieces or elements disagree", "value", 0, 0);
		for (t = 0; t < 3; ++t)
			for (i = 0; i < w.n[t]; ++i) {
				int e, found = 0;
				isl_id *id;
				if (isl_space_has_dim_id(es, TY[t], i) != isl_bool_true) {
					if (w.v[t][i] >= 100)
						fail("%s: dimension %d/%d without identifier carries a number", "columns", t, i);
					continue;
				}
				id = isl_space_get_dim_id(es, TY[t], i);
				isl_id_free(id);
				if (id == renamed) {
					if (w.v[t][i] != rval[view])
						fail("%s: renamed dimension %d/%d changed its number", "columns", t, i);
					continue;
				}
				e = lookup(&v, s, id, &found);
				if (h2 && e == NONE)
					e = lookup(&v2, a->s2, id, &found);
				if (w.v[t][i] == NONE && rk == mpa && isl_space_dim(rs_, isl_dim_out) == 0)
					continue;	/* the domain of a factor without elements is that of none */
				if (w.v[t][i] != e)
					fail("%s: dimension %d carries number %d instead of that of its identifier", "columns", t * 100 + i, w.v[t][i]);
			}
	}
}

static isl_space *swap_check(isl_space *s) { return s; }
/* parameters aligned, tuples of the first */
static isl_space *al(isl_space *s, struct args *a) { return isl_space_align_params(s, isl_space_copy(a->s2)); }
static isl_space *sp2(struct args *a) { return isl_space_copy(a->s2); }
#define O2(k) ((T_##k *) copy(k, a->o2))
/* spaces of products: parameters aligned first */
#define SPROD(f) ({ isl_space *s2_ = sp2(a); if (isl_space_has_equal_params(s, s2_) == isl_bool_false) { \
	s = isl_space_align_params(s, isl_space_copy(s2_)); s2_ = isl_space_align_params(s2_, isl_space_copy(s)); } f(s, s2_); })
/* the operation requires equal spaces up to the order of the parameters */
/* the operation requires equal spaces */
static isl_space *equal1(isl_space *s, struct args *a)
{
	return isl_space_is_equal(s, a->s2) == isl_bool_true ? s : isl_space_free(s);
}
static isl_space *equal2(isl_space *s, struct args *a)
{
	if (isl_space_has_equal_tuples(s, a->s2) != isl_bool_true)
		return isl_space_free(s);
	if (isl_space_has_equal_params(s, a->s2) == isl_bool_true)
		return s;
	return al(s, a);
}

/* flags: 2 second argument of the same kind, 4 of it: same tuples most of the time; I: identifiers of dimensions are not compared */
#define TWO 1
#define SAME 2
#define NOID 4
#define RENAME 8
#define NOVAL 16
#define PARAMS 32	/* parameters only up to order */
#define MAYFAIL 64	/* may fail on objects for which it is not defined */
#define NOREJ 128	/* accepts some combinations that the operation on spaces rejects */

#include "obj_ops.h"

#define X(K, RK, NAME, ECALL, SCALL, FL) \
	static void *f_##K##_##NAME(void *o_, struct args *a) { T_##K *o = o_; (void) o; return ECALL; } \
	static isl_space *g_##K##_##NAME(isl_space *s, struct args *a) { return SCALL; }
LIST
#undef X
static struct { int k, rk; const char *name; void *(*f)(void *, struct args *); isl_space *(*g)(isl_space *, struct args *); int fl; } OPS[] = {
#define X(K, RK, NAME, ECALL, SCALL, FL) { K, RK, #K "." #NAME, f_##K##_##NAME, g_##K##_##NAME, FL },
LIST
#undef X
};
#define NOPS (sizeof(OPS) / sizeof(OPS[0]))

static void gen_args(const char *name, int k, void *o, isl_space *s, struct args *a, int fl, int rval[2])
{
	int d;
	struct vals w;
	do {
		a->type = TY[rnd(3)];
	} while (is_set_kind(k) && a->type == isl_dim_in);
	do {
		a->type2 = TY[rnd(3)];
	} while ((is_set_kind(k) && a->type2 == isl_dim_in) || a->type2 == a->type);
	if (isl_space_is_set(s)) {
		if (a->type == isl_dim_in) a->type = isl_dim_param;
		if (a->type2 == isl_dim_in || a->type2 == a->type) a->type2 = a->type == isl_dim_param ? isl_dim_out : isl_dim_param;
	}
	if (scalar(k)) {
		if (a->type == isl_dim_out) a->type = a->type2 == isl_dim_in ? isl_dim_param : isl_dim_in;
		if (a->type2 == isl_dim_out) a->type2 = a->type == isl_dim_in ? isl_dim_param : isl_dim_in;
	}
	if (k == maff || k == mpa || k == mval) {
		/* dimensions of the range correspond to elements: not inserted or moved */
		if (strstr(name, "insert") || strstr(name, "add_dims") || strstr(name, "move")) {
			if (k == mval) a->type = isl_dim_param;
			if (a->type == isl_dim_out) a->type = a->type2 == isl_dim_in ? isl_dim_param : isl_dim_in;
			if (a->type2 == isl_dim_out) a->type2 = a->type == isl_dim_in ? isl_dim_param : isl_dim_in;
		}
	}
	d = isl_space_dim(s, a->type);
	a->pos = rnd(d + 1);
	a->n = rnd(d - a->pos + 1);
	if ((fl & RENAME) && d) a->pos = rnd(d);
	a->add = rnd(3);
	if (strstr(name, "_dims")) {
		/* an empty range of positions: not all objects check or reset as spaces do */
		if (!a->n) { a->n = 1; if (d && a->pos == d) a->pos--; }
		if (!a->add) a->add = 1;
	}
	a->pos2 = rnd(isl_space_dim(s, a->type2) + 1);
	if (rnd(12) == 0) a->pos += 1 + rnd(2);
	if (rnd(25) == 0) a->n += 1 + rnd(2);
	a->id = mkid('y');
	rval[0] = rval[1] = NONE;
	if (fl & RENAME) {
		int t = a->type == isl_dim_param ? 0 : a->type == isl_dim_in ? 1 : 2, v;
		for (v = 0; v < views(k); ++v)
			if (values(k, o, s, v, &w) && a->pos < w.n[t])
				rval[v] = w.v[t][a->pos];
	}
	sprintf(a->name, "z%d", nextk++);
	if ((fl & SAME) && rnd(4))
		a->s2 = reparam(isl_space_copy(s));
	else if (rnd(4) == 0)
		a->s2 = reparam(isl_space_copy(s));
	else
		a->s2 = gen_space(k);
	if (k != ls && is_set_kind(k) != !!isl_space_is_set(a->s2)) abort();
	a->o2 = make(k, isl_space_copy(a->s2));
	if (!a->o2) { fail("%s: cannot build an object", "setup", 0, 0); }
}

/* a parameter that has become another dimension: its identifier no longer
 * tells it apart from the parameters of other objects */
static int param_elsewhere(isl_space *s)
{
	int t, i, k;
	for (t = 1; t < 3; ++t)
		for (i = isl_space_dim(s, TY[t]) - 1; i >= 0; --i)
			if ((k = dimno(s, TY[t], i)) >= 100 && k < 200)
				return 1;
	return 0;
}
int main(int argc, char **argv)
{
	unsigned seed = atoi(argv[1]);
	int it, N = argc > 2 ? atoi(argv[2]) : 300;
	rs = seed * 2654435761ULL + 12345;
	rnd(2); rnd(2);
	ctx = isl_ctx_alloc();
	isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
	where = "setup";
	for (it = 0; it < N; ++it) {
		int k = rnd(NKIND), step, renamed = 0;
		isl_space *s;
		void *o;
		nextk = 200;
		univ = rnd(2);
		s = gen_space(k);
		o = make(k, isl_space_copy(s));
		for (step = 0; step < 5; ++step) {
			struct args a;
			int i, rval[2];
			void *r, *keep;
			isl_space *es, *ss, *back;
			int cand[NOPS], nc = 0;
			for (i = 0; i < NOPS; ++i) if (OPS[i].k == k) cand[nc++] = i;
			if (!nc) break;
			i = cand[rnd(nc)];
			where = OPS[i].name;
			if (argc > 3 && strcmp(argv[3], where)) continue;
			if (renamed && (OPS[i].fl & (TWO | SAME))) continue;
			gen_args(OPS[i].name, k, o, s, &a, OPS[i].fl, rval);
			if (getenv("OBJ_TRACE")) { printf("%s type %d pos %d n %d add %d type2 %d pos2 %d\n", where, a.type, a.pos, a.n, a.add, a.type2, a.pos2); fflush(stdout); isl_space_dump(s); isl_space_dump(a.s2); }
			struct vals before[2];
			int hv[2] = { 0, 0 };
			for (int v = 0; v < views(k); ++v) hv[v] = values(k, o, s, v, &before[v]);
			keep = copy(k, o);
			es = OPS[i].g(isl_space_copy(s), &a);
			isl_ctx_reset_error(ctx);
			r = OPS[i].f(keep, &a);
			ss = r ? space_of(OPS[i].rk, r) : NULL;
			if ((OPS[i].fl & PARAMS) && ss && es) es = isl_space_align_params(es, isl_space_copy(ss));
			lost = 0;
			if ((!r && (OPS[i].fl & MAYFAIL)) || (r && !es && (OPS[i].fl & NOREJ))) {
				isl_space_free(ss); isl_space_free(es); if (r) release(OPS[i].rk, r);
				release(k, a.o2); isl_space_free(a.s2); isl_id_free(a.id);
				isl_ctx_reset_error(ctx);
				continue;
			}
			same_space(ss, es, "space", OPS[i].fl & NOID ? 0 : OPS[i].fl & (PARAMS | TWO | SAME) || isl_space_has_equal_params(s, a.s2) != isl_bool_true ? 2 : 1);
			back = space_of(k, o);
			same_space(back, s, "space of the argument after the operation", 1);
			isl_space_free(back);
			if (r && !(OPS[i].fl & NOVAL))
				check(OPS[i].rk, r, ss, es, k, o, s, &a, OPS[i].fl & (TWO | SAME), (OPS[i].fl & RENAME) ? a.id : NULL, rval);
			/* the argument itself is unchanged */
			for (int v = 0; v < views(k); ++v) {
				struct vals now;
				if (v == 0 && views(k) == 2 && !univ)
					continue;	/* may be simplified in place in the context of the domain */
				memset(&now, 0, sizeof now);
				if (values(k, o, s, v, &now) != hv[v] || (hv[v] && memcmp(now.v, before[v].v, sizeof now.v)))
					fail("%s: the argument changed", "value", 0, 0);
			}
			release(k, a.o2); isl_space_free(a.s2); isl_id_free(a.id);
			isl_space_free(es);
			if (r) {
				release(k, o); isl_space_free(s);
				o = r; s = ss; k = OPS[i].rk;
				if ((OPS[i].fl & NOVAL) || lost || isl_space_is_params(s) || isl_space_dim(s, isl_dim_all) > 24) break;
				if ((OPS[i].fl & RENAME) && a.type != isl_dim_param) break;	/* nested copies keep theirs */
				if (OPS[i].fl & RENAME) renamed = 1;
				if ((OPS[i].fl & (TWO | SAME)) && (k == maff || k == pma || k == mpa)) break;	/* elements of different arguments */
				if (param_elsewhere(s)) break;
			} else
				isl_ctx_reset_error(ctx);
		}
		release(k, o); isl_space_free(s);
		where = "end of history";
		if (ctx->ref != 0)
			fail("%s: %d objects left", "release", ctx->ref, 0);
	}
	isl_ctx_free(ctx);
	return 0;
}
