/* Contracts stated by the declarations of the public functions, checked at run time.
 *
 * usage: api FIRST LAST SEED RUNS MODES [function]
 * MODES: n nominal (sharing), 0 null arguments, f failing allocations, l operation limit, c failing callbacks
 */
#include "api.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <isl/id.h>
#include <isl/val.h>
#include <isl/vec.h>
#include <isl/mat.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/aff.h>
#include <isl/polynomial.h>
#include <isl/point.h>
#include <isl/constraint.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/ast.h>
#include <isl/ast_build.h>
#include <isl/flow.h>
#include <isl/vertices.h>
#include <isl/fixed_box.h>
#include <isl/stride_info.h>
#include <isl/printer.h>
#include <isl/id_to_ast_expr.h>
#include <isl/id_to_id.h>
#include <isl/id_to_pw_aff.h>
#include <isl/map_to_basic_set.h>
#include <isl_ctx_private.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define LEAKS() __lsan_do_recoverable_leak_check()
#else
#define LEAKS() 0
#endif

static isl_ctx *ctx;
static unsigned long long rs;
static unsigned rnd(unsigned n)
{
	rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
	return n ? (unsigned) (rs >> 33) % n : 0;
}

/* ------------------------------------------------ injected failures */
static long fail_at, n_alloc;
static int fired;
void *__real_isl_malloc_or_die(isl_ctx *c, size_t n);
void *__real_isl_calloc_or_die(isl_ctx *c, size_t m, size_t n);
void *__real_isl_realloc_or_die(isl_ctx *c, void *p, size_t n);
static int fails(isl_ctx *c)
{
	n_alloc++;
	if (c && fail_at && n_alloc == fail_at) {
		fired = 1;
		isl_ctx_set_error(c, isl_error_alloc);
		return 1;
	}
	return 0;
}
void *__wrap_isl_malloc_or_die(isl_ctx *c, size_t n) { return fails(c) ? NULL : __real_isl_malloc_or_die(c, n); }
void *__wrap_isl_calloc_or_die(isl_ctx *c, size_t m, size_t n) { return fails(c) ? NULL : __real_isl_calloc_or_die(c, m, n); }
void *__wrap_isl_realloc_or_die(isl_ctx *c, void *p, size_t n) { return fails(c) ? NULL : __real_isl_realloc_or_die(c, p, n); }

static int cb_at, cb_n, cb_seq;
int cb_fails(void) { if (++cb_n == cb_at) { fired = 1; return 1; } return 0; }
int cb_bool(void) { return (cb_seq >> (cb_n % 7)) & 1; }
int cb_int(int same) { return 0; }

/* ------------------------------------------------ arguments */
#define FAM 6
static struct { const char *type; const char *s[FAM][2]; } texts[] = {
#include "texts.h"
};
static int tid(const char *n)
{
	int i;
	for (i = 0; i < n_types; ++i)
		if (!strcmp(types[i].name, n))
			return i;
	return -1;
}
static void *text(const char *type, int fam, int idx)
{
	unsigned i;
	int t = tid(type);
	for (i = 0; i < sizeof(texts) / sizeof(texts[0]); ++i)
		if (!strcmp(texts[i].type, type))
			return types[t].read(ctx, texts[i].s[texts[i].s[fam][idx] ? fam : fam % 4][idx]);
	return NULL;
}
#define S(t) ((t *) text(#t, fam, idx))
static void *make(int t, int fam, int idx)
{
	const char *n = types[t].name;
	void *r;
	if (types[t].read && (r = text(n, fam, idx)))
		return r;
	if (types[t].el >= 0) {
		void *e = make(types[t].el, fam, idx);
		if (!e) return NULL;
		r = types[t].from_el(e);
		e = make(types[t].el, fam, !idx);
		if (e && (fam & 1) == idx) r = types[t].add_el(r, e); else if (e) types[types[t].el].free(e);
		return r;
	}
#define IS(x) (!strcmp(n, "isl_" x))
	if (IS("id")) return isl_id_alloc(ctx, idx ? (fam & 1 ? "A" : "m") : (fam & 1 ? "q" : "n"), NULL);
	if (IS("vec")) {
		isl_vec *v = isl_vec_alloc(ctx, 3 + (fam == 3));
		v = isl_vec_set_si(v, idx); v = isl_vec_set_element_si(v, 0, 2 + fam); return isl_vec_set_element_si(v, 1, -3);
	}
	if (IS("mat")) {
		isl_mat *m = isl_mat_alloc(ctx, 2 + (fam & 1), 2 + (fam >> 1));
		int i, j;
		for (i = 0; i < isl_mat_rows(m); ++i) for (j = 0; j < isl_mat_cols(m); ++j) m = isl_mat_set_element_si(m, i, j, (i == j) + idx * j + (fam & 1) * i);
		return m;
	}
	if (IS("local_space")) {
		if (idx) { isl_aff *a = S(isl_aff); r = isl_aff_get_domain_local_space(a); isl_aff_free(a); return r; }
{ isl_set *q = S(isl_set); r = isl_local_space_from_space(isl_set_get_space(q)); isl_set_free(q); return r; }
	}
	if (IS("constraint")) return idx ? isl_equality_from_aff(S(isl_aff)) : isl_inequality_from_aff(S(isl_aff));
	if (IS("qpolynomial")) return isl_qpolynomial_from_aff(S(isl_aff));
	if (IS("qpolynomial_fold")) return isl_qpolynomial_fold_alloc(idx ? isl_fold_max : isl_fold_min, isl_qpolynomial_from_aff(S(isl_aff)));
	if (IS("point")) return isl_set_sample_point(S(isl_set));
	if (IS("printer")) return isl_printer_to_str(ctx);
	if (IS("fixed_box")) { isl_set *s = text("isl_set", 1 + (fam & 1), idx); r = isl_set_get_simple_fixed_box_hull(s); isl_set_free(s); return r; }
	if (IS("stride_info")) { isl_set *s = text("isl_set", fam % 3, idx); r = isl_set_get_stride_info(s, 0); isl_set_free(s); return r; }
	if (IS("ast_build")) return idx ? isl_ast_build_alloc(ctx) : isl_ast_build_from_context(text("isl_set", 3, idx));
	if (IS("ast_expr")) {
		isl_ast_expr *e = isl_ast_expr_from_val(isl_val_int_from_si(ctx, fam));
		return idx ? isl_ast_expr_add(isl_ast_expr_from_id(isl_id_alloc(ctx, "n", NULL)), e) : fam > 1 ? isl_ast_expr_call(isl_ast_expr_from_id(isl_id_alloc(ctx, "f", NULL)), isl_ast_expr_list_from_ast_expr(e)) : e;
	}
	if (IS("ast_node")) {
		if (fam == 0 || (idx && fam == 1)) return isl_ast_node_alloc_user(isl_ast_expr_from_val(isl_val_int_from_si(ctx, fam)));
		isl_ast_build *b = isl_ast_build_alloc(ctx);
		r = isl_ast_build_node_from_schedule(b, text("isl_schedule", fam, idx));
		isl_ast_build_free(b);
		if (fam == 3 && isl_ast_node_get_type(r) == isl_ast_node_block) { isl_ast_node_list *l = isl_ast_node_block_get_children(r); isl_ast_node_free(r); r = isl_ast_node_list_get_at(l, 0); isl_ast_node_list_free(l); }
		return r;
	}
	if (IS("ast_print_options")) return isl_ast_print_options_alloc(ctx);
	if (IS("schedule_node")) {
		isl_schedule *s = text("isl_schedule", fam, idx);
		isl_schedule_node *p = isl_schedule_get_root(s);
		int i;
		isl_schedule_free(s);
		for (i = 0; i < fam && isl_schedule_node_has_children(p) == 1; ++i) p = isl_schedule_node_first_child(p);
		return p;
	}
	if (IS("union_access_info")) {
		isl_union_access_info *a = isl_union_access_info_from_sink(text("isl_union_map", fam, 0));
		a = isl_union_access_info_set_must_source(a, text("isl_union_map", fam, 1));
		return idx ? isl_union_access_info_set_schedule(a, text("isl_schedule", 0, 0)) : a;
	}
	if (IS("union_flow")) return isl_union_access_info_compute_flow(make(tid("isl_union_access_info"), fam, 1));
	if (IS("id_to_id")) { isl_id_to_id *h = isl_id_to_id_alloc(ctx, 2); return isl_id_to_id_set(h, isl_id_alloc(ctx, "n", NULL), isl_id_alloc(ctx, idx ? "x" : "y", NULL)); }
	if (IS("id_to_pw_aff")) { isl_id_to_pw_aff *h = isl_id_to_pw_aff_alloc(ctx, 2); return isl_id_to_pw_aff_set(h, isl_id_alloc(ctx, "n", NULL), S(isl_pw_aff)); }
	if (IS("id_to_ast_expr")) { isl_id_to_ast_expr *h = isl_id_to_ast_expr_alloc(ctx, 2); return isl_id_to_ast_expr_set(h, isl_id_alloc(ctx, "n", NULL), make(tid("isl_ast_expr"), fam, idx)); }
	if (IS("map_to_basic_set")) { isl_map_to_basic_set *h = isl_map_to_basic_set_alloc(ctx, 2); return isl_map_to_basic_set_set(h, S(isl_map), S(isl_basic_set)); }
	if (IS("vertices")) { isl_basic_set *b = text("isl_basic_set", 1 + (fam & 1), idx); r = isl_basic_set_compute_vertices(b); isl_basic_set_free(b); return r; }
	return NULL;
}

/* ------------------------------------------------ a call */
struct shared { int fn, run; char what[64]; };
static struct shared *sh;
static int only_class;
static void bad(struct fn *f, const char *cls, const char *msg, const char *extra)
{
	if (only_class && !strchr("", only_class)) return;
	printf("F %s %s run %d %s: %s%s\n", cls, f->name, sh->run, sh->what, msg, extra ? extra : "");
	fflush(stdout);
}
struct res { V v; char *str; int outs; void *obj; int ty; long ops; int err; };
static const char *strs[] = { "n", "x", "", "[n] -> { A[i] : i > n }", "{ [i", "A" };

#define IS(x) (!strcmp(n, "isl_" x))
/* non-zero on some non-empty domain */
static isl_stat non_zero(isl_set *s, isl_qpolynomial *q, void *u)
{
	if (isl_qpolynomial_is_zero(q) != 1 && isl_set_is_empty(s) != 1) *(int *) u = 1;
	isl_set_free(s); isl_qpolynomial_free(q);
	return isl_stat_ok;
}
static int cmpc(const void *a, const void *b) { return *(char *) a - *(char *) b; }
/* the elements of unions may be printed in any order */
static int same_string(char *s, char *t)
{
	if (!strcmp(s, t)) return 1;
	qsort(s, strlen(s), 1, cmpc); qsort(t, strlen(t), 1, cmpc);
	return !strcmp(s, t);
}
/* the types without a function for semantic equality; -1 if not comparable */
static int same_meaning(const char *n, void *a, void *b)
{
	int r = -1;
	if (IS("qpolynomial")) {
		isl_qpolynomial *d = isl_qpolynomial_sub(isl_qpolynomial_copy(a), isl_qpolynomial_copy(b));
		r = isl_qpolynomial_is_zero(d);
		isl_qpolynomial_free(d);
	} else if (IS("pw_qpolynomial")) {
		isl_set *s = isl_pw_qpolynomial_domain(isl_pw_qpolynomial_copy(a)), *t = isl_pw_qpolynomial_domain(isl_pw_qpolynomial_copy(b));
		isl_pw_qpolynomial *d = isl_pw_qpolynomial_sub(isl_pw_qpolynomial_copy(a), isl_pw_qpolynomial_copy(b));
		r = isl_set_is_equal(s, t) == 1;
		int nz = 0;
		if (isl_pw_qpolynomial_foreach_piece(d, non_zero, &nz) < 0 || nz) r = 0;
		isl_set_free(s); isl_set_free(t); isl_pw_qpolynomial_free(d);
	} else if (IS("union_pw_aff") || IS("union_pw_multi_aff")) {
		isl_union_map *s, *t;
		if (IS("union_pw_aff"))
			s = isl_union_map_from_union_pw_aff(isl_union_pw_aff_copy(a)), t = isl_union_map_from_union_pw_aff(isl_union_pw_aff_copy(b));
		else
			s = isl_union_map_from_union_pw_multi_aff(isl_union_pw_multi_aff_copy(a)), t = isl_union_map_from_union_pw_multi_aff(isl_union_pw_multi_aff_copy(b));
		r = isl_union_map_is_equal(s, t);
		isl_union_map_free(s); isl_union_map_free(t);
	}
	return r;
}
#undef IS
static int same(int ty, void *a, void *b, int *known)
{
	int r = -1;
	char *s, *t;
	*known = 1;
	if (types[ty].eq) {
		r = types[ty].eq(a, b);
		if (r == 1) return 1;
		if (same_meaning(types[ty].name, a, b) == 1) return 1;
		/* an object that involves NaN is not equal to itself */
		if (types[ty].eq(a, a) != 1) *known = 0;
	}
	if (types[ty].size) {
		int i, n = types[ty].size(a);
		if (n < 0 || n != types[ty].size(b)) return 0;
		for (i = 0; i < n; ++i) {
			void *x = types[ty].get_at(a, i), *y = types[ty].get_at(b, i);
			int k = 1;
			r = x && y && same(types[ty].el, x, y, &k);
			if (!k) *known = 0;
			types[types[ty].el].free(x); types[types[ty].el].free(y);
			if (!r) return 0;
		}
		return 1;
	}
	if (types[ty].str) {
		s = types[ty].str(a); t = types[ty].str(b);
		if (s && t) r = same_string(s, t); else *known = 0;
		free(s); free(t);
		return r;
	}
	if (types[ty].eq && *known) return r == 1;
	*known = 0;
	return 1;
}
static int is_error(struct fn *f, V r)
{
	switch (f->rk) {
	case R_OBJ: case R_STR: case R_CSTR: return r.p == NULL;
	case R_BOOL: case R_STAT: case R_SIZE: return (int) r.i < 0;
	}
	return -1;
}

/* plan of a run: families and indices of the arguments */
struct plan { int fam[12], idx[12]; long iv[12]; int seq; };
static void plan(struct fn *f, int fi, int run, unsigned seed, struct plan *p)
{
	int i, fam, mix;
	static const int ints[] = { 0, 0, 0, 1, 1, 1, 2, 2, 3, 7 };
	rs = (unsigned long long) seed * 1000003 + fi * 7919ULL + run * 104729ULL;
	rnd(2); rnd(2); rnd(2);
	fam = (run + rnd(2)) % FAM;
	mix = rnd(6) == 0;
	for (i = 0; i < f->n; ++i) {
		p->fam[i] = mix ? (int) rnd(FAM) : fam;
		p->idx[i] = rnd(2);
		switch (f->a[i].kind) {
		case K_DIM: p->iv[i] = 1 + rnd(3); break;
		case K_ENUM: p->iv[i] = rnd(5); break;
		case K_INT: p->iv[i] = ints[rnd(10)]; break;
		case K_STR: p->iv[i] = rnd(6); break;
		default: p->iv[i] = 0;
		}
	}
	p->seq = rnd(128);
}

/* held: another reference to each argument is kept; nul: argument replaced by NULL; how/at: failure to inject */
static int run1(struct fn *f, struct plan *p, int held, int nul, int how, long at, struct res *out)
{
	V a[12], r;
	void *mine[12], *other[12], *twin[12];
	int i, ref0, known, ok = 1;
	FILE *devnull = NULL;

	ref0 = ctx->ref;
	isl_ctx_reset_error(ctx);
	for (i = 0; i < 12; ++i) mine[i] = other[i] = twin[i] = NULL, a[i].i = 0;
	for (i = 0; i < f->n; ++i) {
		switch (f->a[i].kind) {
		case K_OBJ:
			if (i == nul) break;
			a[i].p = mine[i] = make(f->a[i].ty, p->fam[i], p->idx[i]);
			if (!a[i].p) { ok = 0; break; }
			if (held && types[f->a[i].ty].copy) {
				other[i] = types[f->a[i].ty].copy(a[i].p);
				if (other[i] != a[i].p) { types[f->a[i].ty].free(other[i]); other[i] = NULL; }
			}
			if (other[i] || !f->a[i].take)
				twin[i] = make(f->a[i].ty, p->fam[i], p->idx[i]);
			break;
		case K_CTX: a[i].p = ctx; break;
		case K_STR: a[i].p = (void *) strs[p->iv[i]]; break;
		case K_FILE: if (!devnull) devnull = fopen("/dev/null", "r+"); a[i].p = devnull; break;
		case K_OUT: a[i].p = NULL; break;
		case K_OUTINT: a[i].i = 0; break;
		default: a[i].i = p->iv[i];
		}
	}
	if (ok) {
		isl_ctx_reset_error(ctx);
		fired = 0; n_alloc = 0; cb_n = 0; cb_at = 0; cb_seq = p->seq; fail_at = 0;
		isl_ctx_reset_operations(ctx);
		if (how == 'f') fail_at = at;
		if (how == 'l') isl_ctx_set_max_operations(ctx, at);
		if (how == 'c') cb_at = at;
		r = f->call(a);
		isl_ctx_set_max_operations(ctx, 0);
		out->ops = how == 'c' ? cb_n : n_alloc;
		if (!how) out->ops = n_alloc;
		fail_at = 0; cb_at = 0;
		if (how == 'l') fired = isl_ctx_last_error(ctx) == isl_error_quota;
		out->v = r;
		out->err = is_error(f, r);
		out->obj = NULL; out->str = NULL;
		isl_ctx_reset_error(ctx);
		if (nul >= 0 && out->err == 0)
			bad(f, "C02", "no error result for a null argument", NULL);
		if (f->rk == R_OBJ) out->obj = r.p, out->ty = f->rty;
		if (f->rk == R_STR) out->str = r.p;
		if (f->rk == R_CSTR && r.p) out->str = strdup(r.p);
	}
	for (i = 0; i < f->n; ++i) {
		int ty = f->a[i].ty;
		if (f->a[i].kind == K_OUT && a[i].p && types[ty].free) types[ty].free(a[i].p);
		if (f->a[i].kind != K_OBJ || !mine[i]) continue;
		if (ok && twin[i]) {
			void *o = other[i] ? other[i] : mine[i];
			if (!same(ty, o, twin[i], &known) && known)
				bad(f, "C03", other[i] ? "another reference to an argument has a different value after the call: " : "an argument that is kept has changed: ", types[ty].name);
		}
		if (other[i]) types[ty].free(other[i]);
		if (twin[i]) types[ty].free(twin[i]);
		if (!ok || !f->a[i].take) types[ty].free(mine[i]);
	}
	if (devnull) fclose(devnull);
	if (ok && ctx->ref - ref0 != 0) {
		/* the result itself may hold references */
		out->outs = ctx->ref - ref0;
	} else
		out->outs = 0;
	return ok;
}
/* ref0 < 0: not checked (a comparison may have stored something in another object) */
static void drop(struct fn *f, struct res *r, int ref0)
{
	if (r->obj) types[r->ty].free(r->obj);
	free(r->str);
	r->obj = NULL; r->str = NULL;
	if (ref0 >= 0 && ctx->ref != ref0) {
		char b[60];
		sprintf(b, "%d", ctx->ref - ref0);
		bad(f, "C01", "references to the context left after all objects were released: ", b);
		ctx->ref = ref0;
	}
}
/* functions of which the result is not determined by the values of the arguments,
 * such that the failure of an optional simplification may change it */
static int vague(struct fn *f)
{
	static const char *w[] = { "gist", "hull", "sample", "bound", "fold", "compute_schedule", "ast_build", "print", "read", NULL };
	int i;
	for (i = 0; w[i]; ++i) if (strstr(f->name, w[i])) return 1;
	return 0;
}
/* textual representations of the same object may differ */
static int same_text(struct fn *f, const char *s, const char *t)
{
	int n = strlen(f->name), ty = f->n ? f->a[0].ty : -1, r, known;
	void *a, *b;
	if (n < 7 || strcmp(f->name + n - 7, "_to_str") || ty < 0) return 0;
	if (!types[ty].read || !types[ty].eq) return 1;
	a = types[ty].read(ctx, s); b = types[ty].read(ctx, t);
	r = a && b && same(ty, a, b, &known);
	if (a) types[ty].free(a);
	if (b) types[ty].free(b);
	return r;
}
static int same_result(struct fn *f, struct res *a, struct res *b)
{
	int known, r;
	if (a->err != b->err) return 0;
	switch (f->rk) {
	case R_OBJ:
		if (!a->obj || !b->obj) return a->obj == b->obj;
		r = same(a->ty, a->obj, b->obj, &known);
		return !known || r;
	case R_STR: case R_CSTR:
		if (!a->str || !b->str) return a->str == b->str;
		return !strcmp(a->str, b->str) || same_text(f, a->str, b->str);
	case R_BOOL: case R_STAT: case R_SIZE: return (int) a->v.i == (int) b->v.i;
	}
	return 1;
}
static void show(struct fn *f, struct res *a, struct res *b)
{
	if (!getenv("API_SHOW")) return;
	if (f->rk == R_OBJ && !strcmp(types[a->ty].name, "isl_qpolynomial")) {
		printf("%s\n", isl_pw_qpolynomial_to_str(isl_pw_qpolynomial_from_qpolynomial(isl_qpolynomial_copy(a->obj))));
		printf("%s\n", isl_pw_qpolynomial_to_str(isl_pw_qpolynomial_from_qpolynomial(isl_qpolynomial_copy(b->obj))));
	}
	if (f->rk == R_OBJ && !strcmp(types[a->ty].name, "isl_pw_qpolynomial_fold")) {
		isl_printer *p = isl_printer_to_file(ctx, stdout);
		p = isl_printer_print_pw_qpolynomial_fold(p, a->obj); p = isl_printer_print_str(p, "\n");
		p = isl_printer_print_pw_qpolynomial_fold(p, b->obj); p = isl_printer_print_str(p, "\n"); isl_printer_free(p);
	}
	if (f->rk == R_OBJ && types[a->ty].str) {
		char *s = a->obj ? types[a->ty].str(a->obj) : NULL, *t = b->obj ? types[b->ty].str(b->obj) : NULL;
		printf("expected %s\ngot      %s\n", s ? s : "NULL", t ? t : "NULL");
		free(s); free(t);
	} else if (f->rk == R_STR || f->rk == R_CSTR)
		printf("expected %s\ngot      %s\n", a->str ? a->str : "NULL", b->str ? b->str : "NULL");
	else
		printf("expected %d\ngot      %d\n", (int) a->v.i, (int) b->v.i);
}
static int budget;
static void test(int fi, unsigned seed, int runs, const char *modes, int run0)
{
	struct fn *f = &fns[fi];
	int run, i;
	for (run = run0; run < runs; ++run) {
		struct plan p;
		struct res n, h, x;
		int ref0 = ctx->ref;
		long k, N;
		sh->run = run;
		plan(f, fi, run, seed, &p);
		strcpy(sh->what, "plain");
		alarm(8);
		if (!run1(f, &p, 0, -1, 0, 0, &n)) { alarm(0); continue; }
		N = n.ops;
		if (strchr(modes, 'n')) {
			strcpy(sh->what, "shared");
			run1(f, &p, 1, -1, 0, 0, &h);
			/* functions without an error value or on objects that cannot be compared are not compared */
			if (!same_result(f, &n, &h))
				show(f, &n, &h), bad(f, "C03", "the result depends on whether the arguments are shared", NULL);
			drop(f, &h, -1);
		}
		if (strchr(modes, '0'))
			for (i = 0; i < f->n; ++i)
				if (f->a[i].kind == K_OBJ) {
					int ref1 = ctx->ref;
					sprintf(sh->what, "argument %d null", i);
					if (run1(f, &p, run & 1, i, 0, 0, &x)) drop(f, &x, ref1);
				}
		for (i = 0; i < 2; ++i) {
			int how = i ? 'l' : 'f', m;
			if (!strchr(modes, how)) continue;
			/* every allocation (operation), or none, such that the choice does not depend on their order */
			for (m = 0; N <= budget && m < N; ++m) {
				int ref1 = ctx->ref;
				k = m + 1;
				sprintf(sh->what, "%s %ld%s", i ? "limit" : "failing allocation", k, run & 1 ? " shared" : "");
				if (!run1(f, &p, run & 1, -1, how, k, &x)) continue;
				if (fired && x.err == 0 && !vague(f) && !same_result(f, &n, &x))
					show(f, &n, &x), bad(f, "C04", "a failure is not reported and the result differs", NULL);
				drop(f, &x, fired && x.err == 0 ? -1 : ref1);
				if (strchr(modes, 'K') && LEAKS()) { bad(f, "C01", "memory leaked", NULL); _exit(7); }
			}
		}
		if (f->cb && strchr(modes, 'c'))
			for (k = 1; k <= 3; ++k) {
				int ref1 = ctx->ref;
				sprintf(sh->what, "failing callback %ld", k);
				if (!run1(f, &p, run & 1, -1, 'c', k, &x)) continue;
				if (fired && x.err == 0)
					bad(f, "C04", "an error of a callback is not reported", NULL);
				drop(f, &x, ref1);
			}
		strcpy(sh->what, "plain");
		drop(f, &n, ref0);
		alarm(0);
	}
	strcpy(sh->what, "all");
	if (strchr(modes, 'n') || strchr(modes, 'L')) {
		sh->run = runs;
		if (LEAKS()) { bad(f, "C01", "memory leaked", NULL); _exit(7); }
	}
}
int main(int argc, char **argv)
{
	int first = atoi(argv[1]), last = atoi(argv[2]), runs = atoi(argv[4]), fi, run0, crashes = 0;
	unsigned seed = atoi(argv[3]);
	const char *modes = argv[5], *only = argc > 6 ? argv[6] : NULL;
	if (getenv("API_LIST")) { for (fi = 0; fi < n_fns; ++fi) printf("%d %s\n", fi, fns[fi].name); return 0; }
	for (fi = 0; fi < n_fns; ++fi) {
		FILE *ex = getenv("API_EXCLUDE") ? fopen(getenv("API_EXCLUDE"), "r") : NULL;
		char line[300], *sp;
		while (ex && fgets(line, sizeof line, ex))
			if ((sp = strchr(line, ' ')) && (*sp = 0, !strcmp(line, fns[fi].name))) fns[fi].call = NULL;
		if (ex) fclose(ex);
	}
	budget = getenv("API_BUDGET") ? atoi(getenv("API_BUDGET")) : 300;
	if (last > n_fns) last = n_fns;
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!getenv("API_STDERR")) freopen("/dev/null", "w", stderr);
	for (fi = first, run0 = 0; fi < last; ) {
		pid_t pid;
		int st;
		fflush(stdout);
		pid = fork();
		if (pid == 0) {
			ctx = isl_ctx_alloc();
			isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
			for (; fi < last; ++fi, run0 = 0) {
				if (!fns[fi].call || (only && strcmp(only, fns[fi].name))) continue;
				sh->fn = fi;
				sh->run = -1;
				test(fi, seed, runs, modes, run0);
			}
			_exit(0);
		}
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 7)) {
			int to = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
			printf("%s %s %s run %d %s: %s\n", to ? "T" : "F", strstr(sh->what, "null") ? "C02" : "C01", fns[sh->fn].name, sh->run, sh->what,
				to ? "time limit" : WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "invalid memory access");
			fflush(stdout);
		}
		if (fi == sh->fn) crashes++; else crashes = 1;
		fi = sh->fn; run0 = sh->run + 1;
		if (run0 >= runs || crashes > 3) { fi++; run0 = 0; crashes = 0; }
	}
	return 0;
}
