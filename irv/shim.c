/* Builds and reads the objects that contracts are about, field by field, for
 * calls of the real code through ctypes.  Does not use the operations under
 * contract (apart from context and block allocation). */
#include <stdlib.h>
#include <string.h>
#include <isl_ctx_private.h>
#include <isl/options.h>
#include <isl_val_private.h>
#include <isl_vec_private.h>
#include <isl_mat_private.h>
#include <isl_blk.h>
#include <isl/id.h>
#include <isl/hash.h>

isl_ctx *sh_ctx(void)
{
	isl_ctx *ctx = isl_ctx_alloc();
	isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
	return ctx;
}

/* arrays of isl_int with guard elements before and after */
isl_int *sh_arr(int n)
{
	int i;
	isl_int *a = malloc((n + 1) * sizeof(isl_int));
	for (i = 0; i < n; ++i)
		mpz_init(a[i]);
	return a;
}

void sh_arr_free(isl_int *a, int n)
{
	int i;
	for (i = 0; i < n; ++i)
		mpz_clear(a[i]);
	free(a);
}

void sh_set_si(isl_int *a, int i, long v) { mpz_set_si(a[i], v); }
void sh_set_str(isl_int *a, int i, const char *s) { mpz_set_str(a[i], s, 16); }
int sh_fits(isl_int *a, int i) { return mpz_fits_slong_p(a[i]); }
long sh_get_si(isl_int *a, int i) { return mpz_get_si(a[i]); }
char *sh_get_str(isl_int *a, int i) { return mpz_get_str(NULL, 16, a[i]); }
size_t sh_zsize(void) { return sizeof(isl_int); }

isl_val *sh_val(isl_ctx *ctx)
{
	isl_val *v = calloc(1, sizeof(*v));
	v->ctx = ctx;
	isl_ctx_ref(ctx);
	v->ref = 1;
	mpz_init(v->n);
	mpz_init(v->d);
	return v;
}

isl_int *sh_val_n(isl_val *v) { return &v->n; }
isl_int *sh_val_d(isl_val *v) { return &v->d; }

void sh_val_share(isl_val *v) { v->ref++; }
int sh_val_ref(isl_val *v) { return v->ref; }

isl_vec *sh_vec(isl_ctx *ctx, int n, int cap)
{
	isl_vec *v = calloc(1, sizeof(*v));
	if (cap < 0)
		cap = n;
	v->block = isl_blk_alloc(ctx, cap);
	v->ctx = ctx;
	isl_ctx_ref(ctx);
	v->ref = 1;
	v->size = n;
	v->el = v->block.data;
	return v;
}

isl_int *sh_vec_el(isl_vec *v) { return v->el; }
int sh_vec_size(isl_vec *v) { return v->size; }
int sh_vec_cap(isl_vec *v) { return v->block.size; }
void sh_vec_share(isl_vec *v) { v->ref++; }
int sh_vec_ref(isl_vec *v) { return v->ref; }

isl_mat *sh_mat(isl_ctx *ctx, int r, int c, int mc)
{
	int i;
	isl_mat *m = calloc(1, sizeof(*m));
	if (mc < c)
		mc = c;
	m->block = isl_blk_alloc(ctx, r * mc);
	m->row = calloc(r + 1, sizeof(isl_int *));
	for (i = 0; i < r; ++i)
		m->row[i] = m->block.data + i * mc;
	m->ctx = ctx;
	isl_ctx_ref(ctx);
	m->ref = 1;
	m->n_row = r;
	m->n_col = c;
	m->max_col = mc;
	return m;
}

isl_int *sh_mat_row(isl_mat *m, int i) { return m->row[i]; }
int sh_mat_rows(isl_mat *m) { return m->n_row; }
int sh_mat_cols(isl_mat *m) { return m->n_col; }
void sh_mat_share(isl_mat *m) { m->ref++; }
int sh_mat_ref(isl_mat *m) { return m->ref; }

void *sh_null_slot(void) { return calloc(2, sizeof(void *)); }
void *sh_slot_get(void **p) { return *p; }

/* all lists have the same layout */
void *sh_list(isl_ctx *ctx, int n, int cap)
{
	isl_val_list *l = calloc(1, sizeof(*l) + (cap + 1) * sizeof(void *));
	l->ref = 1;
	l->ctx = ctx;
	isl_ctx_ref(ctx);
	l->n = n;
	l->size = cap;
	return l;
}

void sh_list_set(isl_val_list *l, int i, void *p) { l->p[i] = p; }
void *sh_list_get(isl_val_list *l, int i) { return l->p[i]; }
int sh_list_n(isl_val_list *l) { return l->n; }
int sh_list_size(isl_val_list *l) { return l->size; }
void sh_list_share(isl_val_list *l) { l->ref++; }
int sh_list_ref(isl_val_list *l) { return l->ref; }
