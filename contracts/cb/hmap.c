/* Contracts of include/isl/hmap_templ.c, for each instance (-DINST=file, -DKEYEQ, -DVALEQ).
 *
 * isl_hash_table_* are replaced by their contracts (hash.c),
 * the key and value types by opaque objects with a reference count,
 * an equivalence (objects 2i and 2i+1 are equal, unless identity is meant) and a hash.
 */
#include <string.h>
#include <isl/ctx.h>
#include <isl/hash.h>
#include "common.h"
#include INST

#ifdef HISTORY
#define KN 64
#else
#define KN 6
#endif
#define SLOTS 4
#ifdef SAMETYPE
#define vobj kobj
#define vref kref
static char kobj[KN];
static int kref[KN];
#else
static char kobj[KN], vobj[KN];
static int kref[KN], vref[KN];
#endif
static uint32_t khash[KN];
static char ctxobj;
#define CTX ((isl_ctx *) &ctxobj)
#define K(i) ((ISL_KEY *) &kobj[i])
#define V(i) ((ISL_VAL *) &vobj[i])

static unsigned kidx(const void *p) { unsigned i = (const char *) p - kobj; ENSURE(i < KN, "a key"); return i; }
static unsigned vidx(const void *p) { unsigned i = (const char *) p - vobj; ENSURE(i < KN, "a value"); return i; }
#ifdef KEYEQ
static unsigned kcls(unsigned i) { return i / 2; }
isl_bool KEYEQ(ISL_KEY *a, ISL_KEY *b) { return isl_bool_ok(kcls(kidx(a)) == kcls(kidx(b))); }
#else
static unsigned kcls(unsigned i) { return i; }
#endif
#ifdef VALEQ
static unsigned vcls(unsigned i) { return i / 2; }
isl_bool VALEQ(ISL_VAL *a, ISL_VAL *b) { return isl_bool_ok(vcls(vidx(a)) == vcls(vidx(b))); }
#else
static unsigned vcls(unsigned i) { return i; }
#endif

/* --- stubs: contracts of the element types ------------------------------- */
#define GLUE_(a,b) a ## b
#define GLUE(a,b) GLUE_(a,b)
ISL_KEY *GLUE(ISL_KEY,_copy)(ISL_KEY *k) { kref[kidx(k)]++; return k; }
__isl_null ISL_KEY *GLUE(ISL_KEY,_free)(ISL_KEY *k) { if (k) kref[kidx(k)]--; return NULL; }
uint32_t GLUE(ISL_KEY,_get_hash)(ISL_KEY *k) { return khash[kidx(k)]; }
#ifndef SAMETYPE
ISL_VAL *GLUE(ISL_VAL,_copy)(ISL_VAL *v) { vref[vidx(v)]++; return v; }
__isl_null ISL_VAL *GLUE(ISL_VAL,_free)(ISL_VAL *v) { if (v) vref[vidx(v)]--; return NULL; }
#endif
void isl_ctx_ref(isl_ctx *ctx) { }
void isl_ctx_deref(isl_ctx *ctx) { }

#ifndef HISTORY
/* --- stubs: contracts of the hash table ------------------------------------ */
static struct isl_hash_table_entry none_entry;
struct isl_hash_table_entry *isl_hash_table_entry_none = &none_entry;
int isl_hash_table_init(isl_ctx *ctx, struct isl_hash_table *t, int min_size)
{
	t->bits = 2;
	t->n = 0;
	t->entries = calloc(SLOTS, sizeof(struct isl_hash_table_entry));
	return 0;
}
void isl_hash_table_clear(struct isl_hash_table *t) { free(t->entries); }
struct isl_hash_table_entry *isl_hash_table_find(isl_ctx *ctx, struct isl_hash_table *t, uint32_t hash,
	isl_bool (*eq)(const void *entry, const void *val), const void *val, int reserve)
{
	unsigned i;
	ENSURE(hash == khash[kidx(val)], "looked up with the hash value of the key");
	for (i = 0; i < SLOTS; ++i)
		if (t->entries[i].data && t->entries[i].hash == hash && eq(t->entries[i].data, val) == isl_bool_true)
			return &t->entries[i];
	if (!reserve)
		return isl_hash_table_entry_none;
	for (i = 0; i < SLOTS; ++i)
		if (!t->entries[i].data)
			break;
	ASSUME(i < SLOTS);
	t->n++;
	t->entries[i].hash = hash;
	return &t->entries[i];
}
void isl_hash_table_remove(isl_ctx *ctx, struct isl_hash_table *t, struct isl_hash_table_entry *e)
{
	ENSURE(e >= t->entries && e < t->entries + SLOTS && e->data, "removes an entry of the table");
	e->hash = 0;
	e->data = NULL;
	t->n--;
}
isl_stat isl_hash_table_foreach(isl_ctx *ctx, struct isl_hash_table *t, isl_stat (*fn)(void **entry, void *user), void *user)
{
	unsigned i;
	for (i = 0; i < SLOTS; ++i)
		if (t->entries[i].data && fn(&t->entries[i].data, user) < 0)
			return isl_stat_error;
	return isl_stat_ok;
}

#endif

/* --- arbitrary maps ---------------------------------------------------------- */
#ifndef HISTORY
static int oldval[KN];	/* by class of key: value class or -1 */
static int oldn;
static ISL_HMAP *arbitrary(void)
{
	ISL_HMAP *m = calloc(1, sizeof(*m));
	unsigned i;

	for (i = 0; i < KN; ++i) {
		unsigned c = i;
		khash[i] = nd();
		oldval[i] = -1;
		while (c > 0 && kcls(c - 1) == kcls(i))
			--c;
		khash[i] = khash[c];
	}
	m->ref = 1 + nd_below(2);
	m->ctx = CTX;
	m->table.bits = 2;
	m->table.entries = calloc(SLOTS, sizeof(struct isl_hash_table_entry));
	for (i = 0; i < SLOTS; ++i) {
		unsigned k, v;
		ISL_S(pair) *p;
		if (!((OCC >> i) & 1))
			continue;
		k = nd_below(KN);
		v = nd_below(KN);
		ASSUME(oldval[kcls(k)] == -1);
		p = calloc(1, sizeof(*p));
		p->key = K(k);
		p->val = V(v);
		kref[k]++;
		vref[v]++;
		oldval[kcls(k)] = vcls(v);
		m->table.entries[i].hash = khash[k];
		m->table.entries[i].data = p;
		m->table.n++;
	}
	oldn = m->table.n;
	return m;
}

static int lookup(ISL_HMAP *m, unsigned cls)
{
	unsigned i;
	int r = -1;
	for (i = 0; i < SLOTS; ++i) {
		ISL_S(pair) *p = m->table.entries[i].data;
		if (p && kcls(kidx(p->key)) == cls) {
			ENSURE(r == -1, "a key occurs only once");
			ENSURE(m->table.entries[i].hash == khash[kidx(p->key)], "stored under the hash of its key");
			r = vcls(vidx(p->val));
		}
	}
	return r;
}

static int present(ISL_HMAP *m)
{
	int i, n = 0;
	for (i = 0; i < SLOTS; ++i)
		n += m->table.entries[i].data != NULL;
	return n;
}

/* all references held by live maps a and b, plus extra ones on k, v */
static void refs(ISL_HMAP *a, ISL_HMAP *b, int k, int dk, int v, int dv)
{
	int i, kr[KN], vr[KN], j;
	for (i = 0; i < KN; ++i)
		kr[i] = (i == k) * dk, vr[i] = (i == v) * dv;
	for (j = 0; j < 2; ++j) {
		ISL_HMAP *m = j ? b : a;
		if (!m)
			continue;
		for (i = 0; i < SLOTS; ++i) {
			ISL_S(pair) *p = m->table.entries[i].data;
			if (p)
				kr[kidx(p->key)]++, vr[vidx(p->val)]++;
		}
	}
	for (i = 0; i < KN; ++i)
#ifdef SAMETYPE
		ENSURE(kref[i] == kr[i] + vr[i], "references");
#else
		ENSURE(kref[i] == kr[i] && vref[i] == vr[i], "references");
#endif
}

#if defined(SET) || defined(DROP)
void contract(void)
{
	ISL_HMAP *m = arbitrary(), *r;
	int shared = m->ref == 2;
	unsigned k = nd_below(KN), v = nd_below(KN), c = nd_below(KN);
	int n, want;

	kref[k]++;
#ifdef SET
	vref[v]++;
	r = ISL_FN(ISL_HMAP,set)(m, K(k), V(v));
	n = oldn + (oldval[kcls(k)] == -1);
	want = c == kcls(k) ? (int) vcls(v) : oldval[c];
#else
	r = ISL_FN(ISL_HMAP,drop)(m, K(k));
	n = oldn - (oldval[kcls(k)] != -1);
	want = c == kcls(k) ? -1 : oldval[c];
#endif
	ENSURE(r != NULL, "no error");
	ENSURE(r->table.n == n && present(r) == n, "number of keys");
	ENSURE(lookup(r, c) == want, "every key is mapped to what the operation says");
	if (r != m) {
		ENSURE(shared, "only a shared map is duplicated");
		ENSURE(m->ref == 1 && r->ref == 1, "reference counts");
		ENSURE(m->table.n == oldn && lookup(m, c) == oldval[c], "the original is unchanged");
		refs(m, r, 0, 0, 0, 0);
	} else {
		if (shared)
			ENSURE(n == oldn && lookup(m, c) == oldval[c], "a shared map is not changed");
		refs(m, NULL, 0, 0, 0, 0);
	}
}
#endif

#ifdef GET
void contract(void)
{
	ISL_HMAP *m = arbitrary();
	unsigned k = nd_below(KN), which = nd_below(3), c = nd_below(KN);
	int want = oldval[kcls(k)];

	if (which == 0) {
		ISL_MAYBE(ISL_VAL) r = ISL_FN(ISL_HMAP,try_get)(m, K(k));
		ENSURE(r.valid == isl_bool_ok(want != -1), "a value is found if there is one");
		ENSURE((r.value != NULL) == (want != -1), "value");
		if (r.value) {
			ENSURE(vcls(vidx(r.value)) == want, "the value last associated with the key");
			refs(m, NULL, 0, 0, vidx(r.value), 1);
		} else
			refs(m, NULL, 0, 0, 0, 0);
	} else if (which == 1) {
		ENSURE(ISL_FN(ISL_HMAP,has)(m, K(k)) == isl_bool_ok(want != -1), "has tells whether the key is mapped");
		refs(m, NULL, 0, 0, 0, 0);
	} else {
		ISL_VAL *r;
		kref[k]++;
		r = ISL_FN(ISL_HMAP,get)(m, K(k));
		ENSURE((r != NULL) == (want != -1), "value");
		if (r)
			ENSURE(vcls(vidx(r)) == want, "the value last associated with the key");
		refs(m, NULL, 0, 0, r ? vidx(r) : 0, r != NULL);
	}
	ENSURE(m->table.n == oldn && lookup(m, c) == oldval[c], "the map is unchanged");
}
#endif

#ifdef OTHER
static int seen[KN], calls, stop, user;
static isl_stat visit(ISL_KEY *k, ISL_VAL *v, void *u)
{
	unsigned c = kcls(kidx(k));
	ENSURE(u == &user, "user pointer is passed on");
	ENSURE(!seen[c], "no key is visited twice");
	ENSURE(oldval[c] == vcls(vidx(v)), "visited with its value");
	seen[c] = 1;
	ISL_FN(ISL_KEY,free)(k);
	ISL_FN(ISL_VAL,free)(v);
	return calls++ == stop ? isl_stat_error : isl_stat_ok;
}
void contract(void)
{
	ISL_HMAP *m = arbitrary(), *r;
	unsigned which = nd_below(4), c = nd_below(KN);
	int ref = m->ref;

	if (which == 0) {
		r = ISL_FN(ISL_HMAP,dup)(m);
		ENSURE(r && r != m && r->ref == 1 && m->ref == ref, "a fresh map");
		ENSURE(lookup(r, c) == oldval[c] && r->table.n == oldn, "with the same content");
		refs(m, r, 0, 0, 0, 0);
	} else if (which == 1) {
		isl_stat s;
		stop = nd_below(SLOTS + 1);
		s = ISL_FN(ISL_HMAP,foreach)(m, &visit, &user);
		ENSURE(s == (stop < oldn ? isl_stat_error : isl_stat_ok), "a failing callback is reported");
		ENSURE(calls == (stop < oldn ? stop + 1 : oldn), "every key is visited, until a callback fails");
		refs(m, NULL, 0, 0, 0, 0);
	} else if (which == 2) {
		r = ISL_FN(ISL_HMAP,copy)(m);
		ENSURE(r == m && m->ref == ref + 1, "one more reference");
		refs(m, NULL, 0, 0, 0, 0);
	} else {
		ISL_FN(ISL_HMAP,free)(m);
		refs(ref == 2 ? m : NULL, NULL, 0, 0, 0, 0);
		if (ref == 1)
			return;
		ENSURE(m->ref == 1, "one reference less");
	}
	ENSURE(lookup(m, c) == oldval[c] && m->table.n == oldn, "the map is unchanged");
}
#endif
#endif

#ifdef HISTORY
/* random histories on the real hash table, hash values chosen to collide */
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(rs >> 33) % n; }
static int M[2][KN];
static ISL_HMAP *H[2];
static void dump_op(const char *op, int w, int k, int v) { if (getenv("TRACE")) printf("%s(map%d, key%d, value%d)\n", op, w, k, v); }
static int want_of(ISL_KEY *k, ISL_VAL *v, int *m) { return m[kcls(kidx(k))] == (int) vcls(vidx(v)); }
static int visits, bad;
static isl_stat hvisit(ISL_KEY *k, ISL_VAL *v, void *u)
{
	visits++;
	if (!want_of(k, v, u))
		bad = 1;
	ISL_FN(ISL_KEY,free)(k);
	ISL_FN(ISL_VAL,free)(v);
	return isl_stat_ok;
}
static void agree(int w)
{
	int c, n = 0;
	for (c = 0; c < KN; ++c) {
		ISL_MAYBE(ISL_VAL) r = ISL_FN(ISL_HMAP,try_get)(H[w], K(c));
		int want = M[w][kcls(c)];
		ENSURE(r.valid == isl_bool_ok(want != -1), "a key is mapped iff it was set and not dropped since");
		if (r.value) {
			ENSURE((int) vcls(vidx(r.value)) == want, "the value last associated with the key");
			ISL_FN(ISL_VAL,free)(r.value);
		}
		if (want != -1 && (c == 0 || kcls(c - 1) != kcls(c)))
			n++;
	}
	visits = bad = 0;
	ENSURE(ISL_FN(ISL_HMAP,foreach)(H[w], &hvisit, M[w]) == isl_stat_ok && visits == n && !bad, "foreach visits each key once");
}
void contract(void)
{
	unsigned seed = nd(), len, i, kind, kn;
	rs = seed * 2654435761u + 17;
	kind = rnd(4);
	kn = 2 + rnd(KN - 1);
	for (i = 0; i < KN; ++i) {
		uint32_t h = rnd(1u << 31) * 2u + rnd(2);
		kref[i] = vref[i] = 1000000;
		M[0][i] = M[1][i] = -1;
		khash[i] = kind == 0 ? h : kind == 1 ? h % 3 : kind == 2 ? h << 24 : 3 + 0 * h;
		if (i > 0 && kcls(i) == kcls(i - 1))
			khash[i] = khash[i - 1];
	}
	H[0] = ISL_FN(ISL_HMAP,alloc)(CTX, rnd(6));
	H[1] = ISL_FN(ISL_HMAP,alloc)(CTX, rnd(6));
	len = 1 + rnd(120);
	for (i = 0; i < len; ++i) {
		int w = rnd(2), k = rnd(kn), v = rnd(KN), op = rnd(10);
		if (op < 6) {
			dump_op("set", w, k, v);
			kref[k]++; vref[v]++;
			H[w] = ISL_FN(ISL_HMAP,set)(H[w], K(k), V(v));
			ENSURE(H[w] != NULL, "no error");
			M[w][kcls(k)] = vcls(v);
		} else if (op < 9) {
			dump_op("drop", w, k, 0);
			kref[k]++;
			H[w] = ISL_FN(ISL_HMAP,drop)(H[w], K(k));
			ENSURE(H[w] != NULL, "no error");
			M[w][kcls(k)] = -1;
		} else {
			dump_op("copy to the other one", w, 0, 0);
			ISL_FN(ISL_HMAP,free)(H[1 - w]);
			H[1 - w] = ISL_FN(ISL_HMAP,copy)(H[w]);
			memcpy(M[1 - w], M[w], sizeof(M[w]));
		}
		agree(w);
		agree(1 - w);
	}
	ISL_FN(ISL_HMAP,free)(H[0]);
	ISL_FN(ISL_HMAP,free)(H[1]);
	for (i = 0; i < KN; ++i)
		ENSURE(kref[i] == 1000000 && vref[i] == 1000000, "references");
}
#endif
