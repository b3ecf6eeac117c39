/* Contracts of isl_hash.c: a table of 1 << BITS slots with arbitrary content. */
#include <string.h>
#include <isl/ctx.h>
#include <isl_hash_private.h>
#include "common.h"
#include "isl_hash.c"
#ifndef BITS
#define BITS 2
#endif
#define SIZE (1u << (BITS))
/* occupied slots: a constant, one run of the checker for each */
#ifndef OCC
#define OCC 1
#endif

/* --- representation invariant ------------------------------------------ */
static unsigned home(uint32_t h, int bits) { return isl_hash_bits(h, bits); }

/* every slot from the home position of an entry up to the entry is in use,
 * n is the number of entries and there is room left */
static int wf(struct isl_hash_table *t)
{
	unsigned size = 1u << t->bits, i, j, n = 0;

	for (i = 0; i < size; ++i) {
		if (!t->entries[i].data)
			continue;
		n++;
		for (j = home(t->entries[i].hash, t->bits); j != i; j = (j + 1) & (size - 1))
			if (!t->entries[j].data)
				return 0;
	}
	return n == t->n && n < size;
}

/* --- arbitrary tables ---------------------------------------------------- */
static char objs[SIZE + 1];		/* the data: one object per slot */
static int eqv[SIZE];			/* what eq() says about each object */
static struct isl_hash_table T;
static struct isl_hash_table_entry old[SIZE];
static char key;
static int calls;

static isl_bool eq(const void *entry, const void *val)
{
	unsigned i = (const char *) entry - objs;
	ENSURE(i < SIZE && val == &key, "eq is called on an entry of the table and the key");
	return eqv[i];
}

static void table(void)
{
	unsigned i;

	T.bits = BITS;
	T.n = 0;
	T.entries = calloc(SIZE, sizeof(struct isl_hash_table_entry));
	ASSUME(T.entries != NULL);
	for (i = 0; i < SIZE; ++i) {
		unsigned occ = ((OCC) >> i) & 1;
		uint32_t h = nd();
		eqv[i] = (int) nd_below(3) - 1;
		T.entries[i].hash = h;
		T.entries[i].data = occ ? &objs[i] : NULL;
		T.n += occ;
	}
	ASSUME(wf(&T));
	/* at most one object equals the key */
	memcpy(old, T.entries, sizeof(old));
}

/* how often is (hash, data) in t? */
static unsigned count(struct isl_hash_table *t, uint32_t hash, void *data)
{
	unsigned i, n = 0;
	for (i = 0; i < 1u << t->bits; ++i)
		n += t->entries[i].data == data && t->entries[i].hash == hash;
	return n;
}

static int same(void)
{
	unsigned i;
	if (T.bits != BITS)
		return 0;
	for (i = 0; i < SIZE; ++i)
		if (T.entries[i].data != old[i].data || (old[i].data && T.entries[i].hash != old[i].hash))
			return 0;
	return 1;
}

/* contract of grow_table: twice the size, well-formed, the same entries */
int grow_contract(struct isl_ctx *ctx, struct isl_hash_table *t)
{
	unsigned i, size = 2u << t->bits;
	struct isl_hash_table_entry *e = calloc(size, sizeof(*e)), *o = t->entries;

	ENSURE(t == &T && t->bits == BITS && wf(t), "grow_table is called on a well-formed table");
	for (i = 0; i < SIZE; ++i) {
		unsigned k;
		if (!((OCC >> i) & 1))
			continue;
		ENSURE(o[i].data != NULL, "occupied slot");
		k = nd_below(size);
		ASSUME(e[k].data == NULL);
		e[k] = o[i];
	}
	t->entries = e;
	t->bits = BITS + 1;
	ASSUME(wf(t));
	return 0;
}

/* contract of isl_hash_table_find(reserve = 1, eq = no), on a table with room */
struct isl_hash_table_entry *find_contract(struct isl_ctx *ctx, struct isl_hash_table *t, uint32_t hash,
	isl_bool (*cmp)(const void *entry, const void *val), const void *val, int reserve)
{
	unsigned size = 1u << t->bits, k = nd_below(size), i;
	ENSURE(reserve && 4 * t->n < 3 * size, "room for one more entry");
	ENSURE(cmp == &no, "nothing is compared");
	ASSUME(t->entries[k].data == NULL);
	for (i = home(hash, t->bits); i != k; i = (i + 1) & (size - 1))
		ASSUME(t->entries[i].data != NULL);
	t->n++;
	t->entries[k].hash = hash;
	return &t->entries[k];
}

#ifdef GROW
void contract(void)
{
	unsigned i;
	int n;

	table();
	n = T.n;
	ENSURE(grow_table(NULL, &T) == 0, "no error");
	ENSURE(T.bits == BITS + 1, "twice the size");
	ENSURE(T.n == n, "number of entries");
	ENSURE(wf(&T), "table well-formed after growing");
	for (i = 0; i < SIZE; ++i)
		if (old[i].data)
			ENSURE(count(&T, old[i].hash, old[i].data) == 1, "no entry is lost");
}
#endif

#ifdef FIND
void contract(void)
{
	unsigned i, match = 0, err = 0;
	uint32_t hash = nd();
	int reserve = nd_below(2);
	struct isl_hash_table_entry *e;
	int n;

	table();
	n = T.n;
	for (i = 0; i < SIZE; ++i)
		if (old[i].data && old[i].hash == hash) {
			match += eqv[i] == 1;
			err += eqv[i] < 0;
		}
	e = isl_hash_table_find(NULL, &T, hash, &eq, &key, reserve);
	if (!e) {
		ENSURE(err > 0, "error only if eq fails");
		ENSURE(same() && T.n == n, "table unchanged on error");
	} else if (e == isl_hash_table_entry_none) {
		ENSURE(!reserve, "an entry is returned if one may be reserved");
		ENSURE(!match, "an entry with this key is found");
		ENSURE(same() && T.n == n, "table unchanged if nothing is reserved");
	} else {
		ENSURE(e >= T.entries && e < T.entries + (1u << T.bits), "result is a slot of the table");
		if (e->data) {
			ENSURE(e->hash == hash && eqv[(char *) e->data - objs] == 1, "the entry found matches the key");
			ENSURE(same() && T.n == n, "table unchanged if an entry is found");
		} else {
			ENSURE(reserve, "an empty slot is only returned if asked for");
			ENSURE(!match, "an entry with this key is found instead of reserving a new one");
			ENSURE(e->hash == hash, "hash of reserved entry set");
			for (i = 0; i < SIZE; ++i)
				if (old[i].data)
					ENSURE(count(&T, old[i].hash, old[i].data) == 1, "no entry is lost");
			e->data = &key;
			ENSURE(wf(&T), "table well-formed after filling the reserved slot");
			ENSURE(T.n == n + 1, "one more entry");
			ENSURE(T.bits >= BITS && T.bits <= BITS + 1, "grows by at most one step");
		}
	}
}
#endif

#ifdef REMOVE
void contract(void)
{
	unsigned i, k = nd_below(SIZE);
	int n;

	table();
	n = T.n;
	ASSUME(T.entries[k].data != NULL);
	isl_hash_table_remove(NULL, &T, &T.entries[k]);
	ENSURE(T.bits == BITS && T.n == n - 1, "one entry less");
	ENSURE(wf(&T), "table well-formed after removal");
	for (i = 0; i < SIZE; ++i)
		if (old[i].data)
			ENSURE(count(&T, old[i].hash, old[i].data) == (i != k), "exactly the given entry is removed");
}
#endif

#ifdef FIRST
void contract(void)
{
	struct isl_hash_table_entry *e;

	table();
	e = isl_hash_table_first(&T);
	ENSURE(e != NULL, "no error");
	if (e == isl_hash_table_entry_none)
		ENSURE(T.n == 0, "an entry is returned if there is one");
	else
		ENSURE(e >= T.entries && e < T.entries + SIZE && e->data, "the result is an entry of the table");
	ENSURE(same(), "table unchanged");
}
#endif

#ifdef FOREACH
static int stop, seen[SIZE], user, clear;
static isl_stat visit(void **entry, void *u)
{
	unsigned i = (char *) *entry - objs;
	ENSURE(u == &user, "user pointer is passed on");
	ENSURE(i < SIZE && old[i].data == &objs[i] && entry == &T.entries[i].data, "called on an entry of the table");
	ENSURE(!seen[i], "no entry is visited twice");
	seen[i] = 1;
	if (clear)
		*entry = NULL;
	return calls++ == stop ? isl_stat_error : isl_stat_ok;
}
void contract(void)
{
	isl_stat r;
	int n;

	table();
	n = T.n;
	stop = nd_below(SIZE + 1);
	clear = nd_below(2);
	r = isl_hash_table_foreach(NULL, &T, &visit, &user);
	if (stop < n) {
		ENSURE(r == isl_stat_error, "a failing callback is reported");
		ENSURE(calls == stop + 1, "stops at the first failing callback");
	} else {
		ENSURE(r == isl_stat_ok, "success if every callback succeeds");
		ENSURE(calls == n, "every entry is visited");
	}
	if (!clear)
		ENSURE(same(), "table unchanged");
}
#endif

#ifdef INIT
void contract(void)
{
	int m = (int) nd();
	unsigned i;

	ASSUME(m <= 12);
	ENSURE(isl_hash_table_init(NULL, &T, m) == 0, "no error");
	ENSURE(T.n == 0 && T.bits >= 1 && T.bits <= 6, "size");
	ENSURE(m < 1 || (1 << T.bits) > m, "room for the entries asked for");
	for (i = 0; i < 1u << T.bits; ++i)
		ENSURE(T.entries[i].data == NULL, "empty table");
}
#endif

#ifdef HISTORY
/* random histories, hash values chosen to collide, wrap around and grow */
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(rs >> 33) % n; }
#define N 96
static int item[N], in[N];
static uint32_t ih[N];
static isl_bool same_item(const void *a, const void *b) { return a == b ? isl_bool_true : isl_bool_false; }
static int visited[N], nvis;
static isl_stat hv(void **e, void *u) { int i = (int *) *e - item; if (i < 0 || i >= N || !in[i]) return isl_stat_error; visited[i]++; nvis++; return isl_stat_ok; }
static void agree(int n)
{
	int i;
	struct isl_hash_table_entry *e;
	ENSURE(T.n == n, "number of entries");
	for (i = 0; i < N; ++i) {
		e = isl_hash_table_find(NULL, &T, ih[i], &same_item, &item[i], 0);
		ENSURE(e != NULL, "no error");
		ENSURE((e != isl_hash_table_entry_none) == in[i], "an entry is found iff it was inserted and not removed since");
		if (in[i])
			ENSURE(e->data == &item[i] && e->hash == ih[i], "the entry itself is found");
		visited[i] = 0;
	}
	nvis = 0;
	ENSURE(isl_hash_table_foreach(NULL, &T, &hv, NULL) == isl_stat_ok, "every entry is visited");
	for (i = 0; i < N; ++i)
		ENSURE(visited[i] == in[i], "every entry is visited once");
	e = isl_hash_table_first(&T);
	ENSURE(e != NULL && (n > 0 ? e->data != NULL : e == isl_hash_table_entry_none), "first");
	ENSURE(wf(&T), "table well-formed");
}
void contract(void)
{
	unsigned seed = nd(), len, i, kind, n = 0, k;
	rs = seed * 2654435761u + 99;
	kind = rnd(5);
	for (i = 0; i < N; ++i) {
		uint32_t h = rnd(1u << 31) * 2u + rnd(2);
		in[i] = 0;
		ih[i] = kind == 0 ? h : kind == 1 ? h % 4 : kind == 2 ? h << 28 : kind == 3 ? ~(h % 5) : 0xffffffffu;
	}
	ENSURE(isl_hash_table_init(NULL, &T, rnd(9)) == 0, "no error");
	k = 1 + rnd(N);
	len = 1 + rnd(150);
	for (i = 0; i < len; ++i) {
		unsigned j = rnd(k);
		struct isl_hash_table_entry *e;
		if (getenv("TRACE"))
			printf("%s item %u, hash %u\n", in[j] ? "remove" : "insert", j, ih[j]);
		if (!in[j]) {
			e = isl_hash_table_find(NULL, &T, ih[j], &same_item, &item[j], 1);
			ENSURE(e && e != isl_hash_table_entry_none && !e->data, "an empty slot is reserved for a new entry");
			e->data = &item[j];
			n++;
		} else {
			e = isl_hash_table_find(NULL, &T, ih[j], &same_item, &item[j], rnd(2));
			ENSURE(e && e->data == &item[j], "an entry that was inserted is found");
			isl_hash_table_remove(NULL, &T, e);
			n--;
		}
		in[j] ^= 1;
		agree(n);
	}
	isl_hash_table_clear(&T);
}
#endif
