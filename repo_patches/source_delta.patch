From b4850cab6a7fb716c06f98e2d5041c6aa9abd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 01/66] fix: isl_*_list_foreach_scc: report failure on last
 component

The number of remaining elements is decremented before the callback
is called, so a failure of the callback on the last component
was reported as success.
---
 isl_list_templ.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_list_templ.c b/isl_list_templ.c
index cfb4f33..7eb2e23 100644
--- a/isl_list_templ.c
+++ b/isl_list_templ.c
@@ -578,8 +578,10 @@ isl_stat FN(LIST(EL),foreach_scc)(__isl_keep LIST(EL) *list,
 			return fn(FN(LIST(EL),copy)(list), fn_user);
 		}
 		if (FN(LIST(EL),call_on_scc)(list, g->order + first, i - first,
-					    fn, fn_user) < 0)
-			break;
+					    fn, fn_user) < 0) {
+			isl_tarjan_graph_free(g);
+			return isl_stat_error;
+		}
 		++i;
 	} while (n);
 
-- 
2.43.0


From f3f0a16f1dc483238085a3a84d85c90911de5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 02/66] fix: isl_val_gcd: return non-negative result on equal
 negative arguments

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 8b77622..c95d462 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1022,7 +1022,7 @@ __isl_give isl_val *isl_val_gcd(__isl_take isl_val *v1, __isl_take isl_val *v2)
 			"expecting two integers", goto error);
 	if (isl_val_eq(v1, v2)) {
 		isl_val_free(v2);
-		return v1;
+		return isl_val_abs(v1);
 	}
 	if (isl_val_is_one(v1)) {
 		isl_val_free(v2);
-- 
2.43.0


From 1c8ed33dc39fb7d2c9d44c3d1d9263cd1b40ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 03/66] fix: isl_vec_normalize: do not modify shared vector

---
 isl_vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_vec.c b/isl_vec.c
index 323015b..6461eda 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -455,6 +455,7 @@ __isl_give isl_vec *isl_vec_ceil(__isl_take isl_vec *vec)
 
 __isl_give isl_vec *isl_vec_normalize(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	isl_seq_normalize(vec->ctx, vec->el, vec->size);
-- 
2.43.0


From 298cbb5e400ab4f54d04d30fa354c19b51c178b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 04/66] fix: isl_vec_sort: do not modify shared vector

---
 isl_vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_vec.c b/isl_vec.c
index 6461eda..4045bc1 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -525,6 +525,7 @@ static int qsort_int_cmp(const void *p1, const void *p2)
 
 __isl_give isl_vec *isl_vec_sort(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	
-- 
2.43.0


From 4b329f54e0d37698f2de2a5b7fb5c630b5bf0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:19 +0000
Subject: [PATCH 05/66] fix: isl_mat_extend: do not add columns to shared
 matrix

---
 isl_mat.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/isl_mat.c b/isl_mat.c
index 37468ee..6b883b4 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -95,6 +95,13 @@ __isl_give isl_mat *isl_mat_extend(__isl_take isl_mat *mat,
 	isl_int *old;
 	isl_int **row;
 
+	if (!mat)
+		return NULL;
+
+	if (mat->n_col >= n_col && mat->n_row >= n_row)
+		return mat;
+
+	mat = isl_mat_cow(mat);
 	if (!mat)
 		return NULL;
 
@@ -118,10 +125,6 @@ __isl_give isl_mat *isl_mat_extend(__isl_take isl_mat *mat,
 		return new_mat;
 	}
 
-	mat = isl_mat_cow(mat);
-	if (!mat)
-		goto error;
-
 	old = mat->block.data;
 	mat->block = isl_blk_extend(mat->ctx, mat->block, n_row * mat->max_col);
 	if (isl_blk_is_error(mat->block))
-- 
2.43.0


From 0479d7e0640f9233485c54db59525b2d5ecab07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:19 +0000
Subject: [PATCH 06/66] fix: isl_mat_extend: do not reuse the memory of moved
 rows

---
 isl_mat.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 6b883b4..d08c1bc 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -88,6 +88,23 @@ error:
 	return NULL;
 }
 
+/* Are all rows of "mat" stored in the initial part of its block, i.e.,
+ * the part that would be used for a newly allocated matrix
+ * with the same number of rows?
+ * This may not be the case if some rows have been dropped.
+ */
+static int has_initial_rows(__isl_keep isl_mat *mat)
+{
+	int i;
+	isl_int *end = mat->block.data + mat->n_row * mat->max_col;
+
+	for (i = 0; i < mat->n_row; ++i)
+		if (mat->row[i] >= end)
+			return 0;
+
+	return 1;
+}
+
 __isl_give isl_mat *isl_mat_extend(__isl_take isl_mat *mat,
 	unsigned n_row, unsigned n_col)
 {
@@ -111,11 +128,13 @@ __isl_give isl_mat *isl_mat_extend(__isl_take isl_mat *mat,
 		return mat;
 	}
 
-	if (mat->max_col < n_col) {
+	if (mat->max_col < n_col || !has_initial_rows(mat)) {
 		struct isl_mat *new_mat;
 
 		if (n_row < mat->n_row)
 			n_row = mat->n_row;
+		if (n_col < mat->n_col)
+			n_col = mat->n_col;
 		new_mat = isl_mat_alloc(mat->ctx, n_row, n_col);
 		if (!new_mat)
 			goto error;
-- 
2.43.0


From aa14c428bca754e94d3af26d1eb8ad7f436ad9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 07/66] fix: isl_mat_unimodular_complete: do not modify shared
 matrix

---
 isl_mat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_mat.c b/isl_mat.c
index d08c1bc..464ddea 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1761,6 +1761,7 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 	int r;
 	struct isl_mat *H = NULL, *Q = NULL;
 
+	M = isl_mat_cow(M);
 	if (!M)
 		return NULL;
 
-- 
2.43.0


From ca7d84e44b3ef45325d9f7b7317029a68d22a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 08/66] fix: isl_mat_normalize: handle matrix without non-zero
 elements

---
 isl_mat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 464ddea..242f85c 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -2017,7 +2017,8 @@ __isl_give isl_mat *isl_mat_normalize(__isl_take isl_mat *mat)
 
 	isl_int_init(gcd);
 	isl_mat_gcd(mat, &gcd);
-	mat = isl_mat_scale_down(mat, gcd);
+	if (!isl_int_is_zero(gcd))
+		mat = isl_mat_scale_down(mat, gcd);
 	isl_int_clear(gcd);
 
 	return mat;
-- 
2.43.0


From 91795bf51028221114f015f0f6ea38b31763a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 09/66] fix: isl_space_move_dims: check destination position

A position beyond the end of the destination tuple resulted in
a write outside of the array of identifiers.
---
 isl_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 16c7d64..407c212 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1401,6 +1401,8 @@ __isl_give isl_space *isl_space_move_dims(__isl_take isl_space *space,
 
 	if (isl_space_check_range(space, src_type, src_pos, n) < 0)
 		return isl_space_free(space);
+	if (isl_space_check_range(space, dst_type, dst_pos, 0) < 0)
+		return isl_space_free(space);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return space;
-- 
2.43.0


From 125168452b702db768a6c3e9ad5b03aec9d63fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:08 +0000
Subject: [PATCH 10/66] fix: isl_space_range_reverse: let identifiers follow
 the dimensions

The identifiers of the output dimensions were left in their original
positions, while those of the nested relation were reversed.
---
 isl_space.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 407c212..06fa14a 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -2016,6 +2016,32 @@ error:
 	return NULL;
 }
 
+/* Move the identifiers of the first "n" output dimensions of "space"
+ * after those of the other output dimensions.
+ */
+static __isl_give isl_space *rotate_output_ids(__isl_take isl_space *space,
+	unsigned n)
+{
+	unsigned n_out;
+	isl_id **ids;
+
+	if (!space || !space->ids)
+		return space;
+	space = isl_space_cow(space);
+	if (!space)
+		return NULL;
+	n_out = space->n_out;
+	ids = isl_alloc_array(space->ctx, isl_id *, n_out);
+	if (n_out && !ids)
+		return isl_space_free(space);
+	get_ids(space, isl_dim_out, n, n_out - n, ids);
+	get_ids(space, isl_dim_out, 0, n, ids + n_out - n);
+	space = set_ids(space, isl_dim_out, 0, n_out, ids);
+	free(ids);
+
+	return space;
+}
+
 /* Given a space A -> (B -> C), return the corresponding space
  * A -> (C -> B).
  *
@@ -2027,11 +2053,13 @@ __isl_give isl_space *isl_space_range_reverse(__isl_take isl_space *space)
 {
 	isl_space *nested;
 	isl_bool equal;
+	unsigned n_in;
 
 	if (isl_space_check_range_is_wrapping(space) < 0)
 		return isl_space_free(space);
 
 	nested = isl_space_peek_nested(space, 1);
+	n_in = n(nested, isl_dim_in);
 	equal = isl_space_tuple_is_equal(nested, isl_dim_in,
 					nested, isl_dim_out);
 	if (equal < 0)
@@ -2040,6 +2068,7 @@ __isl_give isl_space *isl_space_range_reverse(__isl_take isl_space *space)
 	nested = isl_space_take_nested(space, 1);
 	nested = isl_space_reverse(nested);
 	space = isl_space_restore_nested(space, 1, nested);
+	space = rotate_output_ids(space, n_in);
 	if (!equal)
 		space = isl_space_reset_tuple_id(space, isl_dim_out);
 
-- 
2.43.0


From cad393a55543c5c038cc3b27d773963b7e319283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:14 +0000
Subject: [PATCH 11/66] fix: isl_basic_map_project_out: check the range before
 using it

The positions were used by drop_irrelevant_constraints, which writes
to an array with one entry per dimension, before they were checked.
---
 isl_map.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 5cb7a56..a45de9c 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4533,6 +4533,8 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 		isl_die(isl_basic_map_get_ctx(bmap), isl_error_invalid,
 			"cannot project out existentially quantified variables",
 			return isl_basic_map_free(bmap));
+	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
+		return isl_basic_map_free(bmap);
 
 	empty = isl_basic_map_plain_is_empty(bmap);
 	if (empty < 0)
@@ -4547,9 +4549,6 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_RATIONAL))
 		return isl_basic_map_remove_dims(bmap, type, first, n);
 
-	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
-		return isl_basic_map_free(bmap);
-
 	bmap = move_last(bmap, type, first, n);
 	bmap = isl_basic_map_cow(bmap);
 	bmap = insert_div_rows(bmap, n);
-- 
2.43.0


From 047b1c59b85c0378d96041d38a43612f01288c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 12/66] fix: isl_tarjan_components: propagate errors of
 recursive calls

---
 isl_tarjan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_tarjan.c b/isl_tarjan.c
index a958c01..87d81f0 100644
--- a/isl_tarjan.c
+++ b/isl_tarjan.c
@@ -87,7 +87,8 @@ static isl_stat isl_tarjan_components(struct isl_tarjan_graph *g, int i,
 			continue;
 
 		if (g->node[j].index < 0) {
-			isl_tarjan_components(g, j, follows, user);
+			if (isl_tarjan_components(g, j, follows, user) < 0)
+				return isl_stat_error;
 			if (g->node[j].min_index < g->node[i].min_index)
 				g->node[i].min_index = g->node[j].min_index;
 		} else if (g->node[j].index < g->node[i].min_index)
-- 
2.43.0


From 3c7b0e49700da995e985de773d959ad6eed9ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:23 +0000
Subject: [PATCH 13/66] fix: isl_aff_set_coefficient_val: free value on invalid
 position

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 6f3e7d7..4878542 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -1199,7 +1199,7 @@ __isl_give isl_aff *isl_aff_set_coefficient_val(__isl_take isl_aff *aff,
 		type = isl_dim_set;
 
 	if (isl_local_space_check_range(aff->ls, type, pos, 1) < 0)
-		return isl_aff_free(aff);
+		goto error;
 
 	if (isl_aff_is_nan(aff)) {
 		isl_val_free(v);
-- 
2.43.0


From 41420af1e8b7e060a1aaa4c42c81438c2f001d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:23 +0000
Subject: [PATCH 14/66] fix: isl_basic_map_from_aff_list: free space if there
 is no list

---
 isl_aff_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_aff_map.c b/isl_aff_map.c
index 3f46d86..ced68c7 100644
--- a/isl_aff_map.c
+++ b/isl_aff_map.c
@@ -269,8 +269,10 @@ __isl_give isl_basic_map *isl_basic_map_from_aff_list(
 	isl_space *space;
 	isl_basic_map *bmap;
 
-	if (!list)
+	if (!list) {
+		isl_space_free(domain_space);
 		return NULL;
+	}
 
 	space = isl_space_from_domain(domain_space);
 	bmap = isl_basic_map_universe(space);
-- 
2.43.0


From 0bd0be4644e205dd1e0f9e8e2f9686f23774e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 15/66] fix: isl_set_plain_cmp: handle NULL arguments

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index a45de9c..3ea8d88 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10399,6 +10399,10 @@ int isl_set_plain_cmp(__isl_keep isl_set *set1, __isl_keep isl_set *set2)
 
 	if (set1 == set2)
 		return 0;
+	if (!set1)
+		return -1;
+	if (!set2)
+		return 1;
 	if (set1->n != set2->n)
 		return set1->n - set2->n;
 
-- 
2.43.0


From e6610eb077e95ad67489de8050be3c95c0e571a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 16/66] fix: isl_pw_qpolynomial_fold_size: handle NULL argument

---
 isl_fold.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 2d7f85c..880f6c2 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1434,6 +1434,9 @@ size_t isl_pw_qpolynomial_fold_size(__isl_keep isl_pw_qpolynomial_fold *pwf)
 	int i;
 	size_t n = 0;
 
+	if (!pwf)
+		return isl_size_error;
+
 	for (i = 0; i < pwf->n; ++i) {
 		isl_size n_i;
 		isl_qpolynomial_list *list;
-- 
2.43.0


From 9a7868d38a3c349fedb44dd87a977c54e4738528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 17/66] fix: isl_space_is_domain, isl_space_is_range: report
 NULL first argument

---
 isl_space.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_space.c b/isl_space.c
index 06fa14a..f6db5ac 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -2645,7 +2645,7 @@ isl_bool isl_space_is_domain_internal(__isl_keep isl_space *space1,
 isl_bool isl_space_is_domain(__isl_keep isl_space *space1,
 	__isl_keep isl_space *space2)
 {
-	if (!space2)
+	if (!space1 || !space2)
 		return isl_bool_error;
 	if (!isl_space_is_map(space2))
 		return isl_bool_false;
@@ -2675,7 +2675,7 @@ isl_bool isl_space_is_range_internal(__isl_keep isl_space *space1,
 isl_bool isl_space_is_range(__isl_keep isl_space *space1,
 	__isl_keep isl_space *space2)
 {
-	if (!space2)
+	if (!space1 || !space2)
 		return isl_bool_error;
 	if (!isl_space_is_map(space2))
 		return isl_bool_false;
-- 
2.43.0


From 1d72ae9972491ec51ddc89112a6e869d297cc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 18/66] fix: isl_*_fixed_power_val: do not modify shared
 exponent

---
 isl_power_templ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_power_templ.c b/isl_power_templ.c
index 65253bd..a723cf7 100644
--- a/isl_power_templ.c
+++ b/isl_power_templ.c
@@ -71,6 +71,9 @@ __isl_give TYPE *FN(TYPE,fixed_power_val)(__isl_take TYPE *map,
 	if (!isl_val_is_int(exp))
 		isl_die(FN(TYPE,get_ctx)(map), isl_error_invalid,
 			"expecting integer exponent", goto error);
+	exp = isl_val_cow(exp);
+	if (!exp)
+		goto error;
 	map = FN(TYPE,fixed_power)(map, exp->n);
 	isl_val_free(exp);
 	return map;
-- 
2.43.0


From 2be852c3be6fc720f452b476aeb1e14862cc3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 19/66] fix: isl_union_pw_multi_aff_scale_multi_val: free multi
 value

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 4878542..0a72580 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6916,7 +6916,7 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 	if (!upma || !mv)
 		goto error;
 
-	return isl_union_pw_multi_aff_transform(upma, &control);
+	upma = isl_union_pw_multi_aff_transform(upma, &control);
 
 	isl_multi_val_free(mv);
 	return upma;
-- 
2.43.0


From 9ae88848a1510e6cbb28c87f147128b54a7c13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 20/66] fix: isl_union_*_subtract_domain_union_set: report NULL
 set

---
 isl_union_templ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index 784e8c3..f30504f 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -930,6 +930,9 @@ __isl_give UNION *FN(UNION,subtract_domain_union_set)(__isl_take UNION *u,
 		.fn_user = uset,
 	};
 
+	if (!uset)
+		return FN(UNION,free)(u);
+
 	u = FN(UNION,transform)(u, &control);
 	isl_union_set_free(uset);
 	return u;
-- 
2.43.0


From 3969644682d2f1fc8879c2cee2ef0d54f964cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:01 +0000
Subject: [PATCH 21/66] fix: isl_union_map_intersect_{domain,range}_space:
 report NULL space

---
 isl_union_map.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_union_map.c b/isl_union_map.c
index eaafe18..c3da826 100644
--- a/isl_union_map.c
+++ b/isl_union_map.c
@@ -4589,6 +4589,9 @@ __isl_give isl_union_map *isl_union_map_intersect_domain_space(
 		.filter_user = space,
 	};
 
+	if (!space)
+		return isl_union_map_free(umap);
+
 	umap = un_op(umap, &control);
 	isl_space_free(space);
 	return umap;
@@ -4604,6 +4607,9 @@ __isl_give isl_union_map *isl_union_map_intersect_range_space(
 		.filter_user = space,
 	};
 
+	if (!space)
+		return isl_union_map_free(umap);
+
 	umap = un_op(umap, &control);
 	isl_space_free(space);
 	return umap;
-- 
2.43.0


From d3146d5602d470bc8622893173212fe2638eaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:11 +0000
Subject: [PATCH 22/66] fix: isl_union_*_{intersect,subtract}_domain_space:
 report NULL space

---
 isl_union_templ.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index f30504f..74518a1 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -862,6 +862,9 @@ __isl_give UNION *FN(UNION,intersect_domain_space)(__isl_take UNION *u,
 		.filter_user = space,
 	};
 
+	if (!space)
+		return FN(UNION,free)(u);
+
 	u = FN(UNION,transform)(u, &control);
 	isl_space_free(space);
 	return u;
@@ -971,6 +974,9 @@ __isl_give UNION *FN(UNION,subtract_domain_space)(__isl_take UNION *u,
 		.filter_user = space,
 	};
 
+	if (!space)
+		return FN(UNION,free)(u);
+
 	u = FN(UNION,transform)(u, &control);
 	isl_space_free(space);
 	return u;
-- 
2.43.0


From a1667b52b4956e5fd610ef967b44b99bf86d2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:11 +0000
Subject: [PATCH 23/66] fix: isl_union_pw_multi_aff_multi_val_on_domain: report
 NULL value

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 0a72580..16f7ae5 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7870,7 +7870,7 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_multi_val_on_domain(
 	space = isl_union_set_get_space(domain);
 	data.res = isl_union_pw_multi_aff_empty(space);
 	data.mv = mv;
-	if (isl_union_set_foreach_set(domain,
+	if (!mv || isl_union_set_foreach_set(domain,
 			&pw_multi_aff_multi_val_on_domain, &data) < 0)
 		data.res = isl_union_pw_multi_aff_free(data.res);
 	isl_union_set_free(domain);
-- 
2.43.0


From a847f55393eeeec67dbef87cb624b6e856341bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:24 +0000
Subject: [PATCH 24/66] fix: isl_pw_*_grow: do not reuse the memory of a shared
 object

---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 4dd403f..b8eec9e 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -761,7 +761,7 @@ static __isl_give PW *FN(PW,grow)(__isl_take PW *pw, int n)
 
 	if (!pw)
 		return NULL;
-	if (pw->n + n <= pw->size)
+	if (pw->ref == 1 && pw->n + n <= pw->size)
 		return pw;
 	ctx = FN(PW,get_ctx)(pw);
 	n += pw->n;
-- 
2.43.0


From 88275e593947d318c61bd75b3e1d14162d702c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:24 +0000
Subject: [PATCH 25/66] fix: isl_set_insert_domain: do not use an invalid
 number of dimensions

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 3ea8d88..93e497d 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -12873,8 +12873,10 @@ __isl_give isl_map *isl_set_insert_domain(__isl_take isl_set *set,
 	if (isl_set_check_is_set(set) < 0 || isl_space_check_is_set(domain) < 0)
 		domain = isl_space_free(domain);
 	dim = isl_space_dim(domain, isl_dim_set);
-	if (dim < 0)
+	if (dim < 0) {
 		domain = isl_space_free(domain);
+		set = isl_set_free(set);
+	}
 	space = isl_set_get_space(set);
 	domain = isl_space_replace_params(domain, space);
 	space = isl_space_map_from_domain_and_range(domain, space);
-- 
2.43.0


From 8be469b8ea321fbe2b9eb48c2e336affe9a94a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:24 +0000
Subject: [PATCH 26/66] fix: isl_basic_map_move_dims: check destination
 position

---
 isl_map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 93e497d..669a10c 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4233,7 +4233,8 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 		return bmap;
 	}
 
-	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0)
+	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0 ||
+	    isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
 		return isl_basic_map_free(bmap);
 
 	if (dst_type == src_type && dst_pos == src_pos)
-- 
2.43.0


From fc80bf7fafdc419791fe8d97093e6aea13be0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:24 +0000
Subject: [PATCH 27/66] fix: isl_point_{add,sub}_ui: check position

---
 isl_point.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_point.c b/isl_point.c
index f315b3d..8b9042b 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -507,6 +507,9 @@ __isl_give isl_point *isl_point_add_ui(__isl_take isl_point *pnt,
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
 
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
+
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
 		return NULL;
@@ -535,6 +538,9 @@ __isl_give isl_point *isl_point_sub_ui(__isl_take isl_point *pnt,
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
 
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
+
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
 		return NULL;
-- 
2.43.0


From aaab7469b4146aa4aaab5e117e102be554728692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:39 +0000
Subject: [PATCH 28/66] fix: map_product: do not ignore errors while checking
 for empty products

---
 isl_map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 669a10c..1246d0e 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10921,9 +10921,13 @@ static __isl_give isl_map *map_product(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
 			part = basic_map_product(isl_basic_map_copy(map1->p[i]),
 						 isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				part = isl_basic_map_free(part);
+			if (empty > 0)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From fffd679e1dbfd350453d201f4f4909426453dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:39 +0000
Subject: [PATCH 29/66] fix: isl_map_sum: do not ignore errors while checking
 for empty sums

---
 isl_map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 1246d0e..cdb7176 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4913,10 +4913,14 @@ __isl_give isl_map *isl_map_sum(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
 			part = isl_basic_map_sum(
 				    isl_basic_map_copy(map1->p[i]),
 				    isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				part = isl_basic_map_free(part);
+			if (empty > 0)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From 992a1498fe580cad5995c1c07ff23000634fa0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:39 +0000
Subject: [PATCH 30/66] fix: isl_{basic_,}set_count_upto: report errors if
 there is no upper bound

---
 isl_scan.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_scan.c b/isl_scan.c
index c4666ed..827a26f 100644
--- a/isl_scan.c
+++ b/isl_scan.c
@@ -262,7 +262,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_basic_set_scan(isl_basic_set_copy(bset), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    (isl_int_is_zero(cnt.max) || isl_int_lt(cnt.count, cnt.max)))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -271,6 +271,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
@@ -288,7 +289,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_set_scan(isl_set_copy(set), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    (isl_int_is_zero(cnt.max) || isl_int_lt(cnt.count, cnt.max)))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -297,6 +298,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
-- 
2.43.0


From 9aa1fb8139a4d298bf1f06e575ac687f3a03931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:02 +0000
Subject: [PATCH 31/66] fix: isl_pw_*_union_add_: do not ignore errors on
 shared domain

---
 isl_pw_templ.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index b8eec9e..f4374b2 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -711,10 +711,14 @@ static __isl_give PW *FN(PW,union_add_)(__isl_take PW *pw1, __isl_take PW *pw2)
 		set = isl_set_copy(pw1->p[i].set);
 		for (j = 0; j < pw2->n; ++j) {
 			struct isl_set *common;
+			isl_bool empty;
 			EL *sum;
 			common = isl_set_intersect(isl_set_copy(pw1->p[i].set),
 						isl_set_copy(pw2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = FN(PW,free)(res);
+			if (empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From a735097660ef5c92c818113f2c1c4e89a45a2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:20 +0000
Subject: [PATCH 32/66] fix: isl_val_gt_si: do not turn an error into true

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index c95d462..4b41f54 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1339,7 +1339,7 @@ isl_bool isl_val_gt_si(__isl_keep isl_val *v, long i)
 		return isl_bool_false;
 
 	vi = isl_val_int_from_si(isl_val_get_ctx(v), i);
-	res = isl_bool_ok(isl_val_gt(v, vi));
+	res = isl_val_gt(v, vi);
 	isl_val_free(vi);
 
 	return res;
-- 
2.43.0


From 0fb836899e869deaa9472c1f4dcf6bcd35ae315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:20 +0000
Subject: [PATCH 33/66] fix: isl_pw_qpolynomial_mul: do not ignore errors on
 shared domain

---
 isl_polynomial.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 45c598f..74580a1 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3186,9 +3186,13 @@ __isl_give isl_pw_qpolynomial *isl_pw_qpolynomial_mul(
 		for (j = 0; j < pwqp2->n; ++j) {
 			struct isl_set *common;
 			struct isl_qpolynomial *prod;
+			isl_bool empty;
 			common = isl_set_intersect(isl_set_copy(pwqp1->p[i].set),
 						isl_set_copy(pwqp2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = isl_pw_qpolynomial_free(res);
+			if (empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From 7965a7759f32f2b42f4b78a5a8fe4b8027c55f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:20 +0000
Subject: [PATCH 34/66] fix: isl_pw_qpolynomial_fold_fold: do not ignore errors
 on shared domain

---
 isl_fold.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_fold.c b/isl_fold.c
index 880f6c2..f9f0ba5 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1147,11 +1147,15 @@ __isl_give isl_pw_qpolynomial_fold *isl_pw_qpolynomial_fold_fold(
 		for (j = 0; j < pw2->n; ++j) {
 			struct isl_set *common;
 			isl_qpolynomial_fold *sum;
+			isl_bool empty;
 			set = isl_set_subtract(set,
 					isl_set_copy(pw2->p[j].set));
 			common = isl_set_intersect(isl_set_copy(pw1->p[i].set),
 						isl_set_copy(pw2->p[j].set));
-			if (isl_set_plain_is_empty(common)) {
+			empty = isl_set_plain_is_empty(common);
+			if (empty < 0)
+				res = isl_pw_qpolynomial_fold_free(res);
+			if (empty) {
 				isl_set_free(common);
 				continue;
 			}
-- 
2.43.0


From 0f70c2f42ea8410c6f5df3812b998df1fe6818b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:19 +0000
Subject: [PATCH 35/66] fix: basic_map_partial_lexopt_base_sol: report errors
 in context

---
 isl_tab_pip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 5a3148b..a3b397b 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -4447,7 +4447,7 @@ static struct isl_sol *basic_map_partial_lexopt_base_sol(
 		tab = context->op->detect_nonnegative_parameters(context, tab);
 		find_solutions_main(sol, tab);
 	}
-	if (sol->error)
+	if (sol->error || !context->op->is_ok(context))
 		goto error;
 
 	isl_basic_map_free(bmap);
-- 
2.43.0


From 94d0cf041aba1171c45528ad6dcfa7de891e0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 36/66] fix: isl_stream_read_union_map: do not ignore errors of
 emptiness check

---
 isl_input.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/isl_input.c b/isl_input.c
index e0eb2bf..65d30f6 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -3212,9 +3212,15 @@ __isl_give isl_union_map *isl_stream_read_union_map(__isl_keep isl_stream *s)
 		obj.type = isl_obj_union_set;
 		obj.v = isl_union_set_from_set(obj.v);
 	}
-	if (obj.v && obj.type == isl_obj_union_set &&
-	    isl_union_set_is_empty(obj.v))
-		obj.type = isl_obj_union_map;
+	if (obj.v && obj.type == isl_obj_union_set) {
+		isl_bool empty;
+
+		empty = isl_union_set_is_empty(obj.v);
+		if (empty < 0)
+			goto error;
+		if (empty)
+			obj.type = isl_obj_union_map;
+	}
 	if (obj.v && obj.type != isl_obj_union_map)
 		isl_die(s->ctx, isl_error_invalid, "invalid input", goto error);
 
-- 
2.43.0


From 114573c23f9a70f2c6336a83c1449fea89fffc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 37/66] fix: collect_universe_domain_extension: do not ignore
 errors on outer nodes

---
 isl_schedule_node.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_schedule_node.c b/isl_schedule_node.c
index 9d140e5..33b1ce3 100644
--- a/isl_schedule_node.c
+++ b/isl_schedule_node.c
@@ -415,6 +415,7 @@ static isl_stat collect_universe_domain_extension(
 	struct isl_schedule_node_get_filter_prefix_data data_outer;
 	isl_union_map *extension;
 	isl_union_set *filter;
+	isl_stat r;
 
 	data_outer.initialized = 0;
 	data_outer.universe_domain = 1;
@@ -423,12 +424,15 @@ static isl_stat collect_universe_domain_extension(
 	data_outer.filter = NULL;
 	data_outer.prefix = NULL;
 
-	if (collect_filter_prefix(list, n, &data_outer) < 0)
+	r = collect_filter_prefix(list, n, &data_outer);
+	if (r < 0)
 		data_outer.filter = isl_union_set_free(data_outer.filter);
 
 	extension = isl_schedule_tree_extension_get_extension(tree);
 	extension = isl_union_map_universe(extension);
 	filter = isl_union_map_range(extension);
+	if (r < 0)
+		filter = isl_union_set_free(filter);
 	if (data_outer.initialized)
 		filter = isl_union_set_union(filter, data_outer.filter);
 	if (data->initialized)
-- 
2.43.0


From a1d88de6d28d9b662ab4880da2e9f1e2a617faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:52 +0000
Subject: [PATCH 38/66] fix: isl_printer_print_schedule_tree_mark: handle NULL
 tree

---
 isl_schedule_tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 8dfe1d7..276f159 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -2777,6 +2777,9 @@ __isl_give isl_printer *isl_printer_print_schedule_tree_mark(
 	int sequence = 0;
 	int block;
 
+	if (!tree)
+		return isl_printer_free(p);
+
 	block = isl_printer_get_yaml_style(p) == ISL_YAML_STYLE_BLOCK;
 
 	p = isl_printer_yaml_start_mapping(p);
-- 
2.43.0


From e0600a146cc61d435eef29a5682bf40c7cc5f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:11 +0000
Subject: [PATCH 39/66] fix: isl_printer_print_point: report NULL point

---
 isl_point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_point.c b/isl_point.c
index 8b9042b..84c1572 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -846,7 +846,7 @@ __isl_give isl_printer *isl_printer_print_point(
 	isl_size nparam;
 
 	if (!pnt)
-		return p;
+		return isl_printer_free(p);
 	if (isl_point_is_void(pnt)) {
 		p = isl_printer_print_str(p, "void");
 		return p;
-- 
2.43.0


From bf93cd83077c1341b7f54587675b0c7d43dddaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:11 +0000
Subject: [PATCH 40/66] fix: isl_printer_print_ast_node: handle NULL node

---
 isl_ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_ast.c b/isl_ast.c
index ae4c156..7d3cf89 100644
--- a/isl_ast.c
+++ b/isl_ast.c
@@ -2165,6 +2165,9 @@ static __isl_give isl_printer *print_ast_node_list(__isl_take isl_printer *p,
 static __isl_give isl_printer *print_ast_node_isl(__isl_take isl_printer *p,
 	__isl_keep isl_ast_node *node)
 {
+	if (!node)
+		return isl_printer_free(p);
+
 	switch (node->type) {
 	case isl_ast_node_for:
 		p = isl_printer_yaml_start_mapping(p);
-- 
2.43.0


From 6d5317307f8ecf071a06108ebaa2a6e01a625224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 41/66] fix: isl_tab_compute_reduced_basis: handle failing
 allocations

---
 basis_reduction_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index 290da7d..be876c4 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -274,7 +274,7 @@ error:
 
 	GBR_lp_delete(lp);
 
-	if (alpha_buffer[1])
+	if (F && alpha_buffer[0] && alpha_buffer[1])
 		for (i = 0; i < n_bounded; ++i) {
 			GBR_clear(F[i]);
 			GBR_clear(alpha_buffer[0][i]);
-- 
2.43.0


From 27e5c8a7e54ad29c2e4943256d35bb4f1b3c0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:43 +0000
Subject: [PATCH 42/66] fix: isl_fixed_box_invalidate: handle failure

---
 isl_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_box.c b/isl_box.c
index 34a49ea..284889e 100644
--- a/isl_box.c
+++ b/isl_box.c
@@ -151,7 +151,7 @@ static __isl_give isl_fixed_box *isl_fixed_box_invalidate(
 	isl_aff_free(nan);
 	isl_val_free(infty);
 
-	if (!box->offset || !box->size)
+	if (!box || !box->offset || !box->size)
 		return isl_fixed_box_free(box);
 	return box;
 }
-- 
2.43.0


From 4481a4bbe38f2b9758a674478a31ade03ed149d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 43/66] fix: isl_multi_pw_aff_pullback_*: do not use freed
 object on failure

---
 isl_multi_pw_aff_pullback_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_multi_pw_aff_pullback_templ.c b/isl_multi_pw_aff_pullback_templ.c
index fc5aed2..9a3e59f 100644
--- a/isl_multi_pw_aff_pullback_templ.c
+++ b/isl_multi_pw_aff_pullback_templ.c
@@ -63,7 +63,7 @@ __isl_give isl_multi_pw_aff *FN(isl_multi_pw_aff_pullback,BASE)(
 	}
 
 	FN(TYPE,free)(fn);
-	isl_multi_pw_aff_restore_space(mpa, space);
+	mpa = isl_multi_pw_aff_restore_space(mpa, space);
 	return mpa;
 error:
 	isl_space_free(space);
-- 
2.43.0


From bf7789997264383fc9fa08796dcddc35e2043eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:02 +0000
Subject: [PATCH 44/66] fix: compute_flow_union_map: check result of
 isl_union_flow_alloc

---
 isl_flow.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_flow.c b/isl_flow.c
index 92d2266..1299808 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2694,6 +2694,8 @@ static __isl_give isl_union_flow *compute_flow_union_map(
 
 	sink = access->access[isl_access_sink];
 	data.flow = isl_union_flow_alloc(isl_union_map_get_space(sink));
+	if (!data.flow)
+		goto error;
 
 	if (isl_union_map_foreach_map(sink, &compute_flow, &data) < 0)
 		goto error;
-- 
2.43.0


From b0019bce55f83fe9daa7e6524015f88aef2f9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:10 +0000
Subject: [PATCH 45/66] fix: isl_ast_expr_add_term: free value on failure

---
 isl_ast_build_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_ast_build_expr.c b/isl_ast_build_expr.c
index aaf8985..c1d1ffe 100644
--- a/isl_ast_build_expr.c
+++ b/isl_ast_build_expr.c
@@ -436,8 +436,10 @@ static __isl_give isl_ast_expr *isl_ast_expr_add_term(
 {
 	isl_ast_expr *term;
 
-	if (!expr)
+	if (!expr) {
+		isl_val_free(v);
 		return NULL;
+	}
 
 	data->v = v;
 	term = var(data, type, pos);
-- 
2.43.0


From 0a884530a8c7e8d4502561490418d4ef8b4199cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 46/66] fix: isl_tab_compute_reduced_basis: check result of
 adding rows

---
 basis_reduction_tab.c   | 2 +-
 basis_reduction_templ.c | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/basis_reduction_tab.c b/basis_reduction_tab.c
index b42f677..5cdcb92 100644
--- a/basis_reduction_tab.c
+++ b/basis_reduction_tab.c
@@ -156,7 +156,7 @@ static struct tab_lp *init_lp(struct isl_tab *tab)
 	lp->stack = isl_alloc_array(lp->ctx, struct isl_tab_undo *, lp->dim);
 
 	lp->row = isl_vec_alloc(lp->ctx, 1 + 2 * lp->dim);
-	if (!lp->row)
+	if (!lp->row || (lp->dim && !lp->stack))
 		goto error;
 	lp->tab = gbr_tab(tab, lp->row);
 	if (!lp->tab)
diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index be876c4..5625442 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -162,6 +162,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 			GBR_set(alpha, alpha_saved[i]);
 		} else {
 			row = GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (row < 0)
+				goto error;
 			GBR_lp_set_obj(lp, B->row[1+i+1]+1, dim);
 			ctx->stats->gbr_solved_lps++;
 			if (GBR_lp_solve(lp) < 0)
@@ -258,7 +260,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 				}
 			}
 		} else {
-			GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (GBR_lp_add_row(lp, B->row[1+i]+1, dim) < 0)
+				goto error;
 			++i;
 		}
 	} while (i < n_bounded - 1);
-- 
2.43.0


From 3b22534e0fd86d5be80db5f8f9e054bee3db243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:45 +0000
Subject: [PATCH 47/66] fix: isl_set_foreach_orthant: check result of
 allocation

---
 isl_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index cdb7176..c403b5b 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -9075,6 +9075,8 @@ isl_stat isl_set_foreach_orthant(__isl_keep isl_set *set,
 		return isl_stat_error;
 
 	signs = isl_alloc_array(set->ctx, int, nparam + nvar);
+	if (nparam + nvar && !signs)
+		return isl_stat_error;
 
 	r = foreach_orthant(isl_set_copy(set), signs, 0, nparam + nvar,
 			    fn, user);
-- 
2.43.0


From 888a3fd0eb60388eff7f51e39643d554718c6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:10 +0000
Subject: [PATCH 48/66] fix: isl_poly_sum: handle failure to add constant

---
 isl_polynomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 74580a1..1fa265d 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -869,6 +869,8 @@ __isl_give isl_poly *isl_poly_sum(__isl_take isl_poly *poly1,
 		if (!rec)
 			goto error;
 		rec->p[0] = isl_poly_sum(rec->p[0], poly2);
+		if (!rec->p[0])
+			return isl_poly_free(poly1);
 		if (rec->n == 1)
 			poly1 = replace_by_constant_term(poly1);
 		return poly1;
-- 
2.43.0


From efb835ec1c7f3a26573637e71a6a48cf3a8ab0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:10 +0000
Subject: [PATCH 49/66] fix: isl_qpolynomial_move_dims: check destination
 position

---
 isl_polynomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 1fa265d..64a793c 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3437,6 +3437,8 @@ __isl_give isl_qpolynomial *isl_qpolynomial_move_dims(
 			goto error);
 	if (isl_qpolynomial_check_range(qp, src_type, src_pos, n) < 0)
 		return isl_qpolynomial_free(qp);
+	if (isl_qpolynomial_check_range(qp, dst_type, dst_pos, 0) < 0)
+		return isl_qpolynomial_free(qp);
 	if (dst_type == isl_dim_in)
 		dst_type = isl_dim_set;
 	if (src_type == isl_dim_in)
-- 
2.43.0


From 9ed5967a3c31081b38b9fdab1c8215258a60f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 50/66] fix: isl_union_pw_aff_val_on_domain: report NULL value

---
 isl_aff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 16f7ae5..02a032e 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -8415,7 +8415,8 @@ __isl_give isl_union_pw_aff *isl_union_pw_aff_val_on_domain(
 	space = isl_union_set_get_space(domain);
 	data.res = isl_union_pw_aff_empty(space);
 	data.v = v;
-	if (isl_union_set_foreach_set(domain, &pw_aff_val_on_domain, &data) < 0)
+	if (!v || isl_union_set_foreach_set(domain,
+			&pw_aff_val_on_domain, &data) < 0)
 		data.res = isl_union_pw_aff_free(data.res);
 	isl_union_set_free(domain);
 	isl_val_free(v);
-- 
2.43.0


From cb057b6476c5e5c93d4774feff862a51b9bc8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:24 +0000
Subject: [PATCH 51/66] fix: isl_union_map_bind_range: report NULL tuple

---
 isl_union_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_union_map.c b/isl_union_map.c
index c3da826..ab17dad 100644
--- a/isl_union_map.c
+++ b/isl_union_map.c
@@ -4574,6 +4574,8 @@ __isl_give isl_union_set *isl_union_map_bind_range(
 	};
 	isl_union_set *bound;
 
+	if (!tuple)
+		umap = isl_union_map_free(umap);
 	bound = uset_from_umap(un_op(umap, &control));
 	isl_multi_id_free(tuple);
 	return bound;
-- 
2.43.0


From 2b26bfc0eaad2a703ca910522c6e1d43844b0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:08 +0000
Subject: [PATCH 52/66] fix: isl_union_*_add_part_generic: handle failure to
 align parameters

---
 isl_union_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index 74518a1..de061d9 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -184,7 +184,7 @@ static __isl_give UNION *FN(UNION,add_part_generic)(__isl_take UNION *u,
 
 	u = FN(UNION,cow)(u);
 
-	if (!u)
+	if (!u || !part)
 		goto error;
 
 	if (FN(UNION,check_disjoint_domain_other)(u, part) < 0)
-- 
2.43.0


From 51bf48fd5d21a3f694bdffd51111e5d2b254883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:19 +0000
Subject: [PATCH 53/66] fix: isl_basic_map_{domain,range}_product: check spaces
 before using them

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index c403b5b..e73aeba 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10795,6 +10795,8 @@ __isl_give isl_basic_map *isl_basic_map_domain_product(
 	space1 = isl_basic_map_get_space(bmap1);
 	space2 = isl_basic_map_get_space(bmap2);
 	space_result = isl_space_domain_product(space1, space2);
+	if (!space_result)
+		goto error;
 
 	total = nparam + in1 + in2 + out + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
@@ -10847,6 +10849,8 @@ __isl_give isl_basic_map *isl_basic_map_range_product(
 
 	space_result = isl_space_range_product(isl_space_copy(bmap1->dim),
 					   isl_space_copy(bmap2->dim));
+	if (!space_result)
+		goto error;
 
 	total = nparam + in + out1 + out2 + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
-- 
2.43.0


From 7117b1725bfae9ac521e9310a6dc5fab12f1cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 54/66] fix: isl_map_gist: check spaces before constructing
 simple hull

---
 isl_map_simplify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 72e0e9b..73d1503 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -3716,6 +3716,8 @@ __isl_give isl_map *isl_map_gist(__isl_take isl_map *map,
 		isl_ctx *ctx;
 		isl_map_list *list;
 
+		if (isl_map_check_equal_space(map, context) < 0)
+			goto error;
 		ctx = isl_map_get_ctx(map);
 		list = isl_map_list_alloc(ctx, 2);
 		list = isl_map_list_add(list, isl_map_copy(context));
-- 
2.43.0


From 6ce9d8cad6820aaa5a63b6fd4ac1fe04c1e7ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 55/66] fix: isl_aff_move_dims: handle failure of isl_aff_cow

---
 isl_aff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 02a032e..eb7cd93 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2739,6 +2739,8 @@ __isl_give isl_aff *isl_aff_move_dims(__isl_take isl_aff *aff,
 			return isl_aff_free(aff));
 
 	aff = isl_aff_cow(aff);
+	if (!aff)
+		return NULL;
 	src_off = isl_aff_domain_offset(aff, src_type);
 	dst_off = isl_aff_domain_offset(aff, dst_type);
 	if (src_off < 0 || dst_off < 0)
-- 
2.43.0


From 00d3d2b07199e8a32c3228b8a9ece80a13fccab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 56/66] fix: isl_qpolynomial_move_dims: do not try and move
 within same type

---
 isl_polynomial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 64a793c..431418a 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3448,6 +3448,12 @@ __isl_give isl_qpolynomial *isl_qpolynomial_move_dims(
 	    !isl_space_is_named_or_nested(qp->dim, src_type) &&
 	    !isl_space_is_named_or_nested(qp->dim, dst_type))
 		return qp;
+	if (n != 0 && dst_type == src_type && dst_pos == src_pos)
+		return qp;
+	if (n != 0 && dst_type == src_type)
+		isl_die(qp->dim->ctx, isl_error_unsupported,
+			"moving dims within the same type not supported",
+			goto error);
 
 	qp = isl_qpolynomial_cow(qp);
 	if (!qp)
-- 
2.43.0


From 4a0fb5f2640cdc09e684b1f401d2962435b5afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 57/66] fix: build_ast_from_guard: handle NULL build

---
 isl_ast_codegen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index b3c2541..d38af31 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -5602,6 +5602,12 @@ static __isl_give isl_ast_graft_list *build_ast_from_guard(
 	isl_ast_graft_list *list;
 	isl_size n1, n2, n;
 
+	if (!build) {
+		isl_schedule_node_free(node);
+		isl_union_map_free(executed);
+		return NULL;
+	}
+
 	space = isl_ast_build_get_space(build, 1);
 	guard = isl_schedule_node_guard_get_guard(node);
 	n1 = isl_space_dim(space, isl_dim_param);
-- 
2.43.0


From 4dc4e2785327dfedb3d948e0505c8fc5d4f98b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:08 +0000
Subject: [PATCH 58/66] fix: isl_basic_map_gist: check that spaces are equal

---
 isl_map_simplify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 73d1503..d409aa4 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -3283,6 +3283,9 @@ __isl_give isl_basic_map *isl_basic_map_gist(__isl_take isl_basic_map *bmap,
 		return bmap;
 	}
 
+	if (isl_basic_map_check_equal_space(bmap, context) < 0)
+		goto error;
+
 	bmap = isl_basic_map_remove_redundancies(bmap);
 	context = isl_basic_map_remove_redundancies(context);
 	bmap = isl_basic_map_order_divs(bmap);
-- 
2.43.0


From abb0b0df0e22e4f1e08b61dd79fb2bf14f77a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:05 +0000
Subject: [PATCH 59/66] fix: isl_basic_map_sum: free dimension maps on failure

---
 isl_map.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index e73aeba..e78ca40 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4874,8 +4874,11 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 			bmap1->n_ineq + bmap2->n_ineq);
 	for (i = 0; i < n_out; ++i) {
 		int j = isl_basic_map_alloc_equality(bmap);
-		if (j < 0)
+		if (j < 0) {
+			isl_dim_map_free(dim_map1);
+			isl_dim_map_free(dim_map2);
 			goto error;
+		}
 		isl_seq_clr(bmap->eq[j], 1+total);
 		isl_int_set_si(bmap->eq[j][1+nparam+n_in+i], -1);
 		isl_int_set_si(bmap->eq[j][1+pos+i], 1);
-- 
2.43.0


From 4ad0123b5841bc66024b03b98568487887d34493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:57 +0000
Subject: [PATCH 60/66] fix: isl_stream_free: free all remaining tokens

---
 isl_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_stream.c b/isl_stream.c
index 862015b..359f45a 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -805,6 +805,8 @@ void isl_stream_free(__isl_take isl_stream *s)
 		isl_stream_error(s, tok, "unexpected token");
 		isl_token_free(tok);
 	}
+	while (s->n_token != 0)
+		isl_token_free(isl_stream_next_token(s));
 	if (s->keywords) {
 		isl_hash_table_foreach(s->ctx, s->keywords, &free_keyword, NULL);
 		isl_hash_table_free(s->ctx, s->keywords);
-- 
2.43.0


From 72c0fbcf5d47da285159725e80013d97e2a8c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:57 +0000
Subject: [PATCH 61/66] fix: next_is_domain_colon: handle failure to copy
 string

---
 isl_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index 65d30f6..c4aa5ee 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2966,7 +2966,7 @@ static int next_is_domain_colon(__isl_keep isl_stream *s)
 	}
 
 	name = isl_token_get_str(s->ctx, tok);
-	res = !strcmp(name, "domain") && isl_stream_next_token_is(s, ':');
+	res = name && !strcmp(name, "domain") && isl_stream_next_token_is(s, ':');
 	free(name);
 
 	isl_stream_push_token(s, tok);
-- 
2.43.0


From 198f636f713304984b686a140d9ca99f132c1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:09 +0000
Subject: [PATCH 62/66] fix: isl_printer_print_set: handle failure to print
 (part of) a disjunct

---
 isl_output.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 9839a52..478ee79 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -274,6 +274,8 @@ static isl_stat pos2type(__isl_keep isl_space *space,
 static isl_bool can_print_div_expr(__isl_keep isl_printer *p,
 	__isl_keep isl_mat *div, int pos)
 {
+	if (!p)
+		return isl_bool_error;
 	if (p->output_format == ISL_FORMAT_OMEGA)
 		return isl_bool_false;
 	if (!div)
@@ -1002,6 +1004,8 @@ static __isl_give isl_printer *print_disjunct(__isl_keep isl_basic_map *bmap,
 	dump = p->dump;
 	div = isl_basic_map_get_divs(bmap);
 	exists = need_exists(p, div);
+	if (exists < 0)
+		p = isl_printer_free(p);
 	if (exists >= 0 && exists)
 		p = open_exists(p, space, div, latex);
 
-- 
2.43.0


From 73c737654f57d8d4990132830ebcb662e51c0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:09 +0000
Subject: [PATCH 63/66] fix: isl_map_print_isl_body: do not drop disjuncts on
 error

---
 isl_output.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/isl_output.c b/isl_output.c
index 478ee79..9b255b8 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -1365,8 +1365,13 @@ static __isl_give struct isl_aff_split *split_aff(__isl_keep isl_map *map)
 
 	n = map->n;
 	for (i = n - 1; i >= 1; --i) {
-		if (!isl_basic_map_plain_is_equal(split[i - 1].aff,
-						 split[i].aff))
+		isl_bool equal;
+
+		equal = isl_basic_map_plain_is_equal(split[i - 1].aff,
+						 split[i].aff);
+		if (equal < 0)
+			goto error;
+		if (!equal)
 			continue;
 		isl_basic_map_free(split[i].aff);
 		split[i - 1].map = isl_map_union(split[i - 1].map,
@@ -1376,6 +1381,8 @@ static __isl_give struct isl_aff_split *split_aff(__isl_keep isl_map *map)
 		split[n - 1].aff = NULL;
 		split[n - 1].map = NULL;
 		--n;
+		if (!split[i - 1].map)
+			goto error;
 	}
 
 	return split;
@@ -1469,8 +1476,11 @@ static __isl_give isl_printer *isl_map_print_isl_body(__isl_keep isl_map *map,
 
 	if (!p || !map)
 		return isl_printer_free(p);
-	if (!p->dump && map->n > 0)
+	if (!p->dump && map->n > 0) {
 		split = split_aff(map);
+		if (!split)
+			return isl_printer_free(p);
+	}
 	if (split) {
 		p = print_split_map(p, split, map->n, map->dim);
 	} else {
-- 
2.43.0


From 9cc22569b086416f02708533a41b45f15eb7b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:22 +0000
Subject: [PATCH 64/66] fix: isl_mat_aff_direct_sum: do not modify a shared
 argument

---
 isl_mat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_mat.c b/isl_mat.c
index 242f85c..38f7224 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -560,6 +560,8 @@ __isl_give isl_mat *isl_mat_aff_direct_sum(__isl_take isl_mat *left,
 	int i;
 	struct isl_mat *sum;
 
+	left = isl_mat_cow(left);
+	right = isl_mat_cow(right);
 	if (!left || !right)
 		goto error;
 
-- 
2.43.0


From 1dce61d8fb7665c5312bac630aad0dcf36f19760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:00 +0000
Subject: [PATCH 65/66] fix: isl_tab_from_recession_cone: restore equality
 constraint on error

---
 isl_tab.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/isl_tab.c b/isl_tab.c
index 5f528f9..517a7e0 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2453,13 +2453,16 @@ struct isl_tab *isl_tab_from_recession_cone(__isl_keep isl_basic_set *bset,
 	isl_int_init(cst);
 	isl_int_set_si(cst, 0);
 	for (i = 0; i < bset->n_eq; ++i) {
+		isl_stat r = isl_stat_ok;
+
 		isl_int_swap(bset->eq[i][offset], cst);
-		if (offset > 0) {
-			if (isl_tab_add_eq(tab, bset->eq[i] + offset) < 0)
-				goto error;
-		} else
+		if (offset > 0)
+			r = isl_tab_add_eq(tab, bset->eq[i] + offset);
+		else
 			tab = add_eq(tab, bset->eq[i]);
 		isl_int_swap(bset->eq[i][offset], cst);
+		if (r < 0)
+			goto error;
 		if (!tab)
 			goto done;
 	}
-- 
2.43.0


From ca9c1c4c401dcbf6780f4eabb799142e8bc180f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:06:58 +0000
Subject: [PATCH 66/66] fix: find_in_pos: avoid memory leak on error

---
 isl_tab_pip.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index a3b397b..dd1cd3d 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -3932,8 +3932,10 @@ static void find_in_pos(struct isl_sol *sol, struct isl_tab *tab, isl_int *ineq)
 	saved = sol->context->op->save(sol->context);
 
 	tab = isl_tab_dup(tab);
-	if (!tab)
+	if (!tab) {
+		sol->context->op->discard(saved);
 		goto error;
+	}
 
 	sol->context->op->add_ineq(sol->context, ineq, 0, 1);
 
-- 
2.43.0

