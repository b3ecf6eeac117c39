isl_map *isl_map_reset_space(isl_map *, isl_space *);
/* operation, kind of the result, operation on spaces, flags */
static isl_space *join_rev(isl_space *s, isl_space *t) { return isl_space_join(s, isl_space_reverse(t)); }
static isl_space *join_dom(isl_space *s, isl_space *t) { return isl_space_join(isl_space_reverse(t), s); }
static isl_space *dom_ran(isl_space *s, isl_space *t) { return isl_space_map_from_domain_and_range(isl_space_domain(s), isl_space_range(t)); }
static isl_space *ran_dom(isl_space *s, isl_space *t) { return isl_space_map_from_domain_and_range(t, s); }
/* requires the same domain */
#define SPRODD(f) (isl_space_tuple_is_equal(s, isl_dim_in, a->s2, isl_dim_in) == isl_bool_true ? SPROD(f) : isl_space_free(s))
static isl_space *splice(isl_space *s, struct args *a)
{
	int i, n = isl_space_dim(s, isl_dim_out), n2 = isl_space_dim(a->s2, isl_dim_out);
	if (isl_space_tuple_is_equal(s, isl_dim_in, a->s2, isl_dim_in) != isl_bool_true || a->pos > n)
		return isl_space_free(s);
	s = al(s, a);
	s = isl_space_insert_dims(s, isl_dim_out, a->pos, n2);
	for (i = 0; i < n2; ++i)
		if (isl_space_has_dim_id(a->s2, isl_dim_out, i) == isl_bool_true)
			s = isl_space_set_dim_id(s, isl_dim_out, a->pos + i, isl_space_get_dim_id(a->s2, isl_dim_out, i));
	return s;
}
#define LIST \
	X(map, map, reverse, (isl_map_reverse(o)), (isl_space_reverse(s)), 0) \
	X(map, map, curry, (isl_map_curry(o)), (isl_space_curry(s)), 0) \
	X(map, map, uncurry, (isl_map_uncurry(o)), (isl_space_uncurry(s)), 0) \
	X(map, map, zip, (isl_map_zip(o)), (isl_space_zip(s)), 0) \
	X(map, map, range_reverse, (isl_map_range_reverse(o)), (isl_space_range_reverse(s)), 0) \
	X(map, map, flatten, (isl_map_flatten(o)), (isl_space_flatten(s)), 0) \
	X(map, map, flatten_domain, (isl_map_flatten_domain(o)), (isl_space_flatten_domain(s)), 0) \
	X(map, map, flatten_range, (isl_map_flatten_range(o)), (isl_space_flatten_range(s)), 0) \
	X(map, map, domain_map, (isl_map_domain_map(o)), (isl_space_domain_map(s)), 0) \
	X(map, map, range_map, (isl_map_range_map(o)), (isl_space_range_map(s)), 0) \
	X(map, map, domain_factor_domain, (isl_map_domain_factor_domain(o)), (isl_space_domain_factor_domain(s)), 0) \
	X(map, map, domain_factor_range, (isl_map_domain_factor_range(o)), (isl_space_domain_factor_range(s)), 0) \
	X(map, map, range_factor_domain, (isl_map_range_factor_domain(o)), (isl_space_range_factor_domain(s)), 0) \
	X(map, map, range_factor_range, (isl_map_range_factor_range(o)), (isl_space_range_factor_range(s)), 0) \
	X(map, map, factor_domain, (isl_map_factor_domain(o)), (isl_space_factor_domain(s)), 0) \
	X(map, map, factor_range, (isl_map_factor_range(o)), (isl_space_factor_range(s)), 0) \
	X(map, map, range_curry, (isl_map_range_curry(o)), (isl_space_range_curry(s)), 0) \
	X(map, set, domain, (isl_map_domain(o)), (isl_space_domain(s)), 0) \
	X(map, set, range, (isl_map_range(o)), (isl_space_range(s)), 0) \
	X(map, set, params, (isl_map_params(o)), (isl_space_params(s)), 0) \
	X(map, set, wrap, (isl_map_wrap(o)), (isl_space_wrap(s)), 0) \
	X(map, map, insert_dims, (isl_map_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(map, map, add_dims, (isl_map_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(map, map, project_out, (isl_map_project_out(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(map, map, move_dims, (isl_map_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(map, map, set_dim_id, (isl_map_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(map, map, set_dim_name, (isl_map_set_dim_name(o, a->type, a->pos, a->name)), (isl_space_set_dim_name(s, a->type, a->pos, a->name)), 0|NOVAL) \
	X(map, map, set_tuple_id, (isl_map_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(map, map, set_tuple_name, (isl_map_set_tuple_name(o, a->type, a->name)), (isl_space_set_tuple_name(s, a->type, a->name)), 0) \
	X(map, map, reset_tuple_id, (isl_map_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(map, map, reset_user, (isl_map_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(map, map, align_params, (isl_map_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(map, map, set_range_tuple_id, (isl_map_set_range_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_range_tuple_id(s, isl_id_copy(a->id))), 0) \
	X(map, map, set_domain_tuple_id, (isl_map_set_domain_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_domain_tuple_id(s, isl_id_copy(a->id))), 0) \
	X(map, map, remove_dims, (isl_map_remove_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(map, map, project_out_all_params, (isl_map_project_out_all_params(o)), (isl_space_drop_all_params(s)), 0) \
	X(map, map, union, (isl_map_union(o, O2(map))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(map, map, intersect, (isl_map_intersect(o, O2(map))), (equal2(s, a)), SAME|PARAMS|NOREJ|NOID|NOVAL) \
	X(map, map, subtract, (isl_map_subtract(o, O2(map))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(map, map, union_disjoint, (isl_map_union_disjoint(o, O2(map))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(map, map, product, (isl_map_product(o, O2(map))), (SPROD(isl_space_product)), TWO|PARAMS) \
	X(map, map, domain_product, (isl_map_domain_product(o, O2(map))), (SPROD(isl_space_domain_product)), TWO|PARAMS) \
	X(map, map, range_product, (isl_map_range_product(o, O2(map))), (SPROD(isl_space_range_product)), TWO|PARAMS) \
	X(map, map, flat_product, (isl_map_flat_product(o, O2(map))), (isl_space_flatten(SPROD(isl_space_product))), TWO|PARAMS) \
	X(map, map, flat_range_product, (isl_map_flat_range_product(o, O2(map))), (isl_space_flatten_range(SPROD(isl_space_range_product))), TWO|PARAMS) \
	X(map, map, flat_domain_product, (isl_map_flat_domain_product(o, O2(map))), (isl_space_flatten_domain(SPROD(isl_space_domain_product))), TWO|PARAMS) \
	X(map, map, intersect_domain, (isl_map_intersect_domain(o, isl_map_domain(O2(map)))), (isl_space_tuple_is_equal(s, isl_dim_in, a->s2, isl_dim_in) == isl_bool_true ? al(s, a) : isl_space_free(s)), SAME|PARAMS|NOID) \
	X(map, map, intersect_range, (isl_map_intersect_range(o, isl_map_range(O2(map)))), (isl_space_tuple_is_equal(s, isl_dim_out, a->s2, isl_dim_out) == isl_bool_true ? al(s, a) : isl_space_free(s)), SAME|PARAMS|NOID) \
	X(map, map, intersect_params, (isl_map_intersect_params(o, isl_map_params(O2(map)))), (al(s, a)), TWO|PARAMS) \
	X(map, map, subtract_domain, (isl_map_subtract_domain(o, isl_map_domain(O2(map)))), (isl_space_tuple_is_equal(s, isl_dim_in, a->s2, isl_dim_in) == isl_bool_true ? al(s, a) : isl_space_free(s)), SAME|PARAMS|NOVAL) \
	X(map, map, apply_range, (isl_map_apply_range(o, isl_map_reverse(O2(map)))), (isl_space_tuple_is_equal(s, isl_dim_out, a->s2, isl_dim_out) == isl_bool_true ? SPROD(join_rev) : isl_space_free(s)), SAME|PARAMS|NOVAL) \
	X(map, map, apply_domain, (isl_map_apply_domain(o, O2(map))), (isl_space_tuple_is_equal(s, isl_dim_in, a->s2, isl_dim_in) == isl_bool_true ? SPROD(join_dom) : isl_space_free(s)), SAME|PARAMS|NOVAL) \
	X(map, bmap, affine_hull, (isl_map_affine_hull(o)), (s), 0) \
	X(map, bmap, simple_hull, (isl_map_simple_hull(o)), (s), 0) \
	X(map, map, coalesce, (isl_map_coalesce(o)), (s), 0) \
	X(map, map, lexmin, (isl_map_lexmin(o)), (s), 0|MAYFAIL) \
	X(map, map, complement, (isl_map_complement(o)), (s), NOVAL) \
	X(map, pma, as_pw_multi_aff, (isl_pw_multi_aff_from_map(o)), (s), NOVAL|MAYFAIL) \
	X(map, set, from_range_set, (isl_map_range(isl_map_from_range(isl_map_wrap(o)))), (isl_space_wrap(s)), 0) \
	X(map, map, from_domain, (isl_map_from_domain(isl_map_wrap(o))), (isl_space_from_domain(isl_space_wrap(s))), 0) \
	X(map, map, from_range, (isl_map_from_range(isl_map_wrap(o))), (isl_space_from_range(isl_space_wrap(s))), 0) \
	X(map, map, from_domain_and_range, (isl_map_from_domain_and_range(isl_map_domain(o), isl_map_range(O2(map)))), (SPROD(dom_ran)), TWO|PARAMS) \
	X(map, map, reset_space, (isl_map_reset_space(o, isl_space_reset_tuple_id(isl_map_get_space(o), isl_dim_out))), (isl_space_reset_tuple_id(s, isl_dim_out)), 0) \
	X(set, set, params, (isl_set_params(o)), (isl_space_params(s)), 0) \
	X(set, set, flatten, (isl_set_flatten(o)), (isl_space_flatten(s)), 0) \
	X(set, map, unwrap, (isl_set_unwrap(o)), (isl_space_unwrap(s)), 0) \
	X(set, set, insert_dims, (isl_set_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(set, set, add_dims, (isl_set_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(set, set, project_out, (isl_set_project_out(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(set, set, move_dims, (isl_set_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(set, set, reset_user, (isl_set_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(set, set, align_params, (isl_set_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(set, set, set_dim_id, (isl_set_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), RENAME) \
	X(set, set, set_tuple_id, (isl_set_set_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, isl_dim_set, isl_id_copy(a->id))), 0) \
	X(set, set, set_tuple_name, (isl_set_set_tuple_name(o, a->name)), (isl_space_set_tuple_name(s, isl_dim_set, a->name)), 0) \
	X(set, set, reset_tuple_id, (isl_set_reset_tuple_id(o)), (isl_space_reset_tuple_id(s, isl_dim_set)), 0) \
	X(set, set, remove_dims, (isl_set_remove_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(set, set, drop_all_params, (isl_set_project_out_all_params(o)), (isl_space_drop_all_params(s)), 0) \
	X(set, set, union, (isl_set_union(o, O2(set))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(set, set, intersect, (isl_set_intersect(o, O2(set))), (equal2(s, a)), SAME|PARAMS|NOREJ|NOID|NOVAL) \
	X(set, set, subtract, (isl_set_subtract(o, O2(set))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(set, set, union_disjoint, (isl_set_union_disjoint(o, O2(set))), (equal2(s, a)), SAME|PARAMS|NOVAL) \
	X(set, set, product, (isl_set_product(o, O2(set))), (SPROD(isl_space_product)), TWO|PARAMS) \
	X(set, set, flat_product, (isl_set_flat_product(o, O2(set))), (isl_space_flatten(SPROD(isl_space_product))), TWO|PARAMS) \
	X(set, set, intersect_params, (isl_set_intersect_params(o, isl_set_params(O2(set)))), (al(s, a)), TWO|PARAMS) \
	X(set, bset, affine_hull, (isl_set_affine_hull(o)), (s), 0) \
	X(set, set, lexmax, (isl_set_lexmax(o)), (s), 0|MAYFAIL) \
	X(set, map, identity, (isl_set_identity(o)), (isl_space_map_from_set(s)), 0) \
	X(set, map, from_domain, (isl_map_from_domain(o)), (isl_space_from_domain(s)), 0) \
	X(set, map, insert_domain, (isl_map_from_domain_and_range(O2(set), o)), (SPROD(ran_dom)), TWO|PARAMS) \
	X(set, map, lex_le, (isl_set_lex_le_set(o, O2(set))), (isl_space_has_equal_tuples(s, a->s2) == isl_bool_true ? isl_space_map_from_set(al(s, a)) : isl_space_free(s)), SAME|PARAMS|NOVAL) \
	X(bmap, bmap, reverse, (isl_basic_map_reverse(o)), (isl_space_reverse(s)), 0) \
	X(bmap, bmap, curry, (isl_basic_map_curry(o)), (isl_space_curry(s)), 0) \
	X(bmap, bmap, uncurry, (isl_basic_map_uncurry(o)), (isl_space_uncurry(s)), 0) \
	X(bmap, bmap, zip, (isl_basic_map_zip(o)), (isl_space_zip(s)), 0) \
	X(bmap, bmap, flatten, (isl_basic_map_flatten(o)), (isl_space_flatten(s)), 0) \
	X(bmap, bmap, flatten_domain, (isl_basic_map_flatten_domain(o)), (isl_space_flatten_domain(s)), 0) \
	X(bmap, bmap, flatten_range, (isl_basic_map_flatten_range(o)), (isl_space_flatten_range(s)), 0) \
	X(bmap, bmap, domain_map, (isl_basic_map_domain_map(o)), (isl_space_domain_map(s)), 0) \
	X(bmap, bmap, range_map, (isl_basic_map_range_map(o)), (isl_space_range_map(s)), 0) \
	X(bmap, bset, domain, (isl_basic_map_domain(o)), (isl_space_domain(s)), 0) \
	X(bmap, bset, range, (isl_basic_map_range(o)), (isl_space_range(s)), 0) \
	X(bmap, bset, wrap, (isl_basic_map_wrap(o)), (isl_space_wrap(s)), 0) \
	X(bmap, bmap, insert_dims, (isl_basic_map_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(bmap, bmap, add_dims, (isl_basic_map_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(bmap, bmap, project_out, (isl_basic_map_project_out(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(bmap, bmap, move_dims, (isl_basic_map_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(bmap, bmap, set_tuple_id, (isl_basic_map_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(bmap, bmap, set_tuple_name, (isl_basic_map_set_tuple_name(o, a->type, a->name)), (isl_space_set_tuple_name(s, a->type, a->name)), 0) \
	X(bmap, bmap, set_dim_name, (isl_basic_map_set_dim_name(o, a->type, a->pos, a->name)), (isl_space_set_dim_name(s, a->type, a->pos, a->name)), 0|NOVAL) \
	X(bmap, bmap, align_params, (isl_basic_map_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(bmap, bmap, remove_dims, (isl_basic_map_remove_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(bmap, map, to_map, (isl_map_from_basic_map(o)), (s), 0) \
	X(bmap, bmap, intersect, (isl_basic_map_intersect(o, O2(bmap))), (equal1(s, a)), SAME|PARAMS|NOREJ|NOID|NOVAL) \
	X(bset, bset, params, (isl_basic_set_params(o)), (isl_space_params(s)), 0) \
	X(bset, bset, flatten, (isl_basic_set_flatten(o)), (isl_space_flatten(s)), 0) \
	X(bset, bmap, unwrap, (isl_basic_set_unwrap(o)), (isl_space_unwrap(s)), 0) \
	X(bset, bset, insert_dims, (isl_basic_set_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(bset, bset, add_dims, (isl_basic_set_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(bset, bset, project_out, (isl_basic_set_project_out(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(bset, bset, move_dims, (isl_basic_set_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(bset, bset, align_params, (isl_basic_set_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(bset, bset, remove_dims, (isl_basic_set_remove_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(bset, bset, set_tuple_id, (isl_basic_set_set_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, isl_dim_set, isl_id_copy(a->id))), 0) \
	X(bset, bset, intersect, (isl_basic_set_intersect(o, O2(bset))), (equal1(s, a)), SAME|PARAMS|NOREJ|NOID|NOVAL) \
	X(bset, set, to_set, (isl_set_from_basic_set(o)), (s), 0) \
	X(aff, aff, insert_dims, (isl_aff_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(aff, aff, add_dims, (isl_aff_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(aff, aff, drop_dims, (isl_aff_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(aff, aff, move_dims, (isl_aff_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(aff, aff, set_dim_id, (isl_aff_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(aff, aff, set_tuple_id, (isl_aff_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(aff, aff, align_params, (isl_aff_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(paff, paff, insert_dims, (isl_pw_aff_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(paff, paff, add_dims, (isl_pw_aff_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(paff, paff, drop_dims, (isl_pw_aff_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), NOVAL) \
	X(paff, paff, move_dims, (isl_pw_aff_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(paff, paff, set_dim_id, (isl_pw_aff_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(paff, paff, set_tuple_id, (isl_pw_aff_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(paff, paff, reset_tuple_id, (isl_pw_aff_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(paff, paff, reset_user, (isl_pw_aff_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(paff, paff, align_params, (isl_pw_aff_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(aff, aff, neg, (isl_aff_neg(o)), (s), NOVAL) \
	X(aff, aff, floor, (isl_aff_floor(o)), (s), NOVAL) \
	X(aff, aff, ceil, (isl_aff_ceil(o)), (s), NOVAL) \
	X(aff, aff, add, (isl_aff_add(o, O2(aff))), (equal1(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(aff, aff, sub, (isl_aff_sub(o, O2(aff))), (equal1(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(paff, paff, neg, (isl_pw_aff_neg(o)), (s), NOVAL) \
	X(paff, paff, floor, (isl_pw_aff_floor(o)), (s), NOVAL) \
	X(paff, paff, ceil, (isl_pw_aff_ceil(o)), (s), NOVAL) \
	X(paff, paff, add, (isl_pw_aff_add(o, O2(paff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(paff, paff, sub, (isl_pw_aff_sub(o, O2(paff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(paff, paff, union_add, (isl_pw_aff_union_add(o, O2(paff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(paff, paff, max, (isl_pw_aff_max(o, O2(paff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(paff, set, domain, (isl_pw_aff_domain(o)), (isl_space_domain(s)), NOVAL) \
	X(aff, maff, from_aff, (isl_multi_aff_from_aff(o)), (s), 0) \
	X(aff, paff, to_pw, (isl_pw_aff_from_aff(o)), (s), 0) \
	X(aff, ls, domain_ls, (({ isl_local_space *l_ = isl_aff_get_domain_local_space(o); isl_aff_free(o); l_; })), (isl_space_domain(s)), 0) \
	X(paff, pma, to_pma, (isl_pw_multi_aff_from_pw_aff(o)), (s), 0) \
	X(paff, map, as_map, (isl_map_from_pw_aff(o)), (s), NOVAL) \
	X(maff, maff, insert_dims, (isl_multi_aff_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(maff, maff, add_dims, (isl_multi_aff_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(maff, maff, drop_dims, (isl_multi_aff_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(maff, maff, move_dims, (isl_multi_aff_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(maff, maff, set_dim_id, (isl_multi_aff_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(maff, maff, set_tuple_id, (isl_multi_aff_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(maff, maff, set_tuple_name, (isl_multi_aff_set_tuple_name(o, a->type, a->name)), (isl_space_set_tuple_name(s, a->type, a->name)), 0) \
	X(maff, maff, reset_tuple_id, (isl_multi_aff_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(maff, maff, reset_user, (isl_multi_aff_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(maff, maff, align_params, (isl_multi_aff_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(maff, maff, set_range_tuple_id, (isl_multi_aff_set_range_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_range_tuple_id(s, isl_id_copy(a->id))), 0) \
	X(maff, maff, reset_range_tuple_id, (isl_multi_aff_reset_range_tuple_id(o)), (isl_space_reset_tuple_id(s, isl_dim_out)), 0) \
	X(maff, maff, flatten_range, (isl_multi_aff_flatten_range(o)), (isl_space_flatten_range(s)), 0) \
	X(maff, maff, range_factor_domain, (isl_multi_aff_range_factor_domain(o)), (isl_space_range_factor_domain(s)), 0) \
	X(maff, maff, range_factor_range, (isl_multi_aff_range_factor_range(o)), (isl_space_range_factor_range(s)), 0) \
	X(maff, maff, range_product, (isl_multi_aff_range_product(o, O2(maff))), (SPRODD(isl_space_range_product)), SAME|PARAMS) \
	X(maff, maff, product, (isl_multi_aff_product(o, O2(maff))), (SPROD(isl_space_product)), TWO|PARAMS) \
	X(maff, maff, flat_range_product, (isl_multi_aff_flat_range_product(o, O2(maff))), (isl_space_flatten_range(SPRODD(isl_space_range_product))), SAME|PARAMS) \
	X(maff, maff, add, (isl_multi_aff_add(o, O2(maff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(maff, maff, sub, (isl_multi_aff_sub(o, O2(maff))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(maff, maff, neg, (isl_multi_aff_neg(o)), (s), NOVAL) \
	X(maff, maff, range_splice, (isl_multi_aff_range_splice(o, a->pos, O2(maff))), (splice(s, a)), SAME|PARAMS) \
	X(mpa, mpa, insert_dims, (isl_multi_pw_aff_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(mpa, mpa, add_dims, (isl_multi_pw_aff_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(mpa, mpa, drop_dims, (isl_multi_pw_aff_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), NOVAL) \
	X(mpa, mpa, move_dims, (isl_multi_pw_aff_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(mpa, mpa, set_dim_id, (isl_multi_pw_aff_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(mpa, mpa, set_tuple_id, (isl_multi_pw_aff_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(mpa, mpa, set_tuple_name, (isl_multi_pw_aff_set_tuple_name(o, a->type, a->name)), (isl_space_set_tuple_name(s, a->type, a->name)), 0) \
	X(mpa, mpa, reset_tuple_id, (isl_multi_pw_aff_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(mpa, mpa, reset_user, (isl_multi_pw_aff_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(mpa, mpa, align_params, (isl_multi_pw_aff_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(mpa, mpa, set_range_tuple_id, (isl_multi_pw_aff_set_range_tuple_id(o, isl_id_copy(a->id))), (isl_space_set_range_tuple_id(s, isl_id_copy(a->id))), 0) \
	X(mpa, mpa, reset_range_tuple_id, (isl_multi_pw_aff_reset_range_tuple_id(o)), (isl_space_reset_tuple_id(s, isl_dim_out)), 0) \
	X(mpa, mpa, flatten_range, (isl_multi_pw_aff_flatten_range(o)), (isl_space_flatten_range(s)), 0) \
	X(mpa, mpa, range_factor_domain, (isl_multi_pw_aff_range_factor_domain(o)), (isl_space_range_factor_domain(s)), 0) \
	X(mpa, mpa, range_factor_range, (isl_multi_pw_aff_range_factor_range(o)), (isl_space_range_factor_range(s)), 0) \
	X(mpa, mpa, range_product, (isl_multi_pw_aff_range_product(o, O2(mpa))), (SPRODD(isl_space_range_product)), SAME|PARAMS) \
	X(mpa, mpa, product, (isl_multi_pw_aff_product(o, O2(mpa))), (SPROD(isl_space_product)), TWO|PARAMS) \
	X(mpa, mpa, flat_range_product, (isl_multi_pw_aff_flat_range_product(o, O2(mpa))), (isl_space_flatten_range(SPRODD(isl_space_range_product))), SAME|PARAMS) \
	X(mpa, mpa, add, (isl_multi_pw_aff_add(o, O2(mpa))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(mpa, mpa, sub, (isl_multi_pw_aff_sub(o, O2(mpa))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(mpa, mpa, neg, (isl_multi_pw_aff_neg(o)), (s), NOVAL) \
	X(mpa, mpa, range_splice, (isl_multi_pw_aff_range_splice(o, a->pos, O2(mpa))), (splice(s, a)), SAME|PARAMS) \
	X(maff, map, as_map, (isl_map_from_multi_aff(o)), (s), NOVAL) \
	X(maff, pma, to_pma, (isl_pw_multi_aff_from_multi_aff(o)), (s), 0) \
	X(maff, mpa, to_mpa, (isl_multi_pw_aff_from_multi_aff(o)), (s), 0) \
	X(pma, pma, drop_dims, (isl_pw_multi_aff_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), NOVAL) \
	X(pma, pma, set_dim_id, (isl_pw_multi_aff_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(pma, pma, set_tuple_id, (isl_pw_multi_aff_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(pma, pma, reset_tuple_id, (isl_pw_multi_aff_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(pma, pma, reset_user, (isl_pw_multi_aff_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(pma, pma, align_params, (isl_pw_multi_aff_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(pma, pma, range_factor_domain, (isl_pw_multi_aff_range_factor_domain(o)), (isl_space_range_factor_domain(s)), 0) \
	X(pma, pma, range_factor_range, (isl_pw_multi_aff_range_factor_range(o)), (isl_space_range_factor_range(s)), 0) \
	X(pma, set, domain, (isl_pw_multi_aff_domain(o)), (isl_space_domain(s)), NOVAL) \
	X(pma, pma, range_product, (isl_pw_multi_aff_range_product(o, O2(pma))), (SPRODD(isl_space_range_product)), SAME|PARAMS) \
	X(pma, pma, flat_range_product, (isl_pw_multi_aff_flat_range_product(o, O2(pma))), (isl_space_flatten_range(SPRODD(isl_space_range_product))), SAME|PARAMS) \
	X(pma, pma, product, (isl_pw_multi_aff_product(o, O2(pma))), (SPROD(isl_space_product)), TWO|PARAMS) \
	X(pma, pma, add, (isl_pw_multi_aff_add(o, O2(pma))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(pma, map, as_map, (isl_map_from_pw_multi_aff(o)), (s), NOVAL) \
	X(pma, mpa, to_mpa, (isl_multi_pw_aff_from_pw_multi_aff(o)), (s), 0) \
	X(ls, ls, insert_dims, (isl_local_space_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(ls, ls, add_dims, (isl_local_space_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(ls, ls, drop_dims, (isl_local_space_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(ls, ls, set_dim_id, (isl_local_space_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(ls, ls, set_tuple_id, (isl_local_space_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(ls, ls, set_dim_name, (isl_local_space_set_dim_name(o, a->type, a->pos, a->name)), (isl_space_set_dim_name(s, a->type, a->pos, a->name)), 0|NOVAL) \
	X(ls, ls, domain, (isl_local_space_domain(o)), (isl_space_domain(s)), 0) \
	X(ls, ls, range, (isl_local_space_range(o)), (isl_space_range(s)), 0) \
	X(ls, ls, wrap, (isl_local_space_wrap(o)), (isl_space_wrap(s)), 0) \
	X(ls, ls, flatten_domain, (isl_local_space_flatten_domain(o)), (isl_space_flatten_domain(s)), 0) \
	X(ls, ls, flatten_range, (isl_local_space_flatten_range(o)), (isl_space_flatten_range(s)), 0) \
	X(qp, qp, insert_dims, (isl_qpolynomial_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(qp, qp, add_dims, (isl_qpolynomial_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(qp, qp, drop_dims, (isl_qpolynomial_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(qp, qp, move_dims, (isl_qpolynomial_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(qp, qp, align_params, (isl_qpolynomial_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(pqp, pqp, insert_dims, (isl_pw_qpolynomial_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(pqp, pqp, add_dims, (isl_pw_qpolynomial_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(pqp, pqp, drop_dims, (isl_pw_qpolynomial_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), NOVAL) \
	X(pqp, pqp, move_dims, (isl_pw_qpolynomial_move_dims(o, a->type2, a->pos2, a->type, a->pos, a->n)), (isl_space_move_dims(s, a->type2, a->pos2, a->type, a->pos, a->n)), 0) \
	X(pqp, pqp, reset_user, (isl_pw_qpolynomial_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(qp, qp, add, (isl_qpolynomial_add(o, O2(qp))), (equal1(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(qp, qp, neg, (isl_qpolynomial_neg(o)), (s), NOVAL) \
	X(pqp, pqp, add, (isl_pw_qpolynomial_add(o, O2(pqp))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(pqp, pqp, neg, (isl_pw_qpolynomial_neg(o)), (s), NOVAL) \
	X(mval, mval, insert_dims, (isl_multi_val_insert_dims(o, a->type, a->pos, a->add)), (isl_space_insert_dims(s, a->type, a->pos, a->add)), 0) \
	X(mval, mval, add_dims, (isl_multi_val_add_dims(o, a->type, a->add)), (isl_space_add_dims(s, a->type, a->add)), 0) \
	X(mval, mval, drop_dims, (isl_multi_val_drop_dims(o, a->type, a->pos, a->n)), (isl_space_drop_dims(s, a->type, a->pos, a->n)), 0) \
	X(mval, mval, set_dim_id, (isl_multi_val_set_dim_id(o, a->type, a->pos, isl_id_copy(a->id))), (isl_space_set_dim_id(s, a->type, a->pos, isl_id_copy(a->id))), 0|RENAME) \
	X(mval, mval, set_tuple_id, (isl_multi_val_set_tuple_id(o, a->type, isl_id_copy(a->id))), (isl_space_set_tuple_id(s, a->type, isl_id_copy(a->id))), 0) \
	X(mval, mval, set_tuple_name, (isl_multi_val_set_tuple_name(o, a->type, a->name)), (isl_space_set_tuple_name(s, a->type, a->name)), 0) \
	X(mval, mval, reset_tuple_id, (isl_multi_val_reset_tuple_id(o, a->type)), (isl_space_reset_tuple_id(s, a->type)), 0) \
	X(mval, mval, reset_user, (isl_multi_val_reset_user(o)), (isl_space_reset_user(s)), 0) \
	X(mval, mval, align_params, (isl_multi_val_align_params(o, sp2(a))), (isl_space_align_params(s, sp2(a))), 0) \
	X(mval, mval, add, (isl_multi_val_add(o, O2(mval))), (equal2(s, a)), SAME|PARAMS|NOID|NOVAL) \
	X(mval, mval, flatten, (isl_multi_val_flatten_range(o)), (isl_space_flatten_range(s)), 0) 
