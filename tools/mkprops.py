#!/usr/bin/env python3
"""Regenerate properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

prop("C01", "Reference ownership is respected on every path, including failures",
 "Every function of the library consumes the references it documents as taken, exactly once, on every path through it, whether it succeeds or fails; it never releases or consumes references it documents as kept, and it returns either a reference owned by the caller or nothing. No object, array or big integer is leaked, released twice, or used after its release, on any path, including those taken when an allocation fails, an argument is rejected or the operation limit is reached.",
 ["inputs","fault_sequences"], "all arguments, all paths through each function, all points at which an allocation or sub-operation may fail",
 "The tests run the success paths of some operations once each; almost all failure edges (an allocation failing half-way, a quota exceeded inside a callee) are never executed, and a leak on a path that is executed is not an assertion failure.",
 ["include/isl","*.c"],
 [("__isl_take/__isl_give/__isl_keep/__isl_null annotations","include/isl/ctx.h"),("*_copy/*_cow/*_free reference counting","every object type"),("goto error cleanup blocks","every function")],
 [("ref","number of references to an object","every reference-counted struct")],
 ["return value and reference counts after each call"])

prop("C02", "A null argument gives an error result, never a crash",
 "Passing a null object (the library's representation of an earlier failure) to any operation is safe: the operation does not dereference it, and reports the failure by an error result (null object, error value of a boolean, status or size). A failed allocation or sub-operation inside an operation is handled in the same way, so a chain of operations in which one step fails ends in an error result and not in a crash or a well-formed but meaningless value.",
 ["inputs","fault_sequences"], "every pointer argument of every operation being null, in every combination; every sub-operation failing",
 "Tests pass valid objects; only a handful check one null argument. The guarantee is over every operation, argument position and failure point.",
 ["include/isl","*.c"],
 [("if (!obj) return/goto error guards","every function"),("isl_bool_error, isl_stat_error, isl_size_error propagation","include/isl/ctx.h")])

prop("C03", "Objects are values: an operation never changes an object shared with others",
 "An object that is referenced from more than one place is observably immutable: an operation that is given one of the references works on a private duplicate unless it holds the only reference, so that all other holders still see the same value afterwards. Operations that only borrow an argument leave its value unchanged.",
 ["inputs","histories"], "every operation, every pattern of sharing between its arguments and other live references",
 "Tests mostly hold one reference to each argument, so an in-place update of a shared object is invisible to them; it shows only in programs that keep a copy and look at it later.",
 ["*.c"],
 [("*_cow","every object type"),("*_take_*/*_restore_* with reference-count test","every object type")],
 [("ref","an object with ref > 1 must not be written","every reference-counted struct")])

prop("C04", "Failures of sub-computations are never swallowed",
 "If a computation that an operation relies on fails (out of memory, operation limit exceeded, invalid argument, error returned by a user callback), then the operation itself reports failure. An error indication is never interpreted as a true, false or ordinary numeric answer, nor dropped.",
 ["inputs","fault_sequences"], "every operation and every sub-computation or callback that can fail in it",
 "The tests never inject failures; interpreting an error (-1) as true changes nothing on the executions they perform.",
 ["*.c"],
 [("isl_bool/isl_stat/isl_size error values","include/isl/ctx.h"),("< 0 checks and goto error","every function")])

prop("C05", "Contexts are isolated: the library has no mutable global state",
 "Everything an operation reads or writes is reachable from its arguments and their context; the library keeps no mutable data of its own outside of contexts. Programs using different contexts therefore cannot influence each other.",
 ["histories","schedules"], "every function of the library and every write it performs",
 "A test can only show that two particular runs do not interfere; the guarantee is over every pair of histories.",
 ["*.c"], [("all state held in isl_ctx","isl_ctx_private.h"),("static tables declared const or never written","*.c")])

prop("C06", "Arithmetic on values is exact rational arithmetic with infinities and NaN",
 "Every operation on values computes the mathematically exact result in the rationals extended with positive infinity, negative infinity and not-a-number, for operands of any size and sign, without overflow or rounding, and comparisons and predicates agree with that arithmetic. Results are always normalised (lowest terms, positive denominator), operands other than the consumed ones are unchanged, and a request outside the domain of an operation (such as integer division of a non-integer) is reported as an error.",
 ["inputs"], "all values (any integers numerator and denominator, both infinities, NaN) as operands",
 "The tests evaluate about a hundred fixed combinations of small operands; the property ranges over all sizes, signs, denominators and special values.",
 ["isl_val.c","include/isl/val.h"],
 [("special representations (0/0 NaN, 1/0, -1/0)","isl_val.c"),("isl_val_normalize","isl_val.c")],
 [("n, d","numerator and denominator; d >= 0; gcd(n,d)=1; d = 0 only for infinities and NaN","isl_val_private.h")])

prop("C07", "Vector operations act element-wise on exactly the stated elements",
 "Operations on vectors and coefficient sequences compute, for every length and every content, exactly the documented element-wise result (combination, scaling, exact division, copy, clear, negation, gcd, inner product, comparison, position of first or last non-zero), and touch no element outside of the stated range. Editing operations on vectors (extend, insert, drop, move, concatenate, set, get) preserve all other elements in order, and out-of-range positions are rejected.",
 ["inputs"], "all lengths, all contents, all positions and counts, aliased and non-aliased operands",
 "Tests reach these routines with short rows of small numbers; lengths, aliasing and special coefficients (0, 1, -1, negative divisors) are sampled.",
 ["isl_seq.c","isl_vec.c"], [("isl_seq_* loops","isl_seq.c"),("isl_vec_* editing functions","isl_vec.c")])

prop("C08", "Matrix editing preserves all entries outside the edited range",
 "Extracting, inserting, dropping, moving, swapping, negating, concatenating, transposing or multiplying matrices gives, for all dimensions and contents, exactly the documented matrix, entry by entry, and leaves all other entries unchanged and in order. Out-of-range row or column positions are rejected instead of accessing memory outside of the matrix.",
 ["inputs"], "all matrix dimensions and contents, all positions and counts",
 "The tests use a handful of small matrices.",
 ["isl_mat.c"], [("isl_mat_* functions","isl_mat.c")])

prop("C09", "Lists behave as value sequences",
 "A list holds exactly the sequence of elements it was built from: add, insert, drop, set, swap, reverse, concatenate and clear give exactly the sequence the operation names, for every length and position, and all other elements keep their order. Out-of-range positions are rejected with an error, and iteration visits every element once, in order, stopping at the first failing callback.",
 ["inputs","histories"], "all list types, lengths, positions and sequences of operations",
 "The tests build a few short lists of one or two element types.",
 ["isl_list_templ.c","include/isl/list.h"], [("list template","isl_list_templ.c")],
 [("n, p[]","number of elements and elements in order","isl_list_templ.h")])

prop("C10", "Hash tables and id maps behave as finite maps",
 "A hash table finds exactly the entries inserted and not removed since, whatever the hash values and collisions, across all growth steps. A map keyed by identifiers returns for each key the value most recently associated with it and not dropped, and drop removes exactly that key.",
 ["inputs","histories"], "all sequences of insertions, lookups and removals, all hash functions",
 "Collisions, wrap-around at the end of the table and growth while removals are pending depend on hash values that the tests do not control.",
 ["isl_hash.c","isl_hmap_templ.c"], [("open addressing with linear probing","isl_hash.c")],
 [("entries","open-addressing slots","include/isl/hash.h")])

prop("C11", "Symbolic integer-set algebra is exact",
 "Intersection, union, difference, complement, composition, inverse, domain, range, projection and equality or subset tests on sets and relations are exact: an integer point belongs to the result precisely when the definition of the operation says so, for every parameter value.",
 ["inputs"], "all sets and relations with parameters and existential variables, all integer points",
 "Tests compare a few dozen hand-written sets; the space of constraint systems is unbounded.",
 ["isl_map.c","isl_map_subtract.c","isl_map_simplify.c","isl_union_map.c"], [("constraint rewriting","isl_map.c")])

prop("C12", "Simplification and normal forms preserve the set described",
 "Elimination of equalities, removal of redundant constraints and divisions, tightening, coalescing, gist (in its context), detection of implicit equalities and affine hulls (as supersets) never change the set of integer points described beyond what they document.",
 ["inputs"], "all constraint systems", "Any test fixes one system; an unsound rewriting rule may need a particular coefficient pattern.",
 ["isl_map_simplify.c","isl_coalesce.c","isl_affine_hull.c","isl_convex_hull.c"], [("gauss, eliminate, tighten, coalesce","isl_map_simplify.c, isl_coalesce.c")])

prop("C13", "Emptiness, optimisation and lexicographic extrema are exact",
 "Emptiness tests, integer and rational optimisation, sampling and parametric lexicographic minimisation or maximisation return the exact answer, and a returned sample lies in the set.",
 ["inputs"], "all constraint systems and objectives", "Correctness of cutting planes and context tableaux depends on pivoting sequences tests do not enumerate.",
 ["isl_tab.c","isl_tab_pip.c","isl_ilp.c","isl_lp.c","isl_sample.c"], [("simplex tableau with Gomory cuts","isl_tab.c, isl_tab_pip.c")])

prop("C14", "Undoing a tableau to a snapshot restores the constraint system",
 "After any sequence of additions of constraints, variables, divisions, redundancy and equality detections on a tableau, rolling back to an earlier snapshot gives a tableau that describes the same constraint system, and marks, as at the time of the snapshot.",
 ["histories"], "all operation sequences and snapshots", "Requires arbitrary interleavings of pushes and rollbacks.",
 ["isl_tab.c"], [("undo stack","isl_tab.c")])

prop("C15", "Piecewise quasi-affine expressions are evaluated and combined pointwise",
 "Arithmetic on quasi-affine expressions and their piecewise and multi-dimensional forms (sum, product with constant, floor, modulo, min, max, pullback, evaluation) agrees with pointwise integer/rational arithmetic on the domain, and NaN expressions absorb.",
 ["inputs"], "all expressions, all points", "Tests evaluate a few fixed expressions.",
 ["isl_aff.c","isl_pw_templ.c"], [("coefficient vector with denominator","isl_aff.c")])

prop("C16", "Objects keep well-formed spaces: dimensions, names and ids follow edits",
 "Inserting, dropping, moving, renaming, wrapping, reversing or adding dimensions changes the dimensionality and the identifiers of exactly the stated dimensions; all other dimensions keep their identifiers and order, and operations on objects with incompatible spaces are rejected or aligned.",
 ["inputs","histories"], "all spaces, positions and operation sequences", "Tests inspect a few spaces.",
 ["isl_space.c","isl_local_space.c"], [("isl_space editing functions","isl_space.c")])

prop("C17", "Generated AST visits exactly the scheduled points, in schedule order",
 "The AST generated from a schedule executes each domain element exactly once (or as many times as documented under separation and atomicity options) and in the lexicographic order given by the schedule, for all parameter values in the context.",
 ["inputs","configurations"], "all schedules, options and parameter values", "Tests compare generated text for fixed inputs.",
 ["isl_ast_codegen.c","isl_ast_build.c","isl_ast_graft.c"], [("loop generation","isl_ast_codegen.c")])

prop("C18", "Computed schedules satisfy all validity constraints",
 "A schedule computed from validity dependences orders the source of each dependence before (or together with, in a coincident band, as documented) its sink, for every parameter value, under every scheduler option.",
 ["inputs","configurations"], "all dependence relations and options", "Tests use fixed dependence graphs.",
 ["isl_scheduler.c"], [("ILP formulation by Farkas","isl_scheduler.c")])

prop("C19", "Dataflow analysis reports exactly the last sources",
 "For each sink access the reported must-source is the last write before it in schedule order and may-sources comprise exactly those not killed, for all parameter values.",
 ["inputs"], "all access relations and schedules", "Tests fix a few programs.",
 ["isl_flow.c"], [("level-wise last-source computation","isl_flow.c")])

prop("C20", "Transitive closure is a superset, and exact whenever it is claimed exact",
 "The computed (power or) transitive closure of a relation contains the true closure, and equals it whenever reported exact.",
 ["inputs"], "all relations", "Tests use fixed relations.",
 ["isl_transitive_closure.c"], [("path approximations with exactness check","isl_transitive_closure.c")])

prop("C21", "Printing and parsing are inverse",
 "Text printed for an object, in the library's own format, is parsed back to an equal object; ill-formed text is rejected with an error and without crash.",
 ["inputs"], "all objects and all input texts", "Tests round-trip a fixed corpus.",
 ["isl_input.c","isl_output.c","isl_stream.c"], [("recursive-descent parser and printer","isl_input.c, isl_output.c")])

prop("C22", "Polynomial bounds are true bounds",
 "A computed upper (lower) bound of a piecewise polynomial is not exceeded on its domain at any integer point, and is attained whenever it is reported tight.",
 ["inputs"], "all piecewise polynomials and domains", "Tests fix a few polynomials.",
 ["isl_bound.c","isl_bernstein.c","isl_range.c"], [("Bernstein expansion, range propagation","isl_bernstein.c, isl_range.c")])

prop("C23", "The operation limit stops computations cleanly",
 "When a limit on the number of operations is set, a computation that exceeds it ends with an error within a bounded amount of extra work, and after the limit is reset all objects that existed before can be used with unchanged values.",
 ["fault_sequences","histories"], "every limit value and computation", "The limit can strike at any internal step.",
 ["isl_ctx.c","isl_hash.c"], [("isl_ctx_next_operation","isl_ctx.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
