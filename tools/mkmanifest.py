#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = ("contract-based deductive verification of the compiled source, function by function: ownership/null/sharing/error "
       "contracts from isl's __isl_take/keep/give annotations plus derived contracts, all paths, loops by inductive invariants")
CLAIM = {
 "C01": (OWN, "Every path of every function under contract discharges the linear-ownership obligations. Assumes the annotations of "
         "external functions and callbacks, no aliasing between distinct fields; functions listed in the evidence as outside the "
         "contract (obligations the verifier cannot discharge today) or out of reach are assumed, not proved. Second layer, bounded and never counted as proved: the contract of every public function run-time checked on generated arguments, with ASAN/LSan."),
 "C02": (OWN, "Null arguments and failed sub-computations: no dereference, error result. Same assumptions as C01. Second layer, bounded and never counted as proved: the contract of every public function run-time checked on generated arguments, each pointer argument null in turn."),
 "C03": (OWN, "No write to an object unless it is exclusively owned (fresh, result of cow, reference count 1). Same assumptions as C01. Second layer, bounded and never counted as proved: the contract of every public function run-time checked on generated arguments, each argument shared."),
 "C04": (OWN, "The error of every fallible callee reaches the result. Same assumptions as C01. Second layer, bounded and never counted as proved: the contract of every public function run-time checked on generated arguments, each allocation failing, each operation limit and each callback failing."),
 "C05": ("contract-based deductive verification: assigns clauses (frame conditions) of every function, static storage in no frame",
         "All functions of the library; strict aliasing assumed for globals whose address is stored in memory."),
}
FUN = ("contract-based deductive verification of the compiled source: pre/postconditions on each function (contracts/fun/%s), all paths "
       "by symbolic execution, loops by derived inductive invariants, obligations discharged by z3; counterexamples and bounded "
       "stand-ins replayed on the real code")
FN = ("Functional postconditions for all inputs, lengths, aliasing and sharing patterns. Trusted: GMP, allocation succeeds, lengths < 2^30. "
      "Functions listed as functions_bounded_only in the evidence are only tried on bounded inputs (%s).")
CLAIM.update({
 "C06": (FUN % "val.py", FN % "isl_val_gcdext"),
 "C07": (FUN % "seq.py, vec.py", FN % "isl_vec_sort, isl_vec_expand"),
 "C09": (FUN % "list.py (21 element types)", FN % "isl_*_list_sort, isl_*_list_foreach_scc"),
 "C08": (FUN % "mat.py", FN % "matrix product, direct sum and the linear algebra: hermite, kernel, rank, inverse, unimodular completion, ..."),
})
LEVEL = {}
CLAIM["C10"] = ("contract-based verification of the real source (isl_hash.c, the five instances of isl_hmap_templ.c) by CBMC: a harness per "
    "function assumes the precondition on arbitrary tables and asserts the postcondition, callees replaced by their contracts "
    "(goto-instrument --replace-calls); bounded in the number of slots; failed obligations replayed on the native code; "
    "random histories on the native code beyond the bound",
    "Bounded: 4 slots (selected or, thorough, all occupancies of 8 slots), all hash values, contents and sharing within; grow_table and find "
    "checked against each other's contracts. Not counted as proved for all sizes. Allocation succeeds.")
LEVEL["C10"] = "other"
CLAIM["C16"] = ("contract-based verification of the real source (isl_space.c, isl_reordering.c) by CBMC: every operation is specified by a function on "
    "abstract space values (dimensions, identifiers, wrapped relations); harness per operation and shape, callees isl_space_dup and copy_ids "
    "replaced by their contracts; failed obligations replayed on the native code; the same contracts on random inputs on the native code",
    "Bounded: spaces of up to two levels of wrapping and a few dimensions per tuple. Not counted as proved for all shapes. Allocation succeeds.")
LEVEL["C16"] = "other"
NA = {
 "C11": "the postcondition quantifies over integer points of Presburger sets with existentially quantified divs; it reaches through the "
        "tableau, simplification and coalescing code (tens of thousands of lines without loop invariants) and is beyond the contracts "
        "that the available back ends can discharge on this code",
 "C12": "equivalence of integer point sets before and after in-place heuristic rewriting needs invariants for gauss/simplify/coalesce "
        "over matrices of unbounded integers with integer-hull reasoning (nonlinear, quantified); not within reach of the provers here",
 "C13": "exactness of the simplex/Gomory-cut/parametric integer programming code needs a mechanised proof of those algorithms and their "
        "termination; no contract within reach decides it",
 "C14": "the undo log interacts with heuristic pivoting: the restored tableau is a different but equivalent matrix, and the equivalence "
        "invariant (nonlinear, over all pivots) is beyond the provers here",
 "C15": "pointwise semantics of quasi-affine expressions with nested integer divisions: nonlinear div/mod reasoning over heap matrices "
        "and merged local spaces is out of reach; the ownership and error contracts of the same functions are covered by C01-C04",
 "C17": "whole-algorithm property of the AST generator over Presburger sets; rests on C11-C13 and has no function-level contract within reach",
 "C18": "rests on the exactness of LP/ILP solving (C13) and Farkas dualisation over heap tableaux; no contract within reach",
 "C19": "rests on exact parametric lexicographic optimisation (C13); no contract within reach",
 "C20": "rests on exact set algebra (C11) and on inductive arguments over relations' powers; no contract within reach",
 "C21": "relates a printer and a recursive-descent parser over unbounded text and Presburger semantics of the parsed object; no contract within reach",
 "C22": "rests on exact emptiness/optimisation (C13) and Bernstein expansion over rationals; no contract within reach",
 "C23": "a statement about amount of work and about every loop of the library polling the limit; cost is not expressible in the contracts here. "
        "The clean-failure part (no leak, error reported) is covered by C01, C02 and C04",
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CLAIM:
            t, n = CLAIM[p]
            checks.append(dict(property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p,
                               technique=t, level=LEVEL.get(p, "proof"), level_note=n))
    na = [dict(property=p, reason=NA[p]) for p in props if p not in CLAIM]
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
