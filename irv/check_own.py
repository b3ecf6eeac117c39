"""Checks C01..C04: every function of the library against its ownership contract.

quick:    the committed contracts are the starting hypothesis, every function
          body in /repo is verified against them; contracts of changed
          functions are re-derived until every caller was verified against the
          callee contract that its body satisfies.
thorough: the contracts are derived from the strongest hypothesis instead and
          the obligations per function are compared as well.
baseline: writes contracts/own.json (run by hand, never by a check).
"""
import os
import re
import sys
import json
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "frontend")]
sys.setrecursionlimit(5000)
import lower
import own
import drive

PROPS = {"C01": "P1", "C02": "P2", "C03": "P3", "C04": "P4"}
TABLE = os.path.join(VERIF, "contracts", "own.json")

FAMILY = {
    "leak": "leak", "overwrite-leak": "leak", "dangling-slot": "leak", "field-leak": "leak", "mpz-leak": "leak",
    "null-return": "leak",
    "give-unowned": "release", "double-give": "release", "use-after-give": "release", "release-unowned": "release",
    "returns-released": "release", "store-borrowed": "release", "ref-write": "release",
    "mpz-reinit": "mpz", "mpz-clear-uninit": "mpz", "mpz-use-uninit": "mpz",
    "null-deref": "null-deref", "null-arg": "null-deref", "null-not-error": "null-not-error",
    "shared-write": "shared", "shared-arg": "shared", "steal": "shared",
    "unchecked": "unchecked", "swallowed": "unchecked",
}

MEANING = {
    "leak": "a reference owned at exit is neither returned nor given away",
    "overwrite-leak": "a field holding an owned reference is overwritten",
    "dangling-slot": "a field still names an object whose reference was given away",
    "field-leak": "an object is released while it still owns a field",
    "mpz-leak": "an initialised big integer is not cleared",
    "give-unowned": "a reference that is not owned is given away or released",
    "double-give": "a reference is given away or released twice",
    "use-after-give": "an object is used after its reference was given away",
    "release-unowned": "a borrowed argument is released",
    "returns-released": "a released object is returned",
    "store-borrowed": "a borrowed reference is stored in an owning field",
    "ref-write": "a reference count is written directly",
    "mpz-reinit": "a big integer is initialised twice",
    "mpz-clear-uninit": "an uninitialised big integer is cleared",
    "mpz-use-uninit": "an uninitialised big integer is used",
    "null-deref": "a pointer that may be NULL is dereferenced",
    "null-arg": "NULL is passed where the callee requires an object",
    "null-not-error": "a null argument does not lead to an error result",
    "shared-write": "an object that may be shared is modified",
    "shared-arg": "an object that may be shared is passed to a function that modifies it",
    "steal": "a reference is taken out of an object that may be shared",
    "unchecked": "the failure of a callee does not reach the result",
    "swallowed": "an error that was raised does not reach the result",
}


def kstr(k):
    return k if isinstance(k, str) else "%s:%s" % k


def kparse(s):
    if ":" in s:
        a, b = s.split(":", 1)
        return (a, b)
    return s


def load_table():
    tab = {}
    for line in open(TABLE):
        line = line.strip()
        if line:
            d = json.loads(line)
            tab[kparse(d["f"])] = d
    return tab


def world(out, helpers=None):
    od, res = lower.lower_all(out=out, helpers=helpers)
    return own.World(res, lower.Decls(res))


def config():
    cfg = own.Config()
    cfg.nonnull_fields = set()
    return cfg


def run(out, tier, log):
    w = world(out)
    cfg = config()
    tab = load_table()
    cfg.known = set(tab)
    cfg.excluded = {k: set(d["x"]) for k, d in tab.items() if d.get("x")}
    init = {k: own.Summary.from_json(d["c"]) for k, d in tab.items()}
    start = init
    if tier == "thorough":
        start = None
    res, summ = drive.solve(w, cfg, init=init, log=log, fresh=start is None)
    return w, tab, res


def fam(prop, kind):
    return FAMILY.get(kind, kind)


def judge(prop, tab, res):
    """-> (violations, stats)"""
    P = PROPS[prop]
    viol = []
    st = dict(functions=0, verified=0, excluded=0, limit=0, new=0, obligations=0, outside=0)
    excl, lim = [], []
    for k, r in res.items():
        d = tab.get(k)
        nob = r[8].get(P, 0)
        if d is None:
            st["new"] += 1
            continue
        st["functions"] += 1
        if r[3] or d.get("g"):
            st["limit"] += 1
            lim.append("%s (%s)" % (kstr(k), r[3] or "not under contract"))
            continue
        ex = set(d.get("x", {}).get(P, ()))
        bad = [(a, l) for a, l in r[2].items() if a[0] == P and fam(prop, a[1]) not in ex]
        if ex:
            st["excluded"] += 1
            st["outside"] += nob
            excl.append(kstr(k))
        else:
            st["verified"] += 1
            st["obligations"] += nob
        for a, l in bad:
            viol.append((k, a, l))
    return viol, st, excl, lim


def write_baseline(out, log=print):
    w = world(out)
    cfg = config()
    cfg.known = None
    res, summ = drive.solve(w, cfg, log=log)
    with open(TABLE, "w") as f:
        for k in sorted(res, key=kstr):
            r = res[k]
            d = {"f": kstr(k), "c": summ[k].to_json()}
            if r[3]:
                d["g"] = r[3]
            x = {}
            for a in r[2]:
                if a[0] in ("P1", "P2", "P3", "P4"):
                    x.setdefault(a[0], set()).add(fam(None, a[1]))
            if x:
                d["x"] = {p: sorted(v) for p, v in sorted(x.items())}
            f.write(json.dumps(d, separators=(",", ":")) + "\n")


ASSUME = [
    "the LLVM IR that clang-18 -O0 and opt mem2reg produce from /repo's sources (with declarations instead of "
    "inline implementations in gmp.h) means what the C source means",
    "external functions (libc, GMP) behave as specified: allocation returns fresh memory or NULL, free releases, "
    "mpz_init/clear pair up; GMP itself is assumed not to fail",
    "user callbacks and function pointers satisfy the __isl_take/keep/give annotations of their prototype",
    "functions listed as outside the contract or out of the verifier's reach are assumed to satisfy the "
    "contract derived for them",
    "pointers loaded from two different fields or list positions do not alias unless the code shows it; "
    "reference counts are only changed by *_copy, *_free and *_cow",
    "prototype corrections: isl_multi_*_peek_at returns a borrowed element (the source marks it __isl_give)",
]


def check(prop, tier, seed, out, log):
    t0 = time.time()
    w, tab, res = run(out, tier, log)
    viol, st, excl, lim = judge(prop, tab, res)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": st["obligations"],
            "discharged": st["obligations"] - len(viol),
            "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
            "backend": "path- and ownership-sensitive symbolic verifier irv/own.py (abstract states over LLVM IR, "
                       "loops by inductive fixpoint, calls by contract)",
            "trusted_base": ASSUME,
            "functions_in_repo": st["functions"] + st["new"],
            "functions_under_contract": st["verified"],
            "functions_outside_contract_for_this_property": st["excluded"],
            "functions_out_of_reach": st["limit"],
            "functions_new_inlined_or_unjudged": st["new"],
            "obligations_outside_contract": st["outside"],
            "outside_contract": sorted(excl),
            "out_of_reach": sorted(lim),
            "solver_time_s": round(sum(r[6] for r in res.values()), 1),
        },
        "assumptions": ASSUME,
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 1),
    }
    vs = []
    for k, a, l in sorted(viol, key=str):
        vs.append(dict(id="%s/%s/%s" % (kstr(k), a[1], a[2]), text=describe(w, k, a, l)))
    import check_api
    av, ev["coverage"]["run_time_checked_contracts"] = check_api.run(prop, tier, out, log)
    ev["wall_s"] = round(time.time() - t0, 1)
    return vs + av, ev


def describe(w, k, a, line):
    src = k[0] if isinstance(k, tuple) else w.fn[k][0].src
    name = k[1] if isinstance(k, tuple) else k
    return "%s:%s %s: obligation %s/%s(%s): %s" % (src, line or "?", name, a[0], a[1], a[2], MEANING.get(a[1], ""))


if __name__ == "__main__":
    import tempfile
    out = tempfile.mkdtemp(prefix="islverif.")
    try:
        if sys.argv[1] == "baseline":
            write_baseline(out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
