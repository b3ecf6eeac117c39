"""C06-C10, C16: functional contracts (contracts/fun) of the real functions.

1. proof: every obligation of every contract, on the IR of /repo's current tree
   (all inputs, all iterations); per function: proved / failed / undecided
2. replay: counterexamples of the verifier, and a fixed bounded sample of
   inputs, on the real code compiled from the same tree
"""
import os
import sys
import json
import pickle
import time
import importlib
import multiprocessing as mp
import lower
import real
import prove
import conc
import contract as K

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TABLE = os.path.join(VERIF, "contracts", "fun.json")
MODS = {"C06": ["val"], "C07": ["seq", "vec"], "C08": ["mat"], "C09": ["list"], "C10": ["hash"], "C16": ["space"]}

W = None
LIB = None


def _prove(a):
    name, vi, budget, unroll = a
    c = K.CONTRACTS[name]
    try:
        r = prove.prove(c, W, budget=budget, unroll=unroll, only=vi)
    except RecursionError:
        r = prove.Result()
        r.status, r.why = "unsupported", "recursion"
    except Exception as e:        # a bug of the verifier is not a verdict
        r = prove.Result()
        r.status, r.why = "unsupported", "internal: %r" % (e,)
    ex = []
    for kind, var, alias, m, E, s1 in r.cex[:6]:
        try:
            x = conc.concretise(c, kind, var, alias, m, E, None)
            pickle.dumps(x)
        except Exception:
            x = None
        if x is not None:
            ex.append(x)
    return dict(name=name, status=r.status, why=r.why, obl=r.obl, ok=r.ok, paths=r.paths, loops=r.loops, t=r.t,
                solver=r.solver_s, inlined=sorted(map(str, r.inlined)), trusted=sorted(map(str, r.trusted)), modular=sorted(map(str, r.modular)), cex=ex, vi=vi)


def _test(a):
    name, seed, n, extra, rty = a
    try:
        r = conc.test(LIB, K.CONTRACTS[name], rty, seed, n, extra)
    except Exception as e:
        r = dict(cases=0, fail=[], error=repr(e))
    r["name"] = name
    return r


RANK = {"proved": 0, "unknown": 1, "unsupported": 2, "missing": 3, "failed": 4}


def _merge(parts):
    d = dict(status="proved", why="", obl=0, ok=0, paths=0, loops=0, t=0, solver=0, inlined=set(), trusted=set(), modular=set(), cex=[])
    for p in parts:
        if RANK[p["status"]] > RANK[d["status"]]:
            d["status"], d["why"] = p["status"], p["why"]
        for k in ("obl", "ok", "paths", "loops", "t", "solver"):
            d[k] += p[k]
        d["inlined"] |= set(p["inlined"])
        d["trusted"] |= set(p["trusted"])
        d["modular"] |= set(p["modular"])
        d["cex"] += p["cex"]
    return d


def check(prop, tier, seed, out, log, table=True):
    global W, LIB
    t0 = time.time()
    K.CONTRACTS.clear()
    for m in MODS[prop]:
        importlib.import_module(m)
    cs = {n: c for n, c in K.CONTRACTS.items() if c.prop == prop}
    srcs = lower.sources()
    _, res = lower.lower_all(srcs, out)
    W = prove.World(res, lower.Decls(res))
    missing = []
    rty = {}
    for n, c in cs.items():
        key = W.key_of(c.src, c.fname)
        if key is None:
            missing.append(n)
        else:
            rty[n] = str(W.fn[key][1].ret)
    LIB = real.build(out, srcs, statics=[(c.src, c.fname) for n, c in cs.items() if c.src and n not in missing])
    known = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    thorough = tier == "thorough"
    budget = 400 if thorough else 70
    work = []
    for n in rty:
        c = cs[n]
        if c.bounded_only:
            continue
        # only functions proved before (or new ones) are tried in the quick tier
        if not thorough and known.get(n, {}).get("status", "proved") != "proved":
            continue
        for vi in range(len(prove.variants(c))):
            work.append((n, vi, budget, 0))
    work.sort(key=lambda x: -known.get(x[0], {}).get("t", 1))
    parts = {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_prove, work, 1):
            parts.setdefault(r["name"], []).append(r)
        P = {n: _merge(ps) for n, ps in parts.items()}
        # bounded: all contents up to length 3, loops unrolled
        bw = []
        for n in rty:
            if n not in P or P[n]["status"] != "proved":
                for vi in range(len(prove.variants(cs[n]))):
                    bw.append((n, vi, 120 if thorough else 25, 4))
        bparts = {}
        for r in pool.imap_unordered(_prove, [x for x in bw if not cs[x[0]].bounded_only], 1):
            bparts.setdefault(r["name"], []).append(r)
        B = {n: _merge(ps) for n, ps in bparts.items()}
        tw = []
        for n in rty:
            ex = (P[n]["cex"] if n in P else []) + (B[n]["cex"] if n in B else [])
            tw.append((n, seed, 40000 if thorough else cs[n].cases or 1500, ex, rty[n]))
        T = {r["name"]: r for r in pool.imap_unordered(_test, tw, 1)}
    viol = []
    proved, bounded, undecided = [], [], []
    for n in sorted(rty):
        t = T[n]
        p = P.get(n)
        if t.get("error"):
            log("replay of %s: %s" % (n, t["error"].strip().splitlines()[-1]))
        for f in t["fail"][:1]:
            viol.append(dict(id="%s/%s" % (n, f["clause"].split(" (")[0]),
                             text="%s: %s; fails on the real code for %s" % (n, f["clause"], f["args"]),
                             input=f["args"]))
        if p is not None and p["status"] == "proved":
            proved.append(n)
            continue
        b = B.get(n)
        if p is not None and p["status"] == "failed" and not t["fail"] and known.get(n, {}).get("status") == "proved" \
                and not (b is not None and b["status"] == "proved"):
            viol.append(dict(id="%s/%s" % (n, p["why"]),
                             text="%s: obligation failed: %s (discharged on the committed tree)" % (n, p["why"])))
        why = "%s: %s" % (p["status"], p["why"]) if p else known.get(n, {}).get("why", "not attempted")
        bounded.append(dict(function=n, proof=why, bounded_proof=(b["status"] + ", up to 4 loop iterations") if b else "none",
                            inputs_tried=t["cases"]))
        if p is not None:
            undecided.append("%s (%s)" % (n, why))
    for n in undecided:
        log("not proved: %s" % n)
    for n in missing:
        log("contract without function: %s" % n)
    obl = sum(P[n]["obl"] for n in P)
    ok = sum(P[n]["ok"] for n in P if P[n]["status"] == "proved")
    cnt = sum(P[n]["obl"] for n in P if P[n]["status"] == "proved") + len([v for v in viol if v["id"].split("/")[0] not in proved])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": cnt, "discharged": ok,
              "checker_cmd": "check.py %s %s" % (prop, tier),
              "backend": "irv/sym.py + z3 (weakest-precondition style symbolic execution of the IR, loops by derived invariants)",
              "functions_under_contract": len(rty), "functions_proved": proved, "functions_bounded_only": bounded,
              "contracts_without_function": missing,
              "obligations_generated_incl_unproved": obl,
              "functions_inlined": sorted(set().union(*[P[n]["inlined"] for n in P]) if P else []),
              "callees_represented_by_contract": sorted(set().union(*[P[n].get("modular", []) for n in P]) if P else []),
              "trusted_base": TRUST + sorted(set().union(*[P[n]["trusted"] for n in P]) if P else []),
              "loops_summarised": sum(P[n]["loops"] for n in P),
              "paths": sum(P[n]["paths"] for n in P),
              "solver_time_s": round(sum(P[n]["solver"] for n in P), 1),
              "replayed_inputs_on_real_code": sum(T[n]["cases"] for n in T)},
          "assumptions": TRUST}
    if not table:
        ev["_P"], ev["_B"], ev["_T"] = P, B, T
    return viol, ev


TRUST = [
    "LLVM IR of clang-18 -O0 + mem2reg means what the C source means (gmp.h replaced by declarations)",
    "GMP functions compute what their manual says over mathematical integers; memory allocation succeeds in functional contracts "
    "(failure is C01-C04's subject)",
    "int/unsigned machine arithmetic on lengths and positions is treated as mathematical (lengths < 2^30)",
    "distinct object arguments do not overlap except in the aliasing variants that are proved separately",
    "facts on gcd given to the solver: nonnegative, zero only for (0, 0), divides both arguments with coprime cofactors, symmetric, associative, "
    "invariant under sign and under adding a multiple of the other argument",
    "z3 4.x",
]


def baseline(props):
    import tempfile
    import shutil
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    for prop in props:
        out = tempfile.mkdtemp(prefix="islverif.")
        try:
            for n in [n for n in tab if tab[n].get("prop") == prop]:
                del tab[n]
            json.dump(tab, open(TABLE, "w"))
            t0 = time.time()
            viol, ev = check(prop, "thorough" if os.environ.get("THOROUGH") else "quick", 1, out, print, table=False)
            for v in viol:
                print("VIOL", v)
            for n, p in ev["_P"].items():
                b = ev["_B"].get(n)
                tab[n] = dict(prop=prop, status=p["status"], why=p["why"], t=round(p["t"], 1))
                if p["status"] != "proved":
                    print("%-36s %-11s %s | bounded: %s | %d" % (n, p["status"], p["why"], b and b["status"] + " " + b["why"],
                                                                ev["_T"][n]["cases"]))
            print(prop, len(ev["_P"]), "proved", len([1 for p in ev["_P"].values() if p["status"] == "proved"]),
                  "%.0fs" % (time.time() - t0))
        finally:
            shutil.rmtree(out, ignore_errors=True)
    with open(TABLE, "w") as f:
        f.write("{\n" + ",\n".join('"%s": %s' % (n, json.dumps(tab[n])) for n in sorted(tab)) + "\n}\n")


if __name__ == "__main__":
    baseline(sys.argv[2:] if sys.argv[1] == "baseline" else [])
