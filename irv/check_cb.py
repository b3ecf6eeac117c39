"""Contracts checked by CBMC on the real source (bounded), violations replayed natively.

A job is a contract harness (contracts/cb/*.c: preconditions assumed on arbitrary
inputs, postconditions asserted), compiled together with the source file of /repo.
Called functions are replaced by their contracts (goto-instrument --replace-calls,
or stubs at translation unit borders).  A failed obligation is a violation if
the native code compiled from the same files fails for the inputs of the
counterexample.
"""
import itertools
import json
import os
import re
import resource
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CB = os.path.join(VERIF, "contracts", "cb")
REPO = os.environ.get("REPO", "/repo")
INC = ["-I" + CB, "-I" + os.path.join(VERIF, "frontend", "config"), "-I" + os.path.join(REPO, "include"), "-I" + REPO]


UID = itertools.count()


class Job:
    def __init__(self, name, harness, defs, unwind, replace=(), extra=(), native=(), timeout=200, unwindset=(), alone=False):
        self.name, self.harness, self.defs, self.unwind = name, harness, defs, unwind
        self.replace, self.extra, self.native, self.timeout = replace, list(extra), list(native), timeout
        self.unwindset = unwindset
        self.file = "job%d" % next(UID)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def sh(cmd, t, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def build_native(job, out, tag=""):
    exe = os.path.join(out, job.file + tag + ".exe")
    src = [os.path.join(CB, f) for f in [job.harness] + [e for e in job.extra if not e.startswith("/")]]
    rc, o = sh(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DREPLAY"] +
               ["-D" + d for d in job.defs] + INC + src + [e for e in job.extra if e.startswith("/")] + list(job.native) +
               ["-o", exe, "-Wl,--unresolved-symbols=ignore-all"], 120)
    return (exe, None) if rc == 0 else (None, o)


def run_native(exe, args):
    """None: holds; else what failed"""
    rc, o = sh([exe] + [str(a) for a in args], 20, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if rc == -99:
        return "does not terminate"
    if rc == 0 or rc == 2:
        return None
    m = re.search(r"^FAILED (.*)$", o, re.M)
    if m:
        return m.group(1)
    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|Assertion.*)", o)
    return m.group(1) if m else "crash (exit status %d)" % rc


def run(job, out):
    t0 = time.time()
    r = dict(name=job.name, status="undecided", why="", obligations=0, discharged=0, input=None, t=0)
    gb = os.path.join(out, job.file + ".gb")
    src = [os.path.join(CB, job.harness)] + [e if e.startswith("/") else os.path.join(CB, e) for e in job.extra]
    rc, o = sh(["goto-cc"] + ["-D" + d for d in job.defs] + INC + src + ["-o", gb], 60)
    if rc != 0:
        r["why"] = "does not compile with the contract: " + o.strip().splitlines()[0][:200] if o.strip() else "goto-cc"
        return r
    for a, b in job.replace:
        rc, o = sh(["goto-instrument", "--replace-calls", "%s:%s" % (a, b), gb, gb], 60)
        if rc != 0:
            r["why"] = "cannot replace %s by its contract" % a
            return r
    base = ["cbmc", gb, "--no-malloc-may-fail", "--unwind", str(job.unwind), "--unwinding-assertions", "--json-ui"]
    for u in job.unwindset:
        base += ["--unwindset", u]
    rc, o = sh(base, job.timeout, preexec_fn=limit)
    r["t"] = round(time.time() - t0, 1)
    try:
        res = next(x["result"] for x in json.loads(o) if "result" in x)
    except (ValueError, StopIteration):
        r["why"] = "time limit" if rc == -99 else "no answer from cbmc (exit status %d)" % rc
        return r
    finally:
        os.unlink(gb) if not r.get("keep") and rc != 10 else None
    r["obligations"] = len(res)
    bad = [x for x in res if x["status"] != "SUCCESS"]
    r["discharged"] = len(res) - len(bad)
    if not bad:
        r["status"] = "proved"
        return r
    r["status"] = "failed"
    bad.sort(key=lambda x: ".assertion" not in x["property"])
    r["why"] = bad[0]["description"]
    r["failed"] = [x["property"] + ": " + x["description"] for x in bad[:20]]
    # counterexample -> real code
    exe, err = build_native(job, out)
    for x in bad[:4]:
        rc, o = sh(base + ["--trace", "--property", x["property"]], job.timeout, preexec_fn=limit)
        try:
            res = next(y["result"] for y in json.loads(o) if "result" in y)
            tr = next(y["trace"] for y in res if y.get("trace"))
        except (ValueError, StopIteration):
            continue
        ins = []
        for st in tr:
            if st.get("stepType") == "assignment" and st.get("lhs") == "cb_input" and "data" in st.get("value", {}):
                if not st.get("hidden"):
                    ins.append(st["value"]["data"])
        vals = [int(re.match(r"-?\d+", v).group(0)) for v in ins]
        if not exe:
            continue
        f = run_native(exe, vals)
        if f:
            r["input"] = vals
            r["native"] = f
            break
    try:
        os.unlink(gb)
    except OSError:
        pass
    r["t"] = round(time.time() - t0, 1)
    return r


def history(job, out, seeds):
    exe, err = build_native(job, out)
    if not exe:
        return dict(name=job.name, error=(err or "").strip()[:300], n=0, fail=None)
    for s in seeds:
        f = run_native(exe, [s])
        if f:
            return dict(name=job.name, n=len(seeds), fail=f, input=[s])
    return dict(name=job.name, n=len(seeds), fail=None)


def build_library(out, flags=(), tag="lib"):
    """All library sources of /repo, compiled from the working tree: (archive, None) or (None, error)"""
    import sys
    sys.path.insert(0, os.path.join(VERIF, "frontend"))
    import lower
    d = os.path.join(out, tag)
    os.makedirs(d, exist_ok=True)
    src = lower.sources()

    def cc(f):
        o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
        return o, sh(["gcc", "-O1", "-w"] + list(flags) + INC + ["-c", "-o", o, os.path.join(REPO, f)], 300)
    with ThreadPoolExecutor(8) as pool:
        R = list(pool.map(cc, src))
    for o, (rc, msg) in R:
        if rc != 0:
            return None, msg[:300]
    a = os.path.join(d, "lib.a")
    sh(["ar", "rcs", a] + [o for o, _ in R], 60)
    return a, None


def objects(out, seeds, steps, flags=(), args=(), env=None, tag="obj"):
    """Run the contracts of the operations on objects (contracts/cb/obj.c) on random histories"""
    r = dict(name="obj.c: operations on sets, maps, expressions and polynomials", n=0, fail=None)
    lib, err = build_library(out, flags, "lib" + tag)
    if lib:
        exe = os.path.join(out, tag)
        rc, err = sh(["gcc", "-O1", "-g", "-w"] + list(flags) + INC + ["-o", exe, os.path.join(CB, "obj.c"), lib, "-lgmp", "-lm"], 300)
        if rc == 0:
            err = None
    if err:
        r["error"] = err.strip()[:300]
        return r

    def one(s):
        rc, o = sh([exe, str(s), str(steps)] + list(args), 60, env=dict(os.environ, **(env or {})))
        if rc in (0, -99):
            return rc, None
        m = re.search(r"FAIL (.*)$", o, re.M) or re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*)", o)
        w = re.search(r"^AT (.*)$", o, re.M)
        return rc, m.group(1) if m else "crash (signal %d)%s" % (-rc, " in " + w.group(1) if w else "")
    with ThreadPoolExecutor(8) as pool:
        for s, (rc, f) in zip(seeds, pool.map(one, seeds)):
            if rc != -99:
                r["n"] += 1
            if f and not r["fail"]:
                r["fail"], r["input"] = f, [s]
    return r


def jobs_c10(tier):
    J, N = [], []
    thorough = tier == "thorough"
    common = ["common.c", "ctx_stub.c"]

    def h(kind, bits, occ, replace=(), unwind=None, timeout=200):
        J.append(Job("isl_hash.c %s, %d slots, occupied %s" % (kind, 1 << bits, bin(occ)), "hash.c",
                     [kind, "BITS=%d" % bits, "OCC=%d" % occ], unwind or (2 << bits) + 2, replace, common, timeout=timeout))
    for occ in range(15):
        if bin(occ).count("1") > 3:
            continue
        h("FIND", 2, occ, [("grow_table", "grow_contract")])
        if occ:
            h("REMOVE", 2, occ)
        h("FIRST", 2, occ)
        h("FOREACH", 2, occ)
        if bin(occ).count("1") == 3:
            h("GROW", 2, occ, [("isl_hash_table_find", "find_contract")])
    eight = range(256) if thorough else (0x07, 0x83, 0xc1, 0xe3, 0x9b, 0xdb)
    for occ in eight:
        n = bin(occ).count("1")
        if 0 < n < 7:
            h("REMOVE", 3, occ, timeout=600)
        if n < (6 if thorough else 4):
            h("FIND", 3, occ, timeout=600)
    J.append(Job("isl_hash.c INIT", "hash.c", ["INIT", "BITS=2"], 70, (), common))
    INST = [("isl_id_to_id", ["SAMETYPE"]), ("isl_id_to_ast_expr", ["VALEQ=isl_ast_expr_is_equal"]),
            ("isl_id_to_pw_aff", ["VALEQ=isl_pw_aff_plain_is_equal"]),
            ("isl_map_to_basic_set", ["KEYEQ=isl_map_plain_is_equal", "VALEQ=isl_basic_set_plain_is_equal"]),
            ("isl_set_to_ast_graft_list", ["KEYEQ=isl_set_plain_is_equal"])]
    for inst, d in INST:
        for kind in ("SET", "DROP", "GET", "OTHER"):
            for occ in ((0, 1, 6, 14) if thorough else (0, 1, 6) if kind in ("SET", "DROP") else (6,)):
                J.append(Job("%s.c %s, %d keys" % (inst, kind, bin(occ).count("1")), "hmap.c",
                             [kind, "OCC=%d" % occ, 'INST="%s.c"' % inst] + d, 8, (), common, timeout=600 if thorough else 200))
        N.append(Job("%s.c histories" % inst, "hmap.c", ["HISTORY", 'INST="%s.c"' % inst] + d, 0, (), common,
                     native=[os.path.join(REPO, "isl_hash.c")]))
    N.append(Job("isl_hash.c histories", "hash.c", ["HISTORY"], 0, (), common))
    return J, N


SHAPES = ["0:", "2:", "1:0", "2:2", "0:2", "1:[1>2]", "2:[0>1]", "1:1>2", "2:2>2", "0:0>2", "3:2>0", "2:0>0", "2:2>0",
          "1:[1>1]>2", "1:2>[1>1]", "1:[1>2]>[2>0]", "1:[2>1]>[2>1]", "1:1>[[1>1]>2]", "0:[[1>1]>1]>1",
          "1:[[1>1]>[1>1]]", "2:[1>1]>[1>1]"]
# operation: kinds of the spaces (* any, m map, s set, n map or set), then the arguments:
# t any type, T/U type with a tuple in the first/second space, digit: 0..digit (: is 10, ; is 11, ? is 15)
OPS = dict(alloc="**323", dup="**", cow="**", copy="**", dim="**", wrapped_dim="**tt", set_dim_id="**T3", set_dim_name="**T3",
    reset_dim_id="**T3", get_dim_id="**T3", find_dim="**T", tuple_id="**t", map_tuple_id="**1", set_tuple_id="**T",
    set_tuple_name="n*T", reset_tuple_id="**T", set_domain_tuple_id="**", set_range_tuple_id="**", reset_user="**",
    add_dims="**T2", insert_dims="**T32", drop_dims="**T33", drop_inputs="m*032", drop_outputs="n*032", drop_all_params="**",
    move_dims="**T3T32", extend="**222", add_param_id="**3", reset="**T", flatten="**", flatten_domain="**", flatten_range="**",
    wrap="m*", unwrap="**", domain="m*", range="m*", params="**", from_domain="n*", from_range="n*", set_from_params="**",
    map_from_set="n*", domain_map="m*", range_map="m*", reverse="m*", range_reverse="**", join="mm",
    map_from_domain_and_range="nn", range_product="nn", domain_product="mm", product="nn",
    domain_factor_domain="**", domain_factor_range="**", range_factor_domain="**", range_factor_range="**",
    factor_domain="**", factor_range="**", domain_wrapped_domain="m*", domain_wrapped_range="m*", range_wrapped_domain="m*",
    range_wrapped_range="m*", zip="**", curry="**", uncurry="**", range_curry="**", replace_params="**", copy_ids_if_unset="**TU",
    underlying="**2", lift="**2", add_unnamed_tuple="**2", add_named_tuple="**2", bind_set="**21", bind_map_domain="**21",
    bind_domain_wrapped_domain="**21", unbind_params_insert_domain="**2", align_params="**", reordering="**", extend_domain_with_range="nn",
    kind="**?", check_kind="**4", check_range="**T33", compare="**;", cmp="**", check_compare="**3", wrapped_tuple="**ttU1")

# control flow depends on which identifiers are there: one run of the checker for each of several choices
MASKED = set("""join map_from_domain_and_range range_product domain_product product zip curry uncurry range_curry replace_params
    unbind_params_insert_domain bind_set bind_map_domain bind_domain_wrapped_domain align_params reordering extend_domain_with_range
    domain_map range_map cmp lift copy_ids_if_unset reset_user compare""".split())
TWO_SPACES = set("""join map_from_domain_and_range range_product domain_product product replace_params copy_ids_if_unset align_params
    reordering extend_domain_with_range compare cmp check_compare wrapped_tuple bind_set bind_map_domain bind_domain_wrapped_domain
    unbind_params_insert_domain""".split())


def kind(sh):
    if len(sh) == 2:
        return "p"
    d = 0
    for c in sh[2:]:
        d += (c == "[") - (c == "]")
        if c == ">" and d == 0:
            return "m"
    return "s"


def may(k, sh):
    return k == "*" or (k == "n" and kind(sh) != "p") or k == kind(sh)


def space_args(spec, s1, s2):
    R = [[]]
    for c in spec:
        if c == "t":
            v = [0, 1, 2]
        elif c in "TU":
            k = kind(s1 if c == "T" else s2)
            v = [0, 1, 2] if k == "m" else [0, 2] if k == "s" else [0]
        else:
            v = list(range(ord(c) - ord("0") + 1))
        R = [r + [x] for r in R for x in v]
    return R


def jobs_c16(tier):
    J, N = [], []
    thorough = tier == "thorough"
    n = 0
    for op, spec in OPS.items():
        cand = []
        two = op in TWO_SPACES
        for i, s1 in enumerate(SHAPES):
            seconds = [s1] if not two else [s1] + [SHAPES[(i + k) % len(SHAPES)] for k in (1, 2, 5, 7)] if thorough else [s1, SHAPES[(i + 1) % len(SHAPES)]]
            for s2 in seconds:
                if not may(spec[0], s1) or not may(spec[1], s2):
                    continue
                for x in space_args(spec[2:], s1, s2):
                    if op == "alloc" and s1 != SHAPES[0]:
                        continue
                    for m in (["IDMASK=255", "IDMASK=181", "IDMASK=0"] if op in MASKED else ["NID=99"]):
                        for held in (1, 0):
                            cand.append((s1, s2, x, m, held))
        # the quick tier runs some of them, the thorough tier many more
        want = 60 if thorough else 3
        step = max(1, len(cand) // want)
        while step > 1 and (step % 2 == 0 or step % 3 == 0):
            step += 1
        for k in range(0, len(cand), step):
            s1, s2, x, m, held = cand[k]
            d = ["OP=op_" + op, 'SH1="%s"' % s1, 'SH2="%s"' % s2, "HELD=%d" % held, m, "REP=%d" % (0 if m == "IDMASK=0" else 1)]
            d += ["X%d=%d" % (q, v) for q, v in enumerate(x)]
            if two and n % 4 == 3 and s1 == s2:
                d.append("ALIAS=1")
            if two and n % 3 == 2:
                d.append("SAMEPAR=0")
            if op in ("align_params", "reordering", "extend_domain_with_range"):
                d.append("WITH_REORDERING")
            rep = [("copy_ids", "copy_ids_contract")] + ([("isl_space_dup", "dup_contract")] if op not in ("dup", "cow") else [])
            n += 1
            J.append(Job("isl_space.c %s of %s%s %s, identifiers %s, %s" % (
                op, s1, " and " + s2 if two else "", tuple(x), "any" if m == "NID=99" else "mask " + m[7:],
                "shared" if held else "not shared"), "space.c", d, 12, rep, ["common.c"], timeout=120 if thorough else 40,
                unwindset=["init_env.0:70", "op_reset_user.0:40"]))
    for x, s1, s2 in [((0, 0, 0), "2:2", "2:2"), ((2, 0, 1), "1:3", "1:2"), ((1, 0, 1), "1:2>1", "1:1>1"), ((2, 2, 0), "1:1>2", "0:1>1")]:
        for held in (0, 1):
            J.append(Job("isl_space.c copy_ids %s, %s, %s" % (x, s1, s2), "space.c", ["OP=op_copy_ids", 'SH1="%s"' % s1, 'SH2="%s"' % s2,
                     "HELD=0", "REP=%d" % held] + (["IDMASK=0"] if not held else []) + ["X0=%d" % x[0], "X1=%d" % x[1], "X2=%d" % x[2]], 12, [], ["common.c"],
                     timeout=40, unwindset=["init_env.0:70"]))
    N.append(Job("isl_space.c contracts on random inputs", "space.c", ["HISTORY", "WITH_REORDERING",
             "SHAPES=" + ", ".join('"%s"' % s for s in SHAPES),
             "OPS=" + " ".join('OPDESC(op_%s, "%s")' % (o, a) for o, a in OPS.items())], 0, (), ["common.c"]))
    return J, N


JOBS = {"C10": jobs_c10, "C16": jobs_c16}
ASSUME = ["bounded: table sizes, numbers of entries and unwindings as in the list of contracts (unwinding assertions on: complete within the bound)",
          "memory allocation succeeds (failure is C02/C04's subject)",
          "CBMC's model of C; goto-cc compiles /repo's source as is"]


EXPLAIN = {
    "C10": "contracts of the real functions discharged by CBMC 6.11 (SAT back end) for all contents, hash values, callbacks "
           "and sharing within a bound on the number of slots/entries; bounded, not counted as proved for all sizes. "
           "Callers are checked against the contracts of the hash table. Random histories on the compiled code beyond the bound.",
    "C16": "contracts of the functions of isl_space.c over abstract space values, discharged by CBMC 6.11 for selected shapes "
           "(numbers of dimensions, wrapped relations), positions, sharing and, where the control flow does not depend on them, all choices of "
           "identifiers; isl_space_dup and copy_ids are replaced by their contracts in callers; bounded, not counted as proved for all shapes. "
           "The same contracts run on random inputs (shapes, positions, identifiers, sharing) on the compiled code. "
           "The operations on objects that live in spaces (sets, maps, affine and piecewise expressions, tuples of these, quasi-polynomials) are "
           "checked against their contract (space of the result = operation on the space of the argument, each column stays with its "
           "identifier, argument unchanged) on random histories of the compiled library: run-time checked, bounded.",
}


def check(prop, tier, seed, out, log):
    J, N = JOBS[prop](tier)
    extra = []
    if prop == "C16":
        base = seed * 7919 % 1000000 + 1
        extra.append(objects(out, range(base, base + (12000 if tier == "thorough" else 1500)), 300))
    with ThreadPoolExecutor(8) as pool:
        nh = 4000 if tier == "thorough" else 400
        fh = [pool.submit(history, j, out, range(seed * 1000003 % 4000000000, seed * 1000003 % 4000000000 + nh)) for j in N]
        R = list(pool.map(lambda j: run(j, out), J))
        H = [f.result() for f in fh] + extra
    viol = []
    und = []
    for r in R:
        if r["status"] == "failed":
            if r["input"] is not None:
                viol.append(dict(id="%s/%s" % (r["name"], r["native"]),
                                 text="%s: %s; fails on the real code: %s (inputs of the contract: %s)" % (
                                     r["name"], r["why"], r["native"], " ".join(map(str, r["input"])))
                                 , input=" ".join(map(str, r["input"]))))
            else:
                und.append("%s (%s)" % (r["name"], r["why"]))
        elif r["status"] != "proved":
            und.append("%s (%s)" % (r["name"], r["why"]))
    for h in H:
        if h.get("error"):
            log("histories of %s: %s" % (h["name"], h["error"]))
        if h["fail"]:
            viol.append(dict(id="%s/%s" % (h["name"], h["fail"]), input=h["input"],
                             text="%s: %s (history generated from seed %s on the real code)" % (h["name"], h["fail"], h["input"][0])))
    for u in und:
        log("not decided: %s" % u)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": EXPLAIN[prop],
              "obligations_bounded": sum(r["obligations"] for r in R),
              "discharged_bounded": sum(r["discharged"] for r in R),
              "contracts": [dict(contract=r["name"], status=r["status"], obligations=r["obligations"], seconds=r["t"]) for r in R],
              "undecided": und,
              "histories_on_real_code": sum(h["n"] for h in H),
              "checker_cmd": "check.py %s %s" % (prop, tier),
              "backend": "cbmc 6.11.0"},
          "assumptions": ASSUME}
    return viol, ev
