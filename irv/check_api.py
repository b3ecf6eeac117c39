"""Run-time checked contracts of the public functions (bounded layer of C01-C04).

The contract of every public function is read from its declaration in /repo's headers
(__isl_take, __isl_keep, __isl_give, isl_bool, isl_size, isl_stat).  contracts/api/api.c calls
every function on generated arguments and checks the contract:

 C01  no invalid memory access, nothing left after every object was released, also if an
      allocation fails, the operation limit is reached or a callback fails (every position)
 C02  every object argument may be NULL and the error result is returned
 C03  the result does not depend on whether the arguments are shared; kept arguments and
      other references keep their value
 C04  a failing allocation, operation limit or callback is reported or has no effect on the result
"""
import os
import re
import time
from concurrent.futures import ThreadPoolExecutor

import api
import check_cb
from check_cb import VERIF, INC, sh

DIR = os.path.join(VERIF, "contracts", "api")
WRAP = "-Wl," + ",".join("--wrap=isl_%s_or_die" % f for f in ("malloc", "calloc", "realloc"))
MODES = {"C01": "nflc", "C02": "0", "C03": "n", "C04": "flc"}
ASAN = ["-fsanitize=address"]


def run(prop, tier, out, log):
    """-> (violations, coverage)"""
    t0 = time.time()
    cov = {"contracts_on": "every function declared in /repo/include/isl", "calls": 0, "level": "bounded"}
    flags = ASAN if prop == "C01" else []
    lib, err = check_cb.build_library(out, flags, "apilib")
    exe = os.path.join(out, "api")
    if lib:
        names, objs = api.generate(os.path.join(out, "api_gen.c"))
        rc, err = sh(["gcc", "-O1", "-g", "-w"] + flags + ["-I" + DIR] + INC + [WRAP, "-o", exe,
                     os.path.join(out, "api_gen.c"), os.path.join(DIR, "api.c"), lib, "-lgmp", "-lm"], 300)
        err = None if rc == 0 else err
    if err:
        log("API contracts not run: %s" % err.strip()[:300])
        cov["error"] = err.strip()[:300]
        return [], cov
    nfn = len(names)
    quick = tier != "thorough"
    seeds, runs, budget = ((1,), 8, 200) if prop == "C01" else ((1, 2), 12, 300)
    if not quick:
        seeds, runs = (1, 2, 3, 4, 5, 6), 16
    env = dict(os.environ, API_EXCLUDE=os.path.join(DIR, "exclude.txt"), API_BUDGET=str(budget),
               ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1" % (prop == "C01"))
    limit = t0 + (240 if quick else 700)
    step = 10

    def one(a):
        i, s = a
        if time.time() > limit:
            return None
        rc, o = sh([exe, str(i), str(i + step), str(s), str(runs), MODES[prop]], max(5, limit - time.time()), env=env)
        return rc, o
    work = [(i, s) for s in seeds for i in range(0, nfn, step)]
    lines, done = [], 0
    with ThreadPoolExecutor(8) as pool:
        for a, r in zip(work, pool.map(one, work)):
            if r is None or r[0] == -99:
                continue
            done += 1
            for l in r[1].splitlines():
                m = re.match(r"F (C0\d) (\S+) run (\d+) (.*?): (.*)$", l)
                if m and m.group(1) == prop:
                    lines.append(m.groups() + (a[1],))
    viol = {}
    for p, fn, rn, what, msg, s in lines:
        mode = re.sub(r" (\d+|shared)\b", "", what)
        vid = "api/%s/%s: %s" % (fn, mode, re.sub(r": -?\d+$", "", msg))
        if vid in viol:
            continue
        viol[vid] = dict(id=vid, input=[fn, s, int(rn), what],
                         text="%s: contract of its declaration violated (%s): %s\n"
                              "input: arguments generated by contracts/api/api.c from seed %d, run %s%s" % (
                                  fn, what, msg, s, rn, ""))
    ex = sum(1 for l in open(os.path.join(DIR, "exclude.txt")) if l.strip() and not l.startswith("#"))
    cov.update(functions_called=nfn - ex, functions_excluded=ex, argument_types=len(objs), seeds=list(seeds),
               runs_per_function=runs, modes=MODES[prop], largest_number_of_allocations=budget,
               blocks_finished="%d of %d" % (done, len(work)), sanitizer=" ".join(flags), wall_s=round(time.time() - t0, 1))
    cov.pop("calls")
    return list(viol.values()), cov
