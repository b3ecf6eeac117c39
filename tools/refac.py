"""Apply random behaviour-preserving edits to a clone of the library and see that
the ownership checks C01..C04 stay quiet.  refac.py SEED PROB [kinds] (development tool)"""
import sys, os, re, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
sys.path[:0] = ["/verif/irv", "/verif/frontend"]
R = "/tmp/rf/repo"
os.environ["ISL_REPO"] = R
shutil.rmtree(R, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
import lower
seed, prob = int(sys.argv[1]), float(sys.argv[2])
kinds = set(sys.argv[3].split(",")) if len(sys.argv) > 3 else None
unesc = lambda s: s.replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\0", "\\")
INC = ["-I" + R, "-I" + R + "/include", "-I/repo/_build", "-I/repo/_build/include"]

def compile_ok(f):
    p = subprocess.run(["gcc", "-fsyntax-only", "-Wno-all", "-Werror=implicit-function-declaration", "-Werror=int-conversion"] + INC + [f], capture_output=True, text=True)
    return p.returncode == 0, p.stderr

def apply(txt, es):
    ops = []
    for k, fn, off, a, b, rep, h in es:
        ops.append((a, b, rep))
        if h:
            ops.append((off, off, h))
    for a, b, t in sorted(ops, reverse=True):
        txt = txt[:a] + t + txt[b:]
    return txt

def one(s):
    rng = random.Random("%d %s" % (seed, s))
    p = os.path.join(R, s)
    out = subprocess.run(["/tmp/refac", p] + INC + ["-I/usr/lib/llvm-18/lib/clang/18/include"], capture_output=True, text=True, errors="replace").stdout
    byfn = {}
    for line in out.split("\n"):
        c = line.split("\t")
        if len(c) != 7 or (kinds and c[0] not in kinds):
            continue
        byfn.setdefault(c[1], []).append((c[0], c[1], int(c[2]), int(c[3]), int(c[4]), unesc(c[5]), unesc(c[6])))
    sel = []
    for fn in sorted(byfn):
        if rng.random() >= prob:
            continue
        ks = {}
        for e in byfn[fn]:
            ks.setdefault(e[0], []).append(e)
        k = rng.choice(sorted(ks))
        sel.append(rng.choice(ks[k]))
    txt = open(p, encoding="latin1").read()
    if len(txt) != os.path.getsize(p):
        return []
    def attempt(es):
        open(p, "w", encoding="latin1").write(apply(txt, es))
        return compile_ok(p)[0]
    good = []
    def rec(es):
        if not es:
            return
        if attempt(good + es):
            good.extend(es)
            return
        if len(es) == 1:
            return
        m = len(es) // 2
        rec(es[:m]); rec(es[m:])
    rec(sel)
    open(p, "w", encoding="latin1").write(apply(txt, good))
    return [(e[0], s, e[1]) for e in good]

def templates():
    """edits without helper of the template files"""
    import glob
    users = {}
    for s in lower.sources():
        for m in re.finditer(r'#include [<"](\w+_templ\w*\.c|isl_union_\w+\.c|isl_pw_\w+\.c|isl_multi_\w+\.c)[>"]', open(os.path.join(R, s), encoding="latin1").read()):
            users.setdefault(m.group(1), []).append(s)
    done = []
    rng = random.Random(seed)
    for t in sorted(users):
        p = os.path.join(R, t)
        if not os.path.exists(p):
            continue
        cand = {}
        us = users[t]
        for s in us[:3]:
            env = dict(os.environ, REFAC_TARGET=p)
            o = subprocess.run(["/tmp/refac", os.path.join(R, s)] + INC + ["-I/usr/lib/llvm-18/lib/clang/18/include"], capture_output=True, text=True, errors="replace", env=env).stdout
            for line in o.split("\n"):
                c = line.split("\t")
                if len(c) == 7 and not c[6] and not (kinds and c[0] not in kinds):
                    cand.setdefault(c[2], []).append((c[0], c[1], int(c[2]), int(c[3]), int(c[4]), unesc(c[5]), ""))
        txt = open(p, encoding="latin1").read()
        good = []
        for off in sorted(cand):
            if rng.random() >= prob:
                continue
            e = rng.choice(cand[off])
            open(p, "w", encoding="latin1").write(apply(txt, good + [e]))
            if all(compile_ok(os.path.join(R, s))[0] for s in us[:2]):
                good.append(e)
        open(p, "w", encoding="latin1").write(apply(txt, good))
        while good and not all(compile_ok(os.path.join(R, s))[0] for s in us):
            good.pop(); open(p, "w", encoding="latin1").write(apply(txt, good))
        done += [("T" + e[0], t, e[1]) for e in good]
    return done

done = templates() if os.environ.get("TEMPL") else []
if not done:
  with ThreadPoolExecutor(8) as ex:
    done = sum(ex.map(one, lower.sources()), [])
from collections import Counter
print(len(done), Counter(d[0] for d in done))
sys.stdout.flush()
kind = {d[2]: d[0] for d in done}
if os.environ.get("NOCHECK"):
    sys.exit()
import check_own
out = "/tmp/rf/out"
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
t0 = time.time()
import drive, own
w = check_own.world(out); cfg = check_own.config(); tb = check_own.load_table(); cfg.known = set(tb); cfg.excluded = {k: set(d["x"]) for k, d in tb.items() if d.get("x")}
init = {k: own.Summary.from_json(d["c"]) for k, d in tb.items()}
res, summ = drive.solve(w, cfg, init=init, log=lambda *x: None)
for k in res:
    if k in tb and summ[k].key() != init[k].key():
        n = k[1] if isinstance(k, tuple) else k
        a, b = init[k].to_json(), summ[k].to_json()
        print("contract", kind.get(n, "-"), k, {x: (a.get(x), b.get(x)) for x in set(a) | set(b) if a.get(x) != b.get(x)})
for pr in ("C01", "C02", "C03", "C04"):
    v, st, ex, lim = check_own.judge(pr, tb, res)
    for k, a, l in v:
        n = k[1] if isinstance(k, tuple) else k
        print(pr, kind.get(n, "-"), check_own.describe(w, k, a, l)[:200])
newlim = [k for k, r in res.items() if r[3] and k in tb and not tb[k].get("g")]
print("newly out of reach:", len(newlim), [str(x) for x in newlim][:20], "%.0fs" % (time.time() - t0))
