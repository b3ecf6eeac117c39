"""Mechanical extraction of the verified text from /repo's working tree.

Every run: each library translation unit of /repo (list read from Makefile.am)
is lowered by clang-18 -O0 and opt -passes=mem2reg to LLVM IR, and its
prototypes / struct fields (with isl's __isl_take/keep/give/null annotations)
are dumped through libclang.  Nothing is rewritten; the only substitution is
the header gmp.h (declarations instead of inline implementation).
"""
import os
import re
import sys
import json
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ISL_REPO", "/repo")
CLANG = "clang-18"
OPT = "opt-18"


class LowerError(Exception):
    pass


def sources():
    txt = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"^libisl_la_SOURCES = (.*?)^libisl_la_LIBADD", txt, re.M | re.S)
    names = re.findall(r"([\w./]+\.c)\b", m.group(1))
    names += ["isl_gmp.c", "isl_val_gmp.c"]
    out = []
    for n in names:
        if n in out or "mp_get_memory_functions" in n:
            continue
        if os.path.exists(os.path.join(REPO, n)):
            out.append(n)
    return out


def incflags(real_gmp=False):
    r = []
    if not real_gmp:
        r += ["-I" + os.path.join(HERE, "stub")]
    r += ["-I" + os.path.join(HERE, "config"), "-I" + os.path.join(REPO, "include"), "-I" + REPO]
    return r


def build_decldump(out):
    exe = os.path.join(out, "decldump")
    subprocess.run(["gcc", "-O1", "-o", exe, os.path.join(HERE, "decldump.c"),
                    "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib", "-lclang-18"],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return exe


def mark_inline(ir, helpers):
    """let opt inline the given static functions"""
    def sub(m):
        return m.group(1) + " alwaysinline" + m.group(3) + " {" if m.group(2) in helpers else m.group(0)
    return re.sub(r"^(define internal [^@\n]*@([\w.$]+)\([^\n]*\))(?: #\d+)?((?: ![\w.]+ !\d+)*) \{", sub, ir, flags=re.M)


def lower_one(src, out, exe, helpers=None):
    base = src.replace("/", "_")[:-2]
    ll = os.path.join(out, base + ".ll")
    path = os.path.join(REPO, src)
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only",
           "-fno-discard-value-names", "-w"] + incflags() + ["-S", "-emit-llvm", "-o", "-", path]
    p1 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p1.returncode:
        raise LowerError("%s does not compile: %s" % (src, p1.stderr.decode()[:500]))
    ir, passes = p1.stdout, "mem2reg"
    if helpers:
        ir = mark_inline(ir.decode("latin1"), helpers).encode("latin1")
        passes = "always-inline,function(sroa,instcombine<no-verify-fixpoint>,jump-threading,instcombine<no-verify-fixpoint>)"
    p2 = subprocess.run([OPT, "-S", "-passes=" + passes, "-", "-o", ll], input=ir,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p2.returncode:
        raise LowerError("opt %s: %s" % (src, p2.stderr.decode()[:500]))
    dj = os.path.join(out, base + ".decl")
    an = []
    for k in ("take", "keep", "give", "null"):
        an.append('-D__isl_%s=__attribute__((annotate("%s")))' % (k, k))
    with open(dj, "w") as f:
        p3 = subprocess.run([exe, path, "-I/usr/lib/llvm-18/lib/clang/18/include"] + an + incflags(),
                            stdout=f, stderr=subprocess.PIPE)
    if p3.returncode:
        raise LowerError("decldump %s: %s" % (src, p3.stderr.decode()[:300]))
    return src, ll, dj


def lower_all(files=None, out=None, helpers=None):
    """-> (outdir, [(src, ll, decl)]); helpers: src -> static functions to be inlined"""
    if out is None:
        out = tempfile.mkdtemp(prefix="islverif.")
    os.makedirs(out, exist_ok=True)
    exe = build_decldump(out)
    files = files or sources()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: lower_one(s, out, exe, (helpers or {}).get(s)), files))
    return out, res


class Decls:
    """merged prototypes of all translation units"""

    def __init__(self, res):
        self.funcs = {}      # name -> decl (externally visible)
        self.static = {}     # (src, name) -> decl
        self.structs = {}
        self.enums = {}
        self.public = set()
        self.typedefs = {}
        for src, ll, dj in res:
            seen = {}
            for line in open(dj):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                k = d["k"]
                if k == "f":
                    n = d["n"]
                    f = os.path.realpath(d["file"]) if d["file"] else ""
                    inc = os.path.join(REPO, "include") + "/"
                    if f.startswith(inc):
                        self.public.add(n)
                    seen.setdefault(n, []).append(d)
                elif k == "s":
                    if d["n"] and " " not in d["n"]:
                        self.structs.setdefault(d["n"], d)
                        self.structs[(src, d["n"])] = d
                elif k == "t":
                    self.typedefs.setdefault(d["n"], d["t"])
                elif k == "e":
                    self.enums[d["n"]] = d["v"]
            for n, ds in seen.items():
                m = self._merge(ds)
                if any(d["static"] for d in ds):
                    self.static[(src, n)] = m
                elif n in self.funcs:
                    self.funcs[n] = self._merge([self.funcs[n], m])
                else:
                    self.funcs[n] = m

    @staticmethod
    def _merge(ds):
        if len(ds) == 1:
            return ds[0]
        r = dict(ds[0])
        r["p"] = [dict(p) for p in r["p"]]
        r["a"] = list(r["a"])
        for d in ds[1:]:
            for a in d["a"]:
                if a not in r["a"]:
                    r["a"].append(a)
            if len(d["p"]) == len(r["p"]):
                for p, q in zip(r["p"], d["p"]):
                    if q["n"] and not p["n"]:
                        p["n"] = q["n"]
                    p["a"] = list(p["a"]) + [a for a in q["a"] if a not in p["a"]]
                    if "cb" in q and "cb" in p:
                        p["cb"] = [dict(x, a=sorted(set(x["a"]) | set(y["a"])))
                                   for x, y in zip(p["cb"], q["cb"])]
            if d.get("def"):
                r["def"] = 1
                r["file"] = d["file"]
                r["line"] = d["line"]
        return r

    def get(self, src, name):
        return self.static.get((src, name)) or self.funcs.get(name)


if __name__ == "__main__":
    import time
    t = time.time()
    out, res = lower_all(sys.argv[1:] or None, out=os.environ.get("OUT"))
    print(out, len(res), time.time() - t)
    d = Decls(res)
    print(len(d.funcs), len(d.static), len(d.public), time.time() - t)
