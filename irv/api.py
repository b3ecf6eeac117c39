"""The ownership and error annotations of the public functions as run-time checked contracts.

Every function declared in /repo/include/isl is called through a generated stub on
generated arguments.  Its contract is the one its declaration states
(__isl_take, __isl_keep, __isl_give and the error values of its result type):
  C01  all references that are taken are released, none that is kept; no invalid access
  C02  with a null argument: no crash, error result
  C03  other references to an argument, and arguments that are kept, are unchanged
  C04  a failed allocation, an exceeded limit or an error of a callback gives an error result
This module parses the declarations and writes the table of functions.
"""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")

INTS = {"unsigned", "int", "long", "unsigned long", "size_t", "unsigned int", "uint32_t", "isl_size"}
SKIP = re.compile(r"^isl_(ctx_|options_|args_|arg_|hash_table|stream_|token_|handle_error|\w*_or_die$|blk|seq_|obj_|"
                  r"stride_info_alloc|version|val_int_from_chunks|val_get_abs_num_chunks|\w+_to_list$|\w+_try_get$)|^isl_\w+_dump$|^isl_bool_ok$")
SCALAR_PTR = {"isl_bool *": "bool"}


def declarations():
    inc = os.path.join(REPO, "include", "isl")
    hs = sorted(h for h in os.listdir(inc) if h.endswith(".h") and h not in ("all.h", "val_gmp.h", "stdint.h", "maybe.h", "maybe_templ.h", "hmap.h") and "cpp" not in h)
    txt = "".join("#include <isl/%s>\n" % h for h in hs)
    src = subprocess.run(["gcc", "-E", "-P", "-x", "c", "-", "-D__isl_give=ISLGIVE", "-D__isl_take=ISLTAKE", "-D__isl_keep=ISLKEEP",
                          "-D__isl_null=ISLNULL", "-I" + os.path.join(VERIF, "frontend", "config"), "-I" + os.path.join(REPO, "include"), "-I" + REPO],
                         input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    while re.search(r"\{[^{}]*\}", src):
        src = re.sub(r"\{[^{}]*\}", " ; ", src)
    D = {}
    for st in src.split(";"):
        st = " ".join(st.split())
        m = re.match(r"^(?:extern )?((?:ISL\w+ )?(?:const |enum |struct )*[\w ]+?[ *]+)(isl_\w+) ?\((.*)\)(?: __attribute.*)?$", st)
        if not m or "typedef" in st or "static" in st or "=" in st:
            continue
        ret, name, a = m.group(1).strip(), m.group(2), m.group(3)
        L, d, cur = [], 0, ""
        for c in a:
            d += (c == "(") - (c == ")")
            if c == "," and d == 0:
                L.append(cur.strip())
                cur = ""
            else:
                cur += c
        L.append(cur.strip())
        D[name] = (ret, [] if L in ([""], ["void"]) else L)
    return hs, D


def argtype(x):
    """(mode, type): mode take, keep or None"""
    m = re.match(r"^(ISL\w+) (.*)$", x)
    mode = None
    if m:
        mode, x = m.group(1)[3:].lower(), m.group(2)
    x = x.replace("struct ", "") if "(" not in x else x
    if "(" not in x:
        if not x.endswith("*") and re.search(r"[ *]\w+$", x) and x not in INTS and not re.match(r"^enum \w+$", x):
            x = re.sub(r"(\w+)$", "", x).strip()
        if x.endswith("]"):
            return None, "?"
    return mode, x.strip()


def generate(path):
    hs, D = declarations()
    objects = sorted(t for t in (n[:-5] for n in D if n.endswith("_free")) if t + "_free" in D and D[t + "_free"][1] and
                     D[t + "_free"][1][0].startswith("ISLTAKE") and not SKIP.match(t + "_free"))
    tid = {t: i for i, t in enumerate(objects)}
    out = ["/* generated by irv/api.py from the headers in /repo/include/isl */"]
    out += ["#include <isl/%s>" % h for h in hs]
    out.append('#include "api.h"')
    cbs = {}
    fns = []
    cb_src = []

    def callback(x):
        m = re.match(r"^(.*?)\(\*(\w*)\)\((.*)\)$", x)
        if not m:
            return None
        ret, args = m.group(1).strip(), [a.strip() for a in m.group(3).split(",")]
        key = (ret, tuple(args))
        if key in cbs:
            return cbs[key]
        n = "cb_%d" % len(cbs)
        ps, body, first = [], [], None
        for i, a in enumerate(args):
            mode, t = argtype(a)
            mm = re.match(r"^(.*\*)$", t)
            base = t[:-1].strip() if mm else None
            ps.append("%s a%d" % (t, i))
            if mode == "take":
                if base not in tid:
                    return None
                if first is None and ret.startswith("ISLGIVE") and t == ret[8:].strip():
                    first = i
                else:
                    body.append("%s_free(a%d);" % (base, i))
        r = ret.replace("ISLGIVE ", "")
        if ret.startswith("ISLGIVE"):
            if first is None:
                return None
            t = r.replace("*", "").strip()
            b = " ".join(body) + " if (cb_fails()) { %s_free(a%d); return NULL; } return a%d;" % (t, first, first)
        elif r in ("isl_stat", "isl_bool"):
            b = " ".join(body) + " if (cb_fails()) return -1; return %s;" % ("0" if r == "isl_stat" else "cb_bool()")
        elif r == "int":
            b = " ".join(body) + " return cb_int(a0 == a1);" if len(args) == 3 else " ".join(body) + " return 0;"
        else:
            return None
        cb_src.append("static %s %s(%s) { %s }" % (r, n, ", ".join(ps), b))
        cbs[key] = n
        return n

    for name, (ret, args) in sorted(D.items()):
        if SKIP.match(name) or name.endswith(("_free", "_copy")):
            continue
        mode_r, rt = argtype(ret + " ") if False else (None, ret)
        m = re.match(r"^(ISL\w+) (.*)$", ret)
        give = bool(m) and m.group(1) in ("ISLGIVE", "ISLNULL")
        rt = (m.group(2) if m else ret).replace("struct ", "").strip()
        rk, rty = "R_OTHER", -1
        if rt == "isl_bool":
            rk = "R_BOOL"
        elif rt == "isl_stat":
            rk = "R_STAT"
        elif rt == "isl_size":
            rk = "R_SIZE"
        elif rt == "void":
            rk = "R_VOID"
        elif rt.endswith("*") and rt[:-1].strip() in tid and give:
            rk, rty = "R_OBJ", tid[rt[:-1].strip()]
        elif rt == "char *" and give:
            rk = "R_STR"
        elif rt in ("const char *",):
            rk = "R_CSTR"
        elif rt.endswith("*"):
            rk = "R_OTHERP"
        ok, A, call, cbused = True, [], [], False
        for x in args:
            mode, t = argtype(x)
            i = len(A)
            if "(" in t:
                c = callback(t)
                if not c:
                    ok = False
                    break
                call.append(c)
                cbused = True
                continue
            if t == "void *":
                call.append("NULL")
                continue
            if t.endswith("**"):
                b = t[:-2].strip()
                if b not in tid:
                    ok = False
                    break
                call.append("(void *) &a[%d].p" % i)
                A.append(("K_OUT", tid[b], 0))
            elif t in SCALAR_PTR or t in ("int *", "unsigned *"):
                call.append("(void *) &a[%d].i" % i)
                A.append(("K_OUTINT", -1, 0))
            elif t in ("const char *",):
                call.append("a[%d].p" % i)
                A.append(("K_STR", -1, 0))
            elif t == "isl_ctx *":
                call.append("a[%d].p" % i)
                A.append(("K_CTX", -1, 0))
            elif t == "FILE *":
                call.append("a[%d].p" % i)
                A.append(("K_FILE", -1, 0))
            elif t.endswith("*") and t[:-1].strip() in tid and mode in ("take", "keep"):
                call.append("a[%d].p" % i)
                A.append(("K_OBJ", tid[t[:-1].strip()], 1 if mode == "take" else 0))
            elif t.startswith("enum "):
                call.append("(%s) a[%d].i" % (t, i))
                A.append(("K_DIM" if t == "enum isl_dim_type" else "K_ENUM", -1, 0))
            elif t in INTS or t == "isl_bool":
                call.append("(%s) a[%d].i" % (t, i))
                A.append(("K_INT", -1, 0))
            elif t == "double":
                call.append("(double) a[%d].i" % i)
                A.append(("K_INT", -1, 0))
            else:
                ok = False
                break
        if not ok or not any(k == "K_OBJ" for k, _, _ in A) and rk != "R_OBJ":
            continue
        e = "%s(%s)" % (name, ", ".join(call))
        if rk == "R_VOID":
            b = "%s;" % e
        elif rk in ("R_OBJ", "R_STR", "R_CSTR", "R_OTHERP"):
            b = "r.p = (void *) %s;" % e
        else:
            b = "r.i = %s;" % e
        fns.append((name, b, rk, rty, A, cbused))
    out.append("\n".join(cb_src))
    for i, f in enumerate(fns):
        out.append("static V c_%d(V *a) { V r; r.i = 0; %s return r; }" % (i, f[1]))
    out.append("struct type types[] = {")
    for t in objects:
        n = t + "_"

        def has(s, pat=None):
            return n + s in D and len(D[n + s][1]) == (2 if "equal" in s else 1) and all(a.startswith("ISLKEEP") for a in D[n + s][1])
        eq = next((n + s for s in ("is_equal", "plain_is_equal") if has(s) and D[n + s][0] == "isl_bool"), "0")
        cp = n + "copy" if n + "copy" in D else "0"
        ts = n + "to_str" if has("to_str") else "0"
        rd = n + "read_from_str" if n + "read_from_str" in D else "0"
        m = re.match(r"^(.*)_list$", t)
        el, fe, ad, sz, ga = -1, "0", "0", "0", "0"
        if m and m.group(1) in tid and n + "from_" + m.group(1)[4:] in D:
            if n + "size" in D and n + "get_at" in D:
                sz, ga = n + "size", n + "get_at"
            el, fe, ad = tid[m.group(1)], n + "from_" + m.group(1)[4:], n + "add"
        out.append('\t{ "%s", (void *) %s, (void *) %s, (void *) %s, (void *) %s, (void *) %s, %d, (void *) %s, (void *) %s, (void *) %s, (void *) %s },' % (
            t, cp, t + "_free", eq, ts, rd, el, fe, ad, sz, ga))
    out.append("};\nint n_types = %d;" % len(objects))
    out.append("struct fn fns[] = {")
    for i, (name, b, rk, rty, A, cb) in enumerate(fns):
        out.append('\t{ "%s", c_%d, %s, %d, %d, %d, { %s } },' % (name, i, rk, rty, int(cb), len(A), ", ".join("{ %s, %d, %d }" % a for a in A) or "{ 0 }"))
    out.append("};\nint n_fns = %d;" % len(fns))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return [f[0] for f in fns], objects


if __name__ == "__main__":
    import sys
    f, o = generate(sys.argv[1])
    print(len(f), len(o))
    print(" ".join(o))
