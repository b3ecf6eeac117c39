"""Runs the real code: builds /repo's library sources with gcc and calls the
functions through ctypes.  Used to replay a verifier counterexample and for the
bounded stand-ins; never counted as a proof."""
import os
import sys
import ctypes as C
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ISL_REPO", "/repo")
CFG = os.path.join(VERIF, "frontend", "config")


class BuildError(Exception):
    pass


def build(out, sources, opt="-O0", statics=()):
    """-> path of a shared library with all of /repo's library code and the shim"""
    od = os.path.join(out, "real")
    os.makedirs(od, exist_ok=True)
    inc = ["-I" + CFG, "-I" + os.path.join(REPO, "include"), "-I" + REPO]

    def one(s):
        o = os.path.join(od, os.path.basename(s)[:-2] + ".o")
        p = subprocess.run(["gcc", opt, "-w", "-fPIC", "-c", "-o", o, s] + inc,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise BuildError("%s: %s" % (s, p.stderr.decode()[:400]))
        gl = [n for src, n in statics if os.path.join(REPO, src) == s]
        if gl:
            subprocess.run(["objcopy"] + ["--globalize-symbol=" + n for n in gl] + [o], check=True)
        return o
    srcs = [os.path.join(REPO, s) for s in sources] + [os.path.join(HERE, "shim.c")]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    lib = os.path.join(od, "libreal.so")
    p = subprocess.run(["gcc", "-shared", "-o", lib] + objs + ["-lgmp"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError(p.stderr.decode()[:400])
    return lib
