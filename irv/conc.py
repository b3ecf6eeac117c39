"""Evaluates the same contracts on the real code (ctypes), to replay a
counterexample of the verifier or to look for one; bounded, never a proof."""
import os
import sys
import json
import mmap
import time
import random
import signal
import struct
import resource
import itertools
import ctypes as C
import contract as K
from contract import NS, SeqV, MatV, FA

BIG = 10 ** 20
PVAL = [(0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (3, 1), (-3, 1), (6, 1), (-4, 1), (1, 2), (-1, 2), (3, 2), (-3, 2), (5, 3),
        (-5, 6), (1, 6), (1, 0), (-1, 0), (0, 0), (BIG, 1), (-BIG, 1), (BIG + 1, 3), (1, BIG), (-7, 10 ** 19), (1 << 63, 1),
        (-(1 << 63), 1), ((1 << 63) - 1, 1), ((1 << 63) - 1, 2)]
PZ = [0, 1, -1, 2, -2, 3, -3, 4, 6, -6, 10, BIG, -BIG, BIG * 3, (1 << 62), -(1 << 63)]
PLONG = [0, 1, -1, 2, -2, 3, 7, -12, 1 << 31, -(1 << 31), (1 << 63) - 1, -(1 << 63)]
PULONG = [0, 1, 2, 3, 6, 10, 1 << 32, 1 << 63, (1 << 64) - 1]
PINT = [0, 1, -1, 2, 3, -5, 100, (1 << 31) - 1, -(1 << 31)]


class Lib:
    def __init__(self, path):
        self.L = C.CDLL(path)
        L = self.L
        vp, ci, cl = C.c_void_p, C.c_int, C.c_long
        for n, r, a in (("sh_ctx", vp, []), ("sh_arr", vp, [ci]), ("sh_set_si", None, [vp, ci, cl]),
                        ("sh_set_str", None, [vp, ci, C.c_char_p]), ("sh_fits", ci, [vp, ci]), ("sh_get_si", cl, [vp, ci]),
                        ("sh_get_str", C.c_char_p, [vp, ci]), ("sh_zsize", C.c_size_t, []), ("sh_val", vp, [vp]),
                        ("sh_val_n", vp, [vp]), ("sh_val_d", vp, [vp]), ("sh_val_share", None, [vp]), ("sh_val_ref", ci, [vp]),
                        ("sh_vec", vp, [vp, ci, ci]), ("sh_vec_el", vp, [vp]), ("sh_vec_size", ci, [vp]), ("sh_vec_cap", ci, [vp]),
                        ("sh_vec_share", None, [vp]), ("sh_vec_ref", ci, [vp]),
                        ("sh_mat", vp, [vp, ci, ci, ci]), ("sh_mat_row", vp, [vp, ci]), ("sh_mat_rows", ci, [vp]),
                        ("sh_mat_cols", ci, [vp]), ("sh_mat_share", None, [vp]), ("sh_mat_ref", ci, [vp]),
                        ("sh_list", vp, [vp, ci, ci]), ("sh_list_set", None, [vp, ci, vp]), ("sh_list_get", vp, [vp, ci]),
                        ("sh_list_n", ci, [vp]), ("sh_list_size", ci, [vp]), ("sh_list_share", None, [vp]), ("sh_list_ref", ci, [vp]),
                        ("sh_null_slot", vp, []), ("sh_slot_get", vp, [vp]), ("sh_arr_free", None, [vp, ci]),
                        ("isl_val_free", vp, [vp]), ("isl_vec_free", vp, [vp]), ("isl_mat_free", vp, [vp])):
            f = getattr(L, n, None)
            if f is None:
                continue
            f.restype, f.argtypes = r, a
        self.zs = L.sh_zsize()
        self.ctx = L.sh_ctx()
        self.keep = []

    def setz(self, a, i, v):
        if -(1 << 62) < v < (1 << 62):
            self.L.sh_set_si(a, i, v)
        else:
            self.L.sh_set_str(a, i, ("%x" % v).encode())

    def getz(self, a, i):
        if self.L.sh_fits(a, i):
            return self.L.sh_get_si(a, i)
        return int(self.L.sh_get_str(a, i).decode(), 16)


GUARD = 7 * 10 ** 18 + 7


# ------------------------------------------------------------ handlers per kind
class H:
    seq = False
    obj = False

    def pool(self, p, args):
        raise NotImplementedError

    def rnd(self, rng, p, args):
        return rng.choice(self.pool(p, args))

    def view(self, v):
        return v

    def after(self, lib, p, ptr, v):
        return v

    def share(self, lib, ptr):
        pass

    def free(self, lib, p, ptr, v):
        pass


class HCtx(H):
    ct = C.c_void_p

    def pool(self, p, a):
        return [None]

    def make(self, lib, p, v):
        return lib.ctx


class HLong(H):
    ct = C.c_long
    P = PLONG

    def pool(self, p, a):
        return p.kw.get("pool") or self.P

    def make(self, lib, p, v):
        return v


class HULong(HLong):
    ct = C.c_ulong
    P = PULONG


class HInt(HLong):
    ct = C.c_int
    P = PINT


class HUInt(HLong):
    ct = C.c_uint
    P = [0, 1, 2, 3, 4, 5]


class HZ(H):
    ct = C.c_void_p

    def pool(self, p, a):
        return PZ

    def make(self, lib, p, v):
        a = lib.L.sh_arr(1)
        lib.setz(a, 0, v)
        return a

    def after(self, lib, p, ptr, v):
        return lib.getz(ptr, 0)

    def free(self, lib, p, ptr, v):
        lib.L.sh_arr_free(ptr, 1)


class HVal(H):
    ct = C.c_void_p
    obj = True

    def pool(self, p, a):
        if p.kw.get("small"):
            return [v for v in PVAL if abs(v[0]) < 300] + [(64, 1), (-65, 1), (63, 1), (1 << 64, 1)]
        if p.kw.get("int"):
            return [v for v in PVAL if v[1] == 1]
        if p.kw.get("raw"):
            return PVAL + [(4, 2), (-6, 4), (3, -6), (-4, -2), (0, 5), (0, -3), (BIG, 10), (7, -1)]
        return PVAL

    def make(self, lib, p, v):
        o = lib.L.sh_val(lib.ctx)
        lib.setz(lib.L.sh_val_n(o), 0, v[0])
        lib.setz(lib.L.sh_val_d(o), 0, v[1])
        return o

    def view(self, v):
        return NS(n=v[0], d=v[1])

    def after(self, lib, p, ptr, v):
        return NS(n=lib.getz(lib.L.sh_val_n(ptr), 0), d=lib.getz(lib.L.sh_val_d(ptr), 0))

    def same(self, a, b):
        return a.n == b.n and a.d == b.d

    def share(self, lib, ptr):
        lib.L.sh_val_share(ptr)

    def free(self, lib, p, ptr, v):
        lib.L.isl_val_free(ptr)


class HValOut(H):
    ct = C.c_void_p

    def pool(self, p, a):
        return [None]

    def make(self, lib, p, v):
        return lib.L.sh_null_slot()

    def after(self, lib, p, ptr, v):
        return rval(lib, lib.L.sh_slot_get(ptr))


class HMatOut(HValOut):
    def after(self, lib, p, ptr, v):
        return rmat(lib, lib.L.sh_slot_get(ptr))


def rndz(rng, style):
    if style == 0:
        return rng.choice((-2, -1, 0, 0, 1, 2))
    if style == 1:
        return 6 * rng.randint(-4, 4)
    if style == 2:
        return rng.choice(PZ)
    if style == 3:
        return rng.choice((0, 0, 0, rng.randint(-3, 3)))
    if style == 4:
        return rng.randint(-40, 40)
    if style == 5:
        return BIG * 6 * rng.randint(-3, 3)
    if style == 6:
        return rng.choice((0, -1, -3, 5))
    return rng.choice((0, 0, 2, 4, -6))


class View(SeqV):
    def __init__(self, l, n=None):
        self.l = l
        self.n = len(l) if n is None else n

    def __getitem__(self, i):
        return self.l[i] if 0 <= i < len(self.l) else 0


class HSeq(H):
    ct = C.c_void_p
    seq = True

    def rnd(self, rng, p, args):
        n = p.len(args)
        st = rng.randrange(8)
        return [rndz(rng, st) for _ in range(max(0, n))]

    def make(self, lib, p, v):
        n = len(v)
        a = lib.L.sh_arr(n + 2)
        lib.setz(a, 0, GUARD)
        lib.setz(a, n + 1, -GUARD)
        for i, x in enumerate(v):
            lib.setz(a, i + 1, x)
        return a + lib.zs

    def view(self, v):
        return View(v)

    def after(self, lib, p, ptr, v):
        a = ptr - lib.zs
        if lib.getz(a, 0) != GUARD or lib.getz(a, len(v) + 1) != -GUARD:
            raise Guard("element outside of %s changed" % p.name)
        return View([lib.getz(a, i + 1) for i in range(len(v))])

    def free(self, lib, p, ptr, v):
        lib.L.sh_arr_free(ptr - lib.zs, len(v) + 2)


class HIntSeq(H):
    ct = C.c_void_p
    seq = True

    def rnd(self, rng, p, args):
        return [rng.randint(-3, 5) for _ in range(max(0, p.len(args)))]

    def make(self, lib, p, v):
        a = (C.c_int * (len(v) + 1))(*v)
        lib.keep.append(a)
        del lib.keep[:-50]
        return C.cast(a, C.c_void_p).value

    def view(self, v):
        return View(v)

    def after(self, lib, p, ptr, v):
        return View(list((C.c_int * len(v)).from_address(ptr)))


class Guard(Exception):
    pass


class HVec(H):
    ct = C.c_void_p
    obj = True
    seq = True

    def rnd(self, rng, p, args):
        if p.kw.get("size"):
            n = max(0, p.kw["size"](args))
        else:
            n = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))
        st = rng.randrange(8)
        return [rng.choice((0, 0, 1, 3))] + [rndz(rng, st) for _ in range(n)]

    def make(self, lib, p, v):
        n = len(v) - 1
        o = lib.L.sh_vec(lib.ctx, n, n + v[0])
        el = lib.L.sh_vec_el(o)
        for i, x in enumerate(v[1:]):
            lib.setz(el, i, x)
        for i in range(n, n + v[0]):
            lib.setz(el, i, GUARD)
        return o

    def view(self, v):
        return View(v[1:])

    def after(self, lib, p, ptr, v):
        return rvec(lib, ptr)

    def same(self, a, b):
        return a.n == b.n and a.l == b.l

    def share(self, lib, ptr):
        lib.L.sh_vec_share(ptr)

    def free(self, lib, p, ptr, v):
        lib.L.isl_vec_free(ptr)


class MView(MatV):
    def __init__(self, rows, cols, l):
        self.rows, self.cols, self.l = rows, cols, l

    def __getitem__(self, ij):
        i, j = ij
        if 0 <= i < self.rows and 0 <= j < self.cols:
            return self.l[i][j]
        return 0


class HMat(H):
    ct = C.c_void_p
    obj = True
    seq = True

    def rnd(self, rng, p, args):
        r = p.kw["rows"](args) if p.kw.get("rows") else rng.choice((0, 1, 1, 2, 2, 3, 3, 4))
        c = p.kw["cols"](args) if p.kw.get("cols") else rng.choice((0, 1, 1, 2, 2, 3, 3, 4))
        r, c = max(0, r), max(0, c)
        st = rng.randrange(8)
        return [c + rng.choice((0, 0, 1, 2)), r, c, [[rndz(rng, st) for _ in range(c)] for _ in range(r)]]

    def make(self, lib, p, v):
        mc, r, c, l = v
        o = lib.L.sh_mat(lib.ctx, r, c, mc)
        for i in range(r):
            row = lib.L.sh_mat_row(o, i)
            for j in range(c):
                lib.setz(row, j, l[i][j])
            for j in range(c, mc):
                lib.setz(row, j, GUARD)
        return o

    def view(self, v):
        return MView(v[1], v[2], v[3])

    def after(self, lib, p, ptr, v):
        return rmat(lib, ptr)

    def same(self, a, b):
        return a.rows == b.rows and a.cols == b.cols and a.l == b.l

    def share(self, lib, ptr):
        lib.L.sh_mat_share(ptr)

    def free(self, lib, p, ptr, v):
        lib.L.isl_mat_free(ptr)


CONS = dict(val="isl_val_read_from_str", id=None, aff="isl_aff_read_from_str", pw_aff="isl_pw_aff_read_from_str",
            pw_multi_aff="isl_pw_multi_aff_read_from_str", union_pw_aff="isl_union_pw_aff_read_from_str",
            union_pw_multi_aff="isl_union_pw_multi_aff_read_from_str", basic_set="isl_basic_set_read_from_str",
            set="isl_set_read_from_str", union_set="isl_union_set_read_from_str", basic_map="isl_basic_map_read_from_str",
            map="isl_map_read_from_str", union_map="isl_union_map_read_from_str", pw_qpolynomial="isl_pw_qpolynomial_read_from_str",
            ast_expr=None)


def element_text(el, i):
    if el == "val":
        return str(i)
    if el in ("set", "basic_set", "union_set"):
        return "{ A[%d] }" % i
    if el in ("map", "basic_map", "union_map"):
        return "{ A[i] -> B[i + %d] }" % i
    if el in ("pw_multi_aff", "union_pw_multi_aff"):
        return "{ A[i] -> [(i + %d)] }" % i
    if el in ("pw_qpolynomial",):
        return "{ A[i] -> %d * i }" % (i + 1)
    return "{ A[i] -> [(%d + i)] }" % i


class Elements:
    """five objects of an element type"""

    def __init__(self, lib, el):
        L = lib.L
        self.cp, self.fr = getattr(L, "isl_%s_copy" % el), getattr(L, "isl_%s_free" % el)
        self.cp.restype, self.cp.argtypes = C.c_void_p, [C.c_void_p]
        self.fr.restype, self.fr.argtypes = C.c_void_p, [C.c_void_p]
        self.p = [None]
        for i in range(1, 6):
            if el == "id":
                f = L.isl_id_alloc
                f.restype, f.argtypes = C.c_void_p, [C.c_void_p, C.c_char_p, C.c_void_p]
                x = f(lib.ctx, b"x%d" % i, None)
            elif el == "ast_expr":
                f, g = L.isl_val_int_from_si, L.isl_ast_expr_from_val
                f.restype, f.argtypes = C.c_void_p, [C.c_void_p, C.c_long]
                g.restype, g.argtypes = C.c_void_p, [C.c_void_p]
                x = g(f(lib.ctx, i))
            else:
                f = getattr(L, CONS[el])
                f.restype, f.argtypes = C.c_void_p, [C.c_void_p, C.c_char_p]
                x = f(lib.ctx, element_text(el, i).encode())
            if not x:
                raise ValueError("no element of type " + el)
            self.p.append(x)
        self.idx = {x: i for i, x in enumerate(self.p)}

    def ref(self, i):
        return self.cp(self.p[i])


def elements(lib, el):
    d = lib.__dict__.setdefault("els", {})
    if el not in d:
        d[el] = Elements(lib, el)
    return d[el]


class HEl(H):
    ct = C.c_void_p
    obj = True

    def pool(self, p, a):
        return [1, 2, 3, 4, 5]

    def make(self, lib, p, v):
        return elements(lib, p.el).ref(v)

    def free(self, lib, p, ptr, v):
        elements(lib, p.el).fr(ptr)


class HList(H):
    ct = C.c_void_p
    obj = True
    seq = True

    def rnd(self, rng, p, args):
        n = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))
        return [rng.choice((0, 0, 1, 2, 4))] + [rng.randint(1, 5) for _ in range(n)]

    def make(self, lib, p, v):
        E = elements(lib, p.el)
        n = len(v) - 1
        o = lib.L.sh_list(lib.ctx, n, n + v[0])
        for i, x in enumerate(v[1:]):
            lib.L.sh_list_set(o, i, E.ref(x))
        return o

    def view(self, v):
        return View(v[1:])

    def after(self, lib, p, ptr, v):
        return rlist(lib, ptr, p.el)

    def same(self, a, b):
        return a.n == b.n and a.l == b.l

    def share(self, lib, ptr):
        lib.L.sh_list_share(ptr)

    def free(self, lib, p, ptr, v):
        f = getattr(lib.L, "isl_%s_list_free" % p.el)
        f.restype, f.argtypes = C.c_void_p, [C.c_void_p]
        f(ptr)


class HUser(H):
    ct = C.c_void_p

    def pool(self, p, a):
        return [None]

    def make(self, lib, p, v):
        return 0


class HCallBack(H):
    ct = C.c_void_p
    seq = True

    def rnd(self, rng, p, args):
        if p.res == "el":
            return [rng.randint(1, 5) for _ in range(8)]
        if p.res == "cmp":
            return [rng.choice((0, 1, 1, 2, 3)) for _ in range(5)]       # rank of each element
        if p.res == "follows":
            d = rng.choice((0.1, 0.25, 0.4))
            return [[int(rng.random() < d) for _ in range(6)] for _ in range(6)]
        if p.res in ("stat", "scc"):
            return [rng.choice((0, 0, 0, 0, 0, -1)) for _ in range(8)]
        return [rng.choice((1, 1, 1, 1, 1, 0, -1)) for _ in range(8)]

    def make(self, lib, p, v):
        E = elements(lib, p.el)
        log = []

        def f(x, user):
            log.append(E.idx.get(x, -1))
            r = v[len(log) - 1] if len(log) <= len(v) else (1 if p.res == "el" else -1)
            if p.res != "bool":
                E.fr(x)
            return E.ref(r) if p.res == "el" else r
        if p.res == "cmp":
            def g(x, y, user):
                x, y = E.idx.get(x), E.idx.get(y)
                if x is None or y is None:
                    log.append(-1)
                    return 0
                return v[x - 1] - v[y - 1]
            cb = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p)(g)
            lib.__dict__.setdefault('cb', {})[p.name] = (cb, log)
            return C.cast(cb, C.c_void_p).value
        if p.res == "follows":
            def h(x, y, user):
                x, y = E.idx.get(x), E.idx.get(y)
                if x is None or y is None:
                    return -1
                return v[x][y]
            cb = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p)(h)
            lib.__dict__.setdefault('cb', {})[p.name] = (cb, log)
            return C.cast(cb, C.c_void_p).value
        if p.res == "scc":
            fr = getattr(lib.L, "isl_%s_list_free" % p.el)
            fr.restype, fr.argtypes = C.c_void_p, [C.c_void_p]

            def q(x, user):
                log.append(list(rlist(lib, x, p.el).l))
                fr(x)
                return v[len(log) - 1] if len(log) <= len(v) else -1
            cb = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)(q)
            lib.__dict__.setdefault('cb', {})[p.name] = (cb, log)
            return C.cast(cb, C.c_void_p).value
        cb = C.CFUNCTYPE(C.c_void_p if p.res == "el" else C.c_int, C.c_void_p, C.c_void_p)(f)
        lib.__dict__.setdefault('cb', {})[p.name] = (cb, log)
        return C.cast(cb, C.c_void_p).value

    def view(self, v):
        return View(v)

    def after(self, lib, p, ptr, v):
        return View(lib.cb[p.name][1])


def rlist(lib, r, el):
    if not r:
        return None
    n = lib.L.sh_list_n(r)
    if n > 1000 or n > lib.L.sh_list_size(r):
        raise Guard("result has implausible length %d" % n)
    E = elements(lib, el)
    return View([E.idx.get(lib.L.sh_list_get(r, i) or 0, -1) for i in range(n)])


def rval(lib, r):
    return None if not r else NS(n=lib.getz(lib.L.sh_val_n(r), 0), d=lib.getz(lib.L.sh_val_d(r), 0))


def distinct_rows(lib, m):
    """the rows of a matrix are separate memory"""
    n, k = lib.L.sh_mat_rows(m), lib.L.sh_mat_cols(m)
    if k == 0:
        return True
    rows = sorted(lib.L.sh_mat_row(m, i) for i in range(n))
    return all(b - a >= k * lib.zs for a, b in zip(rows, rows[1:]))


def rvec(lib, r):
    if not r:
        return None
    n = lib.L.sh_vec_size(r)
    if n > 1000 or n > lib.L.sh_vec_cap(r):
        raise Guard("result has implausible size %d" % n)
    el = lib.L.sh_vec_el(r)
    return View([lib.getz(el, i) for i in range(n)])


def rmat(lib, r):
    if not r:
        return None
    a, b = lib.L.sh_mat_rows(r), lib.L.sh_mat_cols(r)
    if a > 1000 or b > 1000:
        raise Guard("result has implausible size %d x %d" % (a, b))
    return MView(a, b, [[lib.getz(lib.L.sh_mat_row(r, i), j) for j in range(b)] for i in range(a)])


HANDLERS = {K.Ctx: HCtx(), K.Long: HLong(), K.ULong: HULong(), K.Int: HInt(), K.UInt: HUInt(), K.Z: HZ(), K.ZOut: HZ(),
            K.Val: HVal(), K.KVal: HVal(), K.ValOut: HValOut(), K.MatOut: HMatOut(), K.Seq: HSeq(), K.IntSeq: HIntSeq(), K.Vec: HVec(), K.KVec: HVec(),
            K.Mat: HMat(), K.KMat: HMat(), K.El: HEl(), K.KEl: HEl(), K.List: HList(), K.KList: HList(), K.User: HUser(),
            K.CallBack: HCallBack()}
RET = {"val": (rval, "isl_val_free"), "vec": (rvec, "isl_vec_free"), "mat": (rmat, "isl_mat_free")}


class CPost:
    _E = None
    _st = None
    err = False


def order(c):
    """scalars first, then objects, then sequences whose length depends on them"""
    def key(i):
        h = HANDLERS[type(c.params[i])]
        p = c.params[i]
        if p.kw.get("late"):
            return 3
        return 2 if isinstance(p, (K.Seq, K.IntSeq)) or p.kw.get("size") or p.kw.get("rows") or p.kw.get("cols") else (1 if h.seq else 0)
    return sorted(range(len(c.params)), key=key)


def valid(c, vals):
    a = NS()
    for p, v in zip(c.params, vals):
        setattr(a, p.name, HANDLERS[type(p)].view(v))
    if c.pre is not None:
        g = c.pre(a)
        for x in g if isinstance(g, list) else [g]:
            if not x:
                return None
    return a


def cases(c, rng, n):
    """concrete argument tuples (values)"""
    od = order(c)
    hs = [HANDLERS[type(p)] for p in c.params]
    if c.gen is not None:
        for _ in range(n):
            d = c.gen(rng)
            yield [d[p.name] if p.name in d else hs[i].rnd(rng, p, None) for i, p in enumerate(c.params)]
        return
    if not any(h.seq for h in hs):
        pools = [h.pool(p, None) for h, p in zip(hs, c.params)]
        tot = 1
        for p in pools:
            tot *= len(p)
        if tot <= n:
            yield from (list(x) for x in itertools.product(*pools))
            return
    for _ in range(n):
        vals = [None] * len(od)
        a = NS()
        for i in od:
            p = c.params[i]
            vals[i] = hs[i].rnd(rng, p, a)
            setattr(a, p.name, hs[i].view(vals[i]))
        yield vals


def variants(c):
    import prove
    return prove.variants(c)


def run_case(lib, c, fn, vals, var, alias):
    """-> None or text of the first violated clause"""
    vals = list(vals)
    names = [p.name for p in c.params]
    for b, a in alias.items():
        vals[names.index(b)] = vals[names.index(a)]
    a = valid(c, vals)
    if a is None:
        return "skip"
    hs = [HANDLERS[type(p)] for p in c.params]
    ptrs = [None] * len(vals)
    for i, p in enumerate(c.params):
        if p.name not in alias:
            ptrs[i] = hs[i].make(lib, p, vals[i])
    for b, x in alias.items():
        i = names.index(b)
        ptrs[i] = ptrs[names.index(x)]
        if hs[i].obj and c.params[i].take:
            hs[i].share(lib, ptrs[i])
    shared = [p.name for p in c.params if p.shared and var.get(p.name) == "shared"]
    held = {}
    for i, p in enumerate(c.params):
        if p.name in shared and p.take and p.name not in alias:
            hs[i].share(lib, ptrs[i])
            held[p.name] = i
    r = fn(*ptrs)
    pc = CPost()
    for k, v in a.__dict__.items():
        setattr(pc, k, v)
    if c.ret in RET:
        pc.ret = RET[c.ret][0](lib, r)
    elif c.ret.startswith("list:"):
        pc.ret = rlist(lib, r, c.ret[5:])
    elif c.ret.startswith("el:"):
        pc.ret = elements(lib, c.ret[3:]).idx.get(r, -1) if r else None
    else:
        pc.ret = r
    pc.retptr = r
    pc.distinct_rows = lambda m: distinct_rows(lib, m)

    def out(name):
        i = names.index(name)
        return hs[i].after(lib, c.params[i], ptrs[i], vals[i])
    pc.out = out
    try:
        for name, g in c.post(pc):
            if not holds(g):
                return name + describe(pc)
        for i, p in enumerate(c.params):
            if p.shared and (not p.take or p.name in held):
                if not hs[i].same(out(p.name), hs[i].view(vals[i])):
                    return "operand %s unchanged" % p.name
            elif isinstance(p, K.Seq):
                out(p.name)     # guards
        if isinstance(pc.ret, MView) or isinstance(pc.ret, View):
            pass
    except Guard as e:
        return str(e)
    if c.ret in RET and r:
        getattr(lib.L, RET[c.ret][1])(r)
    elif c.ret[:5] in ("list:", "el:" + c.ret[3:5]) and r:
        f = getattr(lib.L, "isl_%s_free" % (c.ret[5:] + "_list" if c.ret[:5] == "list:" else c.ret[3:]))
        f.restype, f.argtypes = C.c_void_p, [C.c_void_p]
        f(r)
    for i, p in enumerate(c.params):
        if p.name in alias:
            continue
        if hs[i].obj and (not p.take or p.name in held):
            hs[i].free(lib, p, ptrs[i], vals[i])
        elif not hs[i].obj:
            hs[i].free(lib, p, ptrs[i], vals[i])
    return None


def describe(pc):
    r = pc.ret
    if r is None:
        return " (result: null)"
    if isinstance(r, NS):
        return " (result: %s)" % ", ".join("%s=%s" % kv for kv in r.__dict__.items())
    if isinstance(r, (View, MView)):
        return " (result: %s)" % (r.l,)
    return " (result: %s)" % (r,)


def holds(g):
    if isinstance(g, (list, tuple)):
        return all(holds(x) for x in g)
    return bool(g)


def show(c, vals, var, alias):
    s = []
    for p, v in zip(c.params, vals):
        if p.name in alias:
            s.append("%s=same object as %s" % (p.name, alias[p.name]))
        elif v is not None:
            s.append("%s=%s%s" % (p.name, v, " (shared)" if var.get(p.name) == "shared" else ""))
    return ", ".join(s)


CT = {"i64": C.c_long, "i32": C.c_int, "i8": C.c_byte, "i1": C.c_bool, "ptr": C.c_void_p, "void": None}


def proto(L, c, rty):
    fn = getattr(L.L, c.fname)
    fn.argtypes = [HANDLERS[type(p)].ct for p in c.params]
    fn.restype = CT.get(rty, C.c_int)
    return fn


def buildable(c):
    """can the test make objects of all types involved?"""
    ts = [p.kw["el"] for p in c.params if p.kw.get("el")] + ([c.ret.split(":")[1]] if ":" in c.ret else [])
    return all(t in CONS for t in ts)


def test(libpath, c, rty, seed, n, extra=(), limit=40):
    """runs the cases in a child; -> dict(cases, fail=[{args, clause}])"""
    if not buildable(c):
        return dict(cases=0, fail=[])
    rd, wr = os.pipe()
    mm = mmap.mmap(-1, 16)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            nul = os.open("/dev/null", os.O_RDWR)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            lib = Lib(libpath)
            fn = proto(lib, c, rty)
            cnt = 0
            nf = 0
            t0 = time.time()
            for i, (vals, var, alias) in enumerate(allcases(c, seed, n, extra)):
                struct.pack_into("q", mm, 0, i)
                signal.setitimer(signal.ITIMER_VIRTUAL, 20)
                r = run_case(lib, c, fn, vals, var, alias)
                if r == "skip":
                    continue
                cnt += 1
                if r is not None:
                    os.write(wr, (json.dumps([i, show(c, vals, var, alias), r]) + "\n").encode())
                    nf += 1
                    if nf >= 3:
                        break
                if time.time() - t0 > limit:
                    break
            struct.pack_into("q", mm, 8, cnt)
            os._exit(0)
        except BaseException as e:
            import traceback
            os.write(wr, (json.dumps(["exc", traceback.format_exc(), ""]) + "\n").encode())
            os._exit(3)
    os.close(wr)
    data = b""
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        data += x
    os.close(rd)
    _, stt = os.waitpid(pid, 0)
    last, cnt = struct.unpack_from("qq", mm, 0)
    fails = []
    for l in data.decode().splitlines():
        i, a, r = json.loads(l)
        if i == "exc":
            return dict(cases=0, fail=[], error=a)
        fails.append(dict(args=a, clause=r))
    if os.WIFSIGNALED(stt):
        sig = os.WTERMSIG(stt)
        for i, (vals, var, alias) in enumerate(allcases(c, seed, n, extra)):
            if i == last:
                what = {signal.SIGVTALRM: "does not terminate (20 s)", signal.SIGSEGV: "crash (segmentation fault)",
                        signal.SIGFPE: "crash (arithmetic)", signal.SIGABRT: "abort"}.get(sig, "signal %d" % sig)
                if sig != signal.SIGKILL:
                    fails.append(dict(args=show(c, vals, var, alias), clause=what))
                break
        cnt = last
    return dict(cases=cnt, fail=fails)


def allcases(c, seed, n, extra):
    for e in extra:
        yield e
    vs = variants(c)
    for k, (var, alias) in enumerate(vs):
        rng = random.Random("%s/%s/%d" % (seed, c.name, k))
        for vals in cases(c, rng, n if k == 0 else max(50, n // 3)):
            yield vals, var, alias


def concretise(c, kind, var, alias, m, E, view):
    """z3 model -> concrete values (or None)"""
    import z3
    out = []

    def ev(t):
        v = m.eval(t, model_completion=True)
        return v.as_long()
    z = lambda x: ev(x) if isinstance(x, z3.ExprRef) else x
    ids = {}

    def eid(t):
        return ids.setdefault(z(t), 1 + len(ids) % 5)
    for p in c.params:
        w = getattr(E.args, p.name)
        try:
            if w is None:
                out.append(None)
            elif isinstance(p, (K.Val,)):
                out.append((z(w.n), z(w.d)))
            elif isinstance(p, K.Seq) or isinstance(p, K.Vec):
                n = z(w.n)
                if not 0 <= n <= 40:
                    return None
                l = [z(w[i]) for i in range(n)]
                out.append(l if isinstance(p, K.Seq) else [0] + l)
            elif isinstance(p, K.El):
                out.append(eid(w))
            elif isinstance(p, K.List):
                n, cap = z(w.n), ev(z3.Int(p.name + ".cap"))
                if not 0 <= n <= 40:
                    return None
                out.append([min(cap - n, 1000)] + [eid(w[i]) for i in range(n)])
            elif isinstance(p, K.CallBack):
                if p.res not in ("el", "stat", "bool"):
                    return None
                l = [w[i] for i in range(8)]
                out.append([eid(x) for x in l] if p.res == "el" else [z(x) for x in l])
            elif isinstance(p, K.Mat):
                r, cc = z(w.rows), z(w.cols)
                if not (0 <= r <= 20 and 0 <= cc <= 20):
                    return None
                out.append([cc, r, cc, [[z(w[i, j]) for j in range(cc)] for i in range(r)]])
            elif w is None or isinstance(w, (int, bool, z3.ExprRef)):
                out.append(z(w))
            else:
                return None
        except (AttributeError, z3.Z3Exception):
            return None
    return out, var, alias
