"""C07: vectors"""
from contract import contract, Vec, KVec, Val, KVal, Z, ZOut, Int, UInt, Ctx, IntSeq, forall, imp
from term import If, And, Or, Not, Implies, Iff, eq, ne, gcd, lcm, fdiv, cdiv, fmod, sgn, isz, Abs

from seq import GcdGhost, reduce

P = "C07"
POS = [-1, 0, 1, 2, 3, 4]


def is_vec(r, size, f):
    if r is None:
        yield "result exists", False
        return
    yield "size", eq(r.n, size)
    yield "elements", forall(0, size, lambda j: eq(r[j], f(j)))


def partial(c, ok, size, f):
    """error outside of the domain, result inside"""
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "size", Implies(ok, eq(c.ret.n, size))
    yield "elements", imp(ok, forall(0, size, lambda j: eq(c.ret[j], f(j)))) if isz(ok) or ok else True


@contract("isl_vec_alloc", P, [Ctx("ctx"), UInt("size")], "vec")
def _(c):
    yield "result exists", c.ret is not None
    yield "size", eq(c.ret.n, c.size)


@contract("isl_vec_zero", P, [Ctx("ctx"), UInt("size")], "vec")
def _(c):
    yield from is_vec(c.ret, c.size, lambda j: 0)


for _n in ("isl_vec_copy", "isl_vec_dup"):
    @contract(_n, P, [KVec("vec")], "vec")
    def _(c):
        yield from is_vec(c.ret, c.vec.n, lambda j: c.vec[j])


@contract("isl_vec_cow", P, [Vec("vec")], "vec")
def _(c):
    yield from is_vec(c.ret, c.vec.n, lambda j: c.vec[j])


@contract("isl_vec_size", P, [KVec("vec")], "size")
def _(c):
    yield "size", eq(c.ret, c.vec.n)


@contract("isl_vec_extend", P, [Vec("vec"), UInt("size")], "vec")
def _(c):
    yield "result exists", c.ret is not None
    yield "size", eq(c.ret.n, If(c.size > c.vec.n, c.size, c.vec.n))
    yield "elements", forall(0, c.vec.n, lambda j: eq(c.ret[j], c.vec[j]))


@contract("isl_vec_zero_extend", P, [Vec("vec"), UInt("size")], "vec")
def _(c):
    n = c.vec.n
    yield from is_vec(c.ret, If(c.size > n, c.size, n), lambda j: If(j < n, c.vec[j], 0))


@contract("isl_vec_concat", P, [Vec("vec1"), Vec("vec2")], "vec", alias=[("vec1", "vec2")])
def _(c):
    n = c.vec1.n
    yield from is_vec(c.ret, n + c.vec2.n, lambda j: If(j < n, c.vec1[j], c.vec2[j - n]))


@contract("isl_vec_get_element_val", P, [KVec("vec"), Int("pos", pool=POS)], "val")
def _(c):
    ok = And(c.pos >= 0, c.pos < c.vec.n)
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "element", And(eq(c.ret.n, c.vec[c.pos]), eq(c.ret.d, 1))


def _set(name, params, val, dom=lambda c: True):
    @contract(name, P, [Vec("vec"), Int("pos", pool=POS)] + params, "vec")
    def _(c):
        ok = And(c.pos >= 0, c.pos < c.vec.n, dom(c))
        yield from partial(c, ok, c.vec.n, lambda j: If(eq(j, c.pos), val(c), c.vec[j]))


_set("isl_vec_set_element", [Z("v")], lambda c: c.v)
_set("isl_vec_set_element_si", [Int("v")], lambda c: c.v)
_set("isl_vec_set_element_val", [Val("v")], lambda c: c.v.n, lambda c: eq(c.v.d, 1))


@contract("isl_vec_cmp_element", P, [KVec("vec1"), KVec("vec2"), Int("pos", pool=POS)], "int", alias=[("vec1", "vec2")])
def _(c):
    ok = And(c.pos >= 0, c.pos < c.vec1.n, c.pos < c.vec2.n)
    yield "outside of the domain", Or(ok, eq(c.ret, 0))
    a, b = c.vec1[c.pos], c.vec2[c.pos]
    yield "sign", Implies(ok, eq(sgn(c.ret), If(a < b, -1, If(a > b, 1, 0))))


@contract("isl_vec_is_zero", P, [KVec("vec")], "bool")
def _(c):
    yield "boolean", Or(eq(c.ret, 0), eq(c.ret, 1))
    yield "if", imp(eq(c.ret, 1), forall(0, c.vec.n, lambda j: eq(c.vec[j], 0)))
    yield "only if", some(c, c.vec.n, lambda j: ne(c.vec[j], 0), eq(c.ret, 0))


@contract("isl_vec_is_equal", P, [KVec("vec1"), KVec("vec2")], "bool", alias=[("vec1", "vec2")])
def _(c):
    n = c.vec1.n
    yield "boolean", Or(eq(c.ret, 0), eq(c.ret, 1))
    yield "if size", Implies(eq(c.ret, 1), eq(n, c.vec2.n))
    yield "if", imp(eq(c.ret, 1), forall(0, n, lambda j: eq(c.vec1[j], c.vec2[j])))
    yield "only if", some(c, n, lambda j: ne(c.vec1[j], c.vec2[j]), And(eq(c.ret, 0), eq(n, c.vec2.n)))


def some(c, n, f, guard):
    """guard => f(j) for some j in [0,n); the witness is sought among the loop counters"""
    if not isz(n):
        return Implies(guard, Or(*[f(j) for j in range(0, n)]))
    from seq import consts
    ws = []
    for t in c._st.pc:
        if isz(t):
            for a in consts(t):
                if a.decl().name().startswith("k!") and not any(a.get_id() == w.get_id() for w in ws):
                    ws.append(a)
    return Implies(guard, Or(*[And(w >= 0, w < n, f(w)) for w in ws]))


def ew(name, params, f, pre=None, size=None, **kw):
    @contract(name, P, [Vec("vec")] + params, "vec", pre=pre, **kw)
    def _(c):
        yield from is_vec(c.ret, size(c) if size else c.vec.n, lambda j: f(c, j))


ew("isl_vec_set", [Z("v")], lambda c, j: c.v)
ew("isl_vec_set_si", [Int("v")], lambda c, j: c.v)
ew("isl_vec_clr", [], lambda c, j: 0)
ew("isl_vec_neg", [], lambda c, j: -c.vec[j])
ew("isl_vec_scale", [Z("m")], lambda c, j: c.vec[j] * c.m)
ew("isl_vec_fdiv_r", [Z("m")], lambda c, j: fmod(c.vec[j], c.m), pre=lambda c: ne(c.m, 0))
ew("isl_vec_ceil", [], lambda c, j: If(eq(j, 0), 1, cdiv(c.vec[j], c.vec[0])), pre=lambda c: And(c.vec.n >= 1, ne(c.vec[0], 0)))


@contract("isl_vec_set_val", P, [Vec("vec"), Val("v")], "vec")
def _(c):
    yield from partial(c, eq(c.v.d, 1), c.vec.n, lambda j: c.v.n)


@contract("isl_vec_add", P, [Vec("vec1"), Vec("vec2")], "vec", alias=[("vec1", "vec2")])
def _(c):
    yield from partial(c, eq(c.vec1.n, c.vec2.n), c.vec1.n, lambda j: c.vec1[j] + c.vec2[j])


@contract("isl_vec_drop_els", P, [Vec("vec"), UInt("pos"), UInt("n")], "vec")
def _(c):
    ok = Or(eq(c.n, 0), c.pos + c.n <= c.vec.n)
    yield from partial(c, ok, c.vec.n - c.n, lambda j: c.vec[If(Or(eq(c.n, 0), j < c.pos), j, j + c.n)])


@contract("isl_vec_insert_els", P, [Vec("vec"), UInt("pos"), UInt("n")], "vec")
def _(c):
    ok = Or(eq(c.n, 0), c.pos <= c.vec.n)
    n = c.vec.n
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "size", Implies(ok, eq(c.ret.n, n + c.n))
    yield "elements before", imp(ok, forall(0, If(eq(c.n, 0), n, c.pos), lambda j: eq(c.ret[j], c.vec[j])))
    yield "elements after", imp(And(ok, ne(c.n, 0)), forall(c.pos, n, lambda j: eq(c.ret[j + c.n], c.vec[j])))


@contract("isl_vec_add_els", P, [Vec("vec"), UInt("n")], "vec")
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    yield "size", eq(c.ret.n, c.vec.n + c.n)
    yield "elements", forall(0, c.vec.n, lambda j: eq(c.ret[j], c.vec[j]))


@contract("isl_vec_insert_zero_els", P, [Vec("vec"), UInt("pos"), UInt("n")], "vec")
def _(c):
    ok = Or(eq(c.n, 0), c.pos <= c.vec.n)
    n = c.vec.n
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "size", Implies(ok, eq(c.ret.n, n + c.n))
    yield "elements before", imp(ok, forall(0, If(eq(c.n, 0), n, c.pos), lambda j: eq(c.ret[j], c.vec[j])))
    yield "new elements", imp(And(ok, ne(c.n, 0)), forall(c.pos, c.pos + c.n, lambda j: eq(c.ret[j], 0)))
    yield "elements after", imp(And(ok, ne(c.n, 0)), forall(c.pos, n, lambda j: eq(c.ret[j + c.n], c.vec[j])))


@contract("isl_vec_move_els", P, [Vec("vec"), UInt("dst_pos"), UInt("src_pos"), UInt("n")], "vec")
def _(c):
    d, s, n, v = c.dst_pos, c.src_pos, c.n, c.vec
    ok = And(s + n <= v.n, d + n <= v.n)

    def at(j):
        inside = And(j >= d, j < d + n)
        k = If(inside, j - d + s, If(And(j < s, j < d), j, If(And(j >= s + n, j >= d + n), j, If(d < s, j - n, j + n))))
        return v[k]
    yield from partial(c, ok, v.n, at)


_lcs = lambda a: lambda n, v: If(eq(n, 0), a.vec[0], lcm(v, a.vec[n]))


def _lcg(a):
    from seq import mkghost
    return [mkghost("lc", 1, _lcs(a))]


@contract("isl_vec_lcm", P, [KVec("vec"), ZOut("lcm")], "void", ghosts=_lcg)
def _(c):
    from seq import reduce
    yield "least common multiple", eq(c.out("lcm"), reduce(c, "lc", 1, _lcs(c), c.vec.n))


@contract("isl_vec_expand", P, [Vec("vec"), Int("pos", pool=POS), Int("n", pool=POS), IntSeq("exp", len=lambda a: a.n),
                                Int("expanded", pool=[0, 1, 2, 3, 4, 5])], "vec", bounded_only=True,
          gen=lambda rng: _genexp(rng))
def _(c):
    ok = And(c.expanded >= c.n, Or(eq(c.expanded, c.n), And(c.pos >= 0, c.n >= 0, c.pos + c.n <= c.vec.n)))
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    l = list(c.vec.l)
    mid = [0] * c.expanded
    if c.expanded == c.n:
        want = l
    else:
        for i, e in enumerate(c.exp.l):
            mid[e] = l[c.pos + i]
        want = l[:c.pos] + mid + l[c.pos + c.n:]
    yield "elements", c.ret.l == want


def _genexp(rng):
    size = rng.randint(0, 5)
    n = rng.randint(-1, 4)
    e = max(0, n + rng.randint(-1, 3))
    pos = rng.randint(-1, 5)
    exp = sorted(rng.sample(range(e), n)) if 0 <= n <= e else [0] * max(0, n)
    return dict(vec=[0] + [rng.randint(-5, 5) for _ in range(size)], pos=pos, n=n, expanded=e, exp=exp)


@contract("isl_vec_sort", P, [Vec("vec")], "vec", bounded_only=True)
def _(c):
    yield "sorted elements", c.ret is not None and list(c.ret.l) == sorted(c.vec.l)


def _gcv(c):
    return lambda n, v: gcd(v, c.vec[n])


@contract("isl_vec_normalize", P, [Vec("vec")], "vec", ghosts=lambda a: [GcdGhost(a.vec)])
def _(c):
    g = reduce(c, "gc", 0, _gcv(c), c.vec.n)
    yield from is_vec(c.ret, c.vec.n, lambda j: If(eq(g, 0), c.vec[j], fdiv(c.vec[j], g)))
