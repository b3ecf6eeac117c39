"""C06: exact arithmetic on isl_val"""
from contract import contract, Val, KVal, Long, ULong, Z, ZOut, Ctx, ValOut
from term import If, And, Or, Not, Implies, Iff, eq, ne, gcd, fdiv, cdiv, tdiv, fmod, divides, pow2, sgn, Abs

P = "C06"


def nan(v):
    return And(eq(v.d, 0), eq(v.n, 0))


def inf(v):
    return And(eq(v.d, 0), v.n > 0)


def ninf(v):
    return And(eq(v.d, 0), v.n < 0)


def rat(v):
    return ne(v.d, 0)


def isint(v):
    return eq(v.d, 1)


def result(r, nd):
    """r is the normal form of nd = (N, D), D >= 0"""
    if r is None:
        yield "result exists", False
        return
    N, D = nd
    yield "exact value", If(eq(D, 0), And(eq(r.d, 0), eq(r.n, sgn(N))), And(ne(r.d, 0), eq(r.n * D, N * r.d)))
    yield "positive denominator", If(eq(D, 0), eq(r.d, 0), r.d > 0)
    yield "lowest terms", Implies(ne(r.d, 0), eq(gcd(r.n, r.d), 1))


def exactly(r, nd):
    if r is None:
        yield "result exists", False
        return
    yield "numerator", eq(r.n, nd[0])
    yield "denominator", eq(r.d, nd[1])


def xadd(a, b):
    return If(Or(nan(a), nan(b)), (0, 0),
              If(And(eq(a.d, 0), eq(b.d, 0)), (If(eq(a.n, b.n), a.n, 0), 0),
                 If(eq(a.d, 0), (a.n, 0), If(eq(b.d, 0), (b.n, 0), (a.n * b.d + b.n * a.d, a.d * b.d)))))


def xmul(a, b):
    # 0 * inf = NaN: sgn(0)*.. = 0 with denominator 0
    return (If(Or(eq(a.d, 0), eq(b.d, 0)), sgn(a.n) * sgn(b.n), a.n * b.n), a.d * b.d)


def xinv(a):
    return If(nan(a), (0, 0), If(eq(a.d, 0), (0, 1), If(eq(a.n, 0), (0, 0), If(a.n < 0, (-a.d, -a.n), (a.d, a.n)))))


class Q:
    def __init__(self, nd):
        self.n, self.d = nd


def xdiv(a, b):
    return If(eq(b.n, 0), (0, 0), xmul(a, Q(xinv(b))))


def lt(a, b):
    """a < b in the extended order, for non-NaN operands"""
    return If(And(eq(a.d, 0), eq(b.d, 0)), a.n < b.n,
              If(eq(a.d, 0), a.n < 0, If(eq(b.d, 0), b.n > 0, a.n * b.d < b.n * a.d)))


def equal(a, b):
    return And(Not(nan(a)), Not(nan(b)), eq(a.n, b.n), eq(a.d, b.d))


def boolean(r, want):
    yield "truth value", eq(r, If(want, 1, 0))


# ------------------------------------------------------------- constructors
for _f, _n, _d in (("zero", 0, 1), ("one", 1, 1), ("negone", -1, 1), ("nan", 0, 0), ("infty", 1, 0), ("neginfty", -1, 0)):
    def _mk(n, d):
        @contract("isl_val_" + _f, P, [Ctx("ctx")], "val")
        def _(c):
            yield from exactly(c.ret, (n, d))
    _mk(_n, _d)


@contract("isl_val_int_from_si", P, [Ctx("ctx"), Long("i")], "val")
def _(c):
    yield from exactly(c.ret, (c.i, 1))


@contract("isl_val_int_from_ui", P, [Ctx("ctx"), ULong("u")], "val")
def _(c):
    yield from exactly(c.ret, (c.u, 1))


@contract("isl_val_int_from_isl_int", P, [Ctx("ctx"), Z("n")], "val")
def _(c):
    yield from exactly(c.ret, (c.n, 1))


@contract("isl_val_rat_from_isl_int", P, [Ctx("ctx"), Z("n"), Z("d")], "val")
def _(c):
    yield from exactly(c.ret, (c.n, c.d))


@contract("isl_val_set_si", P, [Val("v"), Long("i")], "val")
def _(c):
    yield from exactly(c.ret, (c.i, 1))


@contract("isl_val_set_nan", P, [Val("v")], "val")
def _(c):
    yield from exactly(c.ret, (0, 0))


@contract("isl_val_set_zero", P, [Val("v")], "val")
def _(c):
    yield from exactly(c.ret, (0, 1))


@contract("isl_val_copy", P, [KVal("v")], "val")
def _(c):
    yield from exactly(c.ret, (c.v.n, c.v.d))


@contract("isl_val_dup", P, [KVal("v")], "val")
def _(c):
    yield from exactly(c.ret, (c.v.n, c.v.d))


@contract("isl_val_cow", P, [Val("v")], "val")
def _(c):
    yield from exactly(c.ret, (c.v.n, c.v.d))


@contract("isl_val_normalize", P, [Val("v", raw=True)], "val")
def _(c):
    v = c.v
    yield from result(c.ret, If(v.d < 0, (-v.n, -v.d), (v.n, v.d)))


# ------------------------------------------------------------- unary
@contract("isl_val_neg", P, [Val("v")], "val")
def _(c):
    yield from exactly(c.ret, (-c.v.n, c.v.d))
    yield from result(c.ret, (-c.v.n, c.v.d))


@contract("isl_val_abs", P, [Val("v")], "val")
def _(c):
    yield from exactly(c.ret, (Abs(c.v.n), c.v.d))
    yield from result(c.ret, (Abs(c.v.n), c.v.d))


@contract("isl_val_inv", P, [Val("v")], "val")
def _(c):
    yield from result(c.ret, xinv(c.v))


for _n, _op in (("floor", fdiv), ("ceil", cdiv), ("trunc", tdiv)):
    def _mk(op):
        @contract("isl_val_" + _n, P, [Val("v")], "val")
        def _(c):
            yield from exactly(c.ret, If(rat(c.v), (op(c.v.n, c.v.d), 1), (c.v.n, c.v.d)))
    _mk(_op)


def _pow2(c):
    v = c.v
    fits = And(isint(v), Abs(v.n) < (1 << 64))
    if c.ret is None:
        yield "rejected only outside of the domain", Not(fits)
        return
    yield "rejected outside of the domain", fits
    yield from exactly(c.ret, If(v.n < 0, (1, pow2(-v.n)), (pow2(v.n), 1)))


for _n in ("isl_val_pow2", "isl_val_2exp"):
    contract(_n, P, [Val("v", small=True)], "val")(_pow2)


# ------------------------------------------------------------- binary
def _bin(name, f):
    @contract(name, P, [Val("v1"), Val("v2")], "val", alias=[("v1", "v2")])
    def _(c):
        yield from result(c.ret, f(c.v1, c.v2))


_bin("isl_val_add", xadd)
_bin("isl_val_sub", lambda a, b: xadd(a, Q((-b.n, b.d))))
_bin("isl_val_mul", xmul)
_bin("isl_val_scale_val", xmul)
_bin("isl_val_div", xdiv)
_bin("isl_val_scale_down_val", xdiv)
_bin("isl_val_min", lambda a, b: If(Or(nan(a), nan(b)), (0, 0), If(lt(b, a), (b.n, b.d), (a.n, a.d))))
_bin("isl_val_max", lambda a, b: If(Or(nan(a), nan(b)), (0, 0), If(lt(a, b), (b.n, b.d), (a.n, a.d))))


def _binui(name, f):
    @contract(name, P, [Val("v1"), ULong("v2")], "val")
    def _(c):
        yield from result(c.ret, f(c.v1, Q((c.v2, 1))))


_binui("isl_val_add_ui", xadd)
_binui("isl_val_sub_ui", lambda a, b: xadd(a, Q((-b.n, 1))))
_binui("isl_val_mul_ui", xmul)
_binui("isl_val_div_ui", xdiv)


def _mod(c):
    ok = And(isint(c.v1), isint(c.v2))
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield from exactly(c.ret, (fmod(c.v1.n, c.v2.n), 1))


for _n in ("isl_val_mod", "isl_val_mod_val"):
    contract(_n, P, [Val("v1"), Val("v2")], "val", alias=[("v1", "v2")], pre=lambda c: ne(c.v2.n, 0))(_mod)


@contract("isl_val_gcd", P, [Val("v1"), Val("v2")], "val", alias=[("v1", "v2")])
def _(c):
    ok = And(isint(c.v1), isint(c.v2))
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield from exactly(c.ret, (gcd(c.v1.n, c.v2.n), 1))


@contract("isl_val_gcdext", P, [Val("v1"), Val("v2"), ValOut("x"), ValOut("y")], "val", alias=[("v1", "v2")])
def _(c):
    ok = And(isint(c.v1), isint(c.v2))
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    x, y = c.out("x"), c.out("y")
    yield from exactly(c.ret, (gcd(c.v1.n, c.v2.n), 1))
    if x is None or y is None:
        yield "cofactors exist", False
        return
    yield "cofactors", And(eq(x.d, 1), eq(y.d, 1), eq(c.v1.n * x.n + c.v2.n * y.n, c.ret.n))


# ------------------------------------------------------------- observers
def _pred(name, f):
    @contract(name, P, [KVal("v")], "bool")
    def _(c):
        yield from boolean(c.ret, f(c.v))


_pred("isl_val_is_int", isint)
_pred("isl_val_is_rat", rat)
_pred("isl_val_is_nan", nan)
_pred("isl_val_is_infty", inf)
_pred("isl_val_is_neginfty", ninf)
_pred("isl_val_is_zero", lambda v: And(eq(v.n, 0), ne(v.d, 0)))
_pred("isl_val_is_one", lambda v: And(eq(v.n, 1), eq(v.d, 1)))
_pred("isl_val_is_negone", lambda v: And(eq(v.n, -1), eq(v.d, 1)))
_pred("isl_val_is_pos", lambda v: v.n > 0)
_pred("isl_val_is_neg", lambda v: v.n < 0)
_pred("isl_val_is_nonneg", lambda v: And(v.n >= 0, Not(nan(v))))
_pred("isl_val_is_nonpos", lambda v: And(v.n <= 0, Not(nan(v))))


@contract("isl_val_sgn", P, [KVal("v")], "int", pre=lambda c: Not(nan(c.v)))
def _(c):
    yield "sign", eq(c.ret, sgn(c.v.n))


def _cmp(name, f):
    @contract(name, P, [KVal("v1"), KVal("v2")], "bool", alias=[("v1", "v2")])
    def _(c):
        yield from boolean(c.ret, f(c.v1, c.v2))


_ok = lambda a, b: And(Not(nan(a)), Not(nan(b)))
_cmp("isl_val_lt", lambda a, b: And(_ok(a, b), lt(a, b)))
_cmp("isl_val_le", lambda a, b: And(_ok(a, b), Not(lt(b, a))))
_cmp("isl_val_gt", lambda a, b: And(_ok(a, b), lt(b, a)))
_cmp("isl_val_ge", lambda a, b: And(_ok(a, b), Not(lt(a, b))))
_cmp("isl_val_eq", equal)
_cmp("isl_val_ne", lambda a, b: And(_ok(a, b), Not(equal(a, b))))
_cmp("isl_val_abs_eq", lambda a, b: And(_ok(a, b), eq(Abs(a.n), Abs(b.n)), eq(a.d, b.d)))
_cmp("isl_val_plain_is_equal", equal)


@contract("isl_val_is_divisible_by", P, [KVal("v1"), KVal("v2")], "bool", alias=[("v1", "v2")])
def _(c):
    ok = And(isint(c.v1), isint(c.v2))
    yield "rejected outside of the domain", Iff(eq(c.ret, -1), Not(ok))
    yield "truth value", Implies(ok, eq(c.ret, If(divides(c.v2.n, c.v1.n), 1, 0)))


@contract("isl_val_gt_si", P, [KVal("v"), Long("i")], "bool")
def _(c):
    yield from boolean(c.ret, And(Not(nan(c.v)), lt(Q((c.i, 1)), c.v)))


@contract("isl_val_eq_si", P, [KVal("v"), Long("i")], "bool")
def _(c):
    yield from boolean(c.ret, And(eq(c.v.n, c.i), eq(c.v.d, 1)))


@contract("isl_val_cmp_si", P, [KVal("v"), Long("i")], "int", pre=lambda c: Not(nan(c.v)))
def _(c):
    q = Q((c.i, 1))
    yield "sign of the comparison", And(Iff(c.ret < 0, lt(c.v, q)), Iff(c.ret > 0, lt(q, c.v)))


@contract("isl_val_get_num_si", P, [KVal("v")], "int")
def _(c):
    ok = And(rat(c.v), c.v.n >= -(1 << 63), c.v.n < (1 << 63))
    yield "numerator", eq(c.ret, If(ok, c.v.n, 0))


@contract("isl_val_get_den_si", P, [KVal("v")], "int")
def _(c):
    ok = And(rat(c.v), c.v.d < (1 << 63))
    yield "denominator", eq(c.ret, If(ok, c.v.d, 0))


@contract("isl_val_get_den_val", P, [KVal("v")], "val")
def _(c):
    if c.ret is None:
        yield "rejected only outside of the domain", Not(rat(c.v))
        return
    yield "rejected outside of the domain", rat(c.v)
    yield from exactly(c.ret, (c.v.d, 1))


@contract("isl_val_get_num_isl_int", P, [KVal("v"), ZOut("n")], "stat")
def _(c):
    yield "status", eq(c.ret, If(rat(c.v), 0, -1))
    yield "numerator", Implies(rat(c.v), eq(c.out("n"), c.v.n))
