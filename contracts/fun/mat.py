"""C08: matrices"""
from contract import (contract, Mat, KMat, MatOut, Vec, KVec, Val, Z, ZOut, Int, UInt, Ctx, forall, imp, exists)
from term import If, And, Or, Not, Implies, Iff, eq, ne, gcd, fdiv, sgn, isz, Abs

from seq import mkghost, reduce

from seq import GcdGhost, RowsGcd, AllGcd, reduce

P = "C08"
POS = [-1, 0, 1, 2, 3, 4]


def is_mat(r, rows, cols, f):
    if r is None:
        yield "result exists", False
        return
    yield "number of rows", eq(r.rows, rows)
    yield "number of columns", eq(r.cols, cols)
    yield "entries", forall(0, rows, lambda i: forall(0, cols, lambda j: eq(r[i, j], f(i, j))))


def partial(c, ok, rows, cols, f):
    """error outside of the domain, result inside"""
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    if not isz(ok) and not ok:
        return
    yield "number of rows", Implies(ok, eq(c.ret.rows, rows))
    yield "number of columns", Implies(ok, eq(c.ret.cols, cols))
    yield "entries", forall(0, rows, lambda i: imp(ok, forall(0, cols, lambda j: eq(c.ret[i, j], f(i, j)))))


@contract("isl_mat_alloc", P, [Ctx("ctx"), UInt("n_row"), UInt("n_col")], "mat")
def _(c):
    yield "result exists", c.ret is not None
    yield "number of rows", eq(c.ret.rows, c.n_row)
    yield "number of columns", eq(c.ret.cols, c.n_col)


for _n in ("isl_mat_copy", "isl_mat_dup"):
    @contract(_n, P, [KMat("mat")], "mat")
    def _(c):
        yield from is_mat(c.ret, c.mat.rows, c.mat.cols, lambda i, j: c.mat[i, j])


@contract("isl_mat_cow", P, [Mat("mat")], "mat")
def _(c):
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols, lambda i, j: c.mat[i, j])


@contract("isl_mat_rows", P, [KMat("mat")], "size")
def _(c):
    yield "number of rows", eq(c.ret, c.mat.rows)


@contract("isl_mat_cols", P, [KMat("mat")], "size")
def _(c):
    yield "number of columns", eq(c.ret, c.mat.cols)


@contract("isl_mat_extend", P, [Mat("mat"), UInt("n_row"), UInt("n_col")], "mat")
def _(c):
    m = c.mat
    if c.ret is None:
        yield "result exists", False
        return
    yield "number of rows", eq(c.ret.rows, If(c.n_row > m.rows, c.n_row, m.rows))
    yield "number of columns", eq(c.ret.cols, If(c.n_col > m.cols, c.n_col, m.cols))
    yield "entries", forall(0, m.rows, lambda i: forall(0, m.cols, lambda j: eq(c.ret[i, j], m[i, j])))
    if not isz(m.rows):
        yield "rows do not overlap", c.distinct_rows(c.retptr)


@contract("isl_mat_get_element", P, [KMat("mat"), Int("row", pool=POS), Int("col", pool=POS), ZOut("v")], "int")
def _(c):
    ok = And(c.row >= 0, c.row < c.mat.rows, c.col >= 0, c.col < c.mat.cols)
    yield "status", eq(c.ret, If(ok, 0, -1))
    yield "element", Implies(ok, eq(c.out("v"), c.mat[c.row, c.col]))


@contract("isl_mat_get_element_val", P, [KMat("mat"), Int("row", pool=POS), Int("col", pool=POS)], "val")
def _(c):
    ok = And(c.row >= 0, c.row < c.mat.rows, c.col >= 0, c.col < c.mat.cols)
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "element", And(eq(c.ret.n, c.mat[c.row, c.col]), eq(c.ret.d, 1))


def _set(name, params, val, dom=lambda c: True):
    @contract(name, P, [Mat("mat"), Int("row", pool=POS), Int("col", pool=POS)] + params, "mat")
    def _(c):
        m = c.mat
        ok = And(c.row >= 0, c.row < m.rows, c.col >= 0, c.col < m.cols, dom(c))
        yield from partial(c, ok, m.rows, m.cols, lambda i, j: If(And(eq(i, c.row), eq(j, c.col)), val(c), m[i, j]))


_set("isl_mat_set_element", [Z("v")], lambda c: c.v)
_set("isl_mat_set_element_si", [Int("v")], lambda c: c.v)
_set("isl_mat_set_element_val", [Val("v")], lambda c: c.v.n, lambda c: eq(c.v.d, 1))


@contract("isl_mat_diag", P, [Ctx("ctx"), UInt("n_row"), Z("d")], "mat")
def _(c):
    yield from is_mat(c.ret, c.n_row, c.n_row, lambda i, j: If(eq(i, j), c.d, 0))


@contract("isl_mat_zero", P, [Ctx("ctx"), UInt("n_row"), UInt("n_col")], "mat")
def _(c):
    yield from is_mat(c.ret, c.n_row, c.n_col, lambda i, j: 0)


@contract("isl_mat_identity", P, [Ctx("ctx"), UInt("n_row")], "mat")
def _(c):
    yield from is_mat(c.ret, c.n_row, c.n_row, lambda i, j: If(eq(i, j), 1, 0))


@contract("isl_mat_lin_to_aff", P, [Mat("mat")], "mat")
def _(c):
    m = c.mat
    yield from is_mat(c.ret, m.rows + 1, m.cols + 1,
                      lambda i, j: If(And(eq(i, 0), eq(j, 0)), 1, If(Or(eq(i, 0), eq(j, 0)), 0, m[i - 1, j - 1])))


@contract("isl_mat_diagonal", P, [Mat("mat1"), Mat("mat2")], "mat", alias=[("mat1", "mat2")])
def _(c):
    a, b = c.mat1, c.mat2
    yield from is_mat(c.ret, a.rows + b.rows, a.cols + b.cols,
                      lambda i, j: If(And(i < a.rows, j < a.cols), a[i, j],
                                      If(And(i >= a.rows, j >= a.cols), b[i - a.rows, j - a.cols], 0)))


@contract("isl_mat_transpose", P, [Mat("mat")], "mat")
def _(c):
    m = c.mat
    yield from is_mat(c.ret, m.cols, m.rows, lambda i, j: m[j, i])


@contract("isl_mat_swap_cols", P, [Mat("mat"), UInt("i"), UInt("j")], "mat")
def _(c):
    m = c.mat
    ok = And(c.i < m.cols, c.j < m.cols)
    yield from partial(c, ok, m.rows, m.cols, lambda x, y: m[x, If(eq(y, c.i), c.j, If(eq(y, c.j), c.i, y))])


@contract("isl_mat_swap_rows", P, [Mat("mat"), UInt("i"), UInt("j")], "mat")
def _(c):
    m = c.mat
    ok = And(c.i < m.rows, c.j < m.rows)
    yield from partial(c, ok, m.rows, m.cols, lambda x, y: m[If(eq(x, c.i), c.j, If(eq(x, c.j), c.i, x)), y])


@contract("isl_mat_drop_cols", P, [Mat("mat"), UInt("col"), UInt("n")], "mat")
def _(c):
    m = c.mat
    ok = Or(eq(c.n, 0), c.col + c.n <= m.cols)
    yield from partial(c, ok, m.rows, m.cols - c.n, lambda i, j: m[i, If(Or(eq(c.n, 0), j < c.col), j, j + c.n)])


@contract("isl_mat_drop_rows", P, [Mat("mat"), UInt("row"), UInt("n")], "mat")
def _(c):
    m = c.mat
    ok = c.row + c.n <= m.rows
    yield from partial(c, ok, m.rows - c.n, m.cols, lambda i, j: m[If(i < c.row, i, i + c.n), j])


def _ins(name, params, col, pos, n, zero):
    @contract(name, P, [Mat("mat")] + params, "mat")
    def _(c):
        m = c.mat
        p, k = pos(c), n(c)
        ok = p <= (m.cols if col else m.rows)
        if c.ret is None:
            yield "rejected only outside of the domain", Not(ok)
            return
        yield "rejected outside of the domain", ok
        if not isz(ok) and not ok:
            return
        yield "number of rows", Implies(ok, eq(c.ret.rows, m.rows if col else m.rows + k))
        yield "number of columns", Implies(ok, eq(c.ret.cols, m.cols + k if col else m.cols))
        if col:
            yield "entries before", forall(0, m.rows, lambda i: imp(ok, forall(0, p, lambda j: eq(c.ret[i, j], m[i, j]))))
            yield "entries after", forall(0, m.rows, lambda i: imp(ok, forall(p, m.cols, lambda j: eq(c.ret[i, j + k], m[i, j]))))
            if zero:
                yield "new entries", forall(0, m.rows, lambda i: imp(ok, forall(p, p + k, lambda j: eq(c.ret[i, j], 0))))
        else:
            yield "entries before", forall(0, p, lambda i: imp(ok, forall(0, m.cols, lambda j: eq(c.ret[i, j], m[i, j]))))
            yield "entries after", forall(p, m.rows, lambda i: imp(ok, forall(0, m.cols, lambda j: eq(c.ret[i + k, j], m[i, j]))))
            if zero:
                yield "new entries", forall(p, p + k, lambda i: imp(ok, forall(0, m.cols, lambda j: eq(c.ret[i, j], 0))))


_pn = [UInt("pos"), UInt("n")]
_ins("isl_mat_insert_cols", _pn, True, lambda c: c.pos, lambda c: c.n, False)
_ins("isl_mat_insert_zero_cols", _pn, True, lambda c: c.pos, lambda c: c.n, True)
_ins("isl_mat_add_zero_cols", [UInt("n")], True, lambda c: c.mat.cols, lambda c: c.n, True)
_ins("isl_mat_insert_rows", _pn, False, lambda c: c.pos, lambda c: c.n, False)
_ins("isl_mat_add_rows", [UInt("n")], False, lambda c: c.mat.rows, lambda c: c.n, False)
_ins("isl_mat_insert_zero_rows", _pn, False, lambda c: c.pos, lambda c: c.n, True)
_ins("isl_mat_add_zero_rows", [UInt("n")], False, lambda c: c.mat.rows, lambda c: c.n, True)


@contract("isl_mat_move_cols", P, [Mat("mat"), UInt("dst"), UInt("src"), UInt("n")], "mat",
          pre=lambda a: And(a.dst + a.n <= a.mat.cols, a.src + a.n <= a.mat.cols))
def _(c):
    d, s, n, m = c.dst, c.src, c.n, c.mat

    def at(i, j):
        inside = And(j >= d, j < d + n)
        return m[i, If(inside, j - d + s, If(And(j < s, j < d), j, If(And(j >= s + n, j >= d + n), j, If(d < s, j - n, j + n))))]
    yield from is_mat(c.ret, m.rows, m.cols, at)


# in place column operations on a matrix that the caller owns exclusively
def _col(name, params, pre, f, unch="mat"):
    @contract(name, P, [KMat("mat", inplace=True)] + params, pre=pre)
    def _(c):
        m = c.mat
        yield from is_mat(c.out("mat"), m.rows, m.cols, lambda i, j: f(c, i, j))


_two = [Int("dst", pool=POS), Z("f"), Int("src", pool=POS)]
_ok2 = lambda a: And(a.dst >= 0, a.dst < a.mat.cols, a.src >= 0, a.src < a.mat.cols)
_col("isl_mat_col_submul", _two, _ok2, lambda c, i, j: If(eq(j, c.dst), c.mat[i, j] - c.f * c.mat[i, c.src], c.mat[i, j]))
_col("isl_mat_col_mul", _two, _ok2, lambda c, i, j: If(eq(j, c.dst), c.f * c.mat[i, c.src], c.mat[i, j]))
_col("isl_mat_col_add", [Int("dst", pool=POS), Int("src", pool=POS)], _ok2,
     lambda c, i, j: If(eq(j, c.dst), c.mat[i, j] + c.mat[i, c.src], c.mat[i, j]))
_col("isl_mat_col_scale", [UInt("dst"), Z("f")], lambda a: a.dst < a.mat.cols,
     lambda c, i, j: If(eq(j, c.dst), c.mat[i, j] * c.f, c.mat[i, j]))
_col("isl_mat_col_combine", [UInt("dst"), Z("m1"), UInt("src1"), Z("m2"), UInt("src2")],
     lambda a: And(a.dst < a.mat.cols, a.src1 < a.mat.cols, a.src2 < a.mat.cols),
     lambda c, i, j: If(eq(j, c.dst), c.m1 * c.mat[i, c.src1] + c.m2 * c.mat[i, c.src2], c.mat[i, j]))


@contract("isl_mat_col_addmul", P, [Mat("mat")] + _two, "mat")
def _(c):
    m = c.mat
    ok = And(c.dst >= 0, c.dst < m.cols, c.src >= 0, c.src < m.cols)
    yield from partial(c, ok, m.rows, m.cols, lambda i, j: If(eq(j, c.dst), m[i, j] + c.f * m[i, c.src], m[i, j]))


@contract("isl_mat_col_neg", P, [Mat("mat"), Int("col", pool=POS)], "mat")
def _(c):
    m = c.mat
    ok = And(c.col >= 0, c.col < m.cols)
    yield from partial(c, ok, m.rows, m.cols, lambda i, j: If(eq(j, c.col), -m[i, j], m[i, j]))


@contract("isl_mat_row_neg", P, [Mat("mat"), Int("row", pool=POS)], "mat")
def _(c):
    m = c.mat
    ok = And(c.row >= 0, c.row < m.rows)
    yield from partial(c, ok, m.rows, m.cols, lambda i, j: If(eq(i, c.row), -m[i, j], m[i, j]))


@contract("isl_mat_concat", P, [Mat("top"), Mat("bot")], "mat", alias=[("top", "bot")])
def _(c):
    a, b = c.top, c.bot
    yield from partial(c, eq(a.cols, b.cols), a.rows + b.rows, a.cols, lambda i, j: If(i < a.rows, a[i, j], b[i - a.rows, j]))


@contract("isl_mat_vec_concat", P, [Mat("top"), Vec("bot")], "mat")
def _(c):
    a, b = c.top, c.bot
    yield from partial(c, eq(a.cols, b.n), a.rows + 1, a.cols, lambda i, j: If(i < a.rows, a[i, j], b[j]))


@contract("isl_mat_from_row_vec", P, [Vec("vec")], "mat")
def _(c):
    yield from is_mat(c.ret, 1, c.vec.n, lambda i, j: c.vec[j])


@contract("isl_mat_get_row", P, [KMat("mat"), UInt("row")], "vec")
def _(c):
    ok = c.row < c.mat.rows
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "size", eq(c.ret.n, c.mat.cols)
    yield "elements", imp(ok, forall(0, c.mat.cols, lambda j: eq(c.ret[j], c.mat[c.row, j])))


@contract("isl_mat_scale", P, [Mat("mat"), Z("m")], "mat")
def _(c):
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols, lambda i, j: c.m * c.mat[i, j])


def _divm(a):
    m = a.mat
    return [ne(a.m, 0), forall(0, m.rows, lambda i: forall(0, m.cols, lambda j: eq(m[i, j], a.m * fdiv(m[i, j], a.m))))]


def _genscale(rng):
    r, k, f = rng.randint(0, 3), rng.randint(0, 3), rng.choice((1, -1, 2, -3, 10 ** 19))
    return dict(mat=[k, r, k, [[f * rng.randint(-5, 5) for _ in range(k)] for _ in range(r)]], m=f)


@contract("isl_mat_scale_down", P, [Mat("mat"), Z("m")], "mat", pre=_divm, gen=_genscale)
def _(c):
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols, lambda i, j: fdiv(c.mat[i, j], c.m))


@contract("isl_mat_scale_down_row", P, [Mat("mat"), Int("row", pool=[0, 1, 2]), Z("m")], "mat", gen=lambda rng: _gensr(rng),
          pre=lambda a: [ne(a.m, 0), a.row >= 0, a.row < a.mat.rows,
                         forall(0, a.mat.cols, lambda j: eq(a.mat[a.row, j], a.m * fdiv(a.mat[a.row, j], a.m)))])
def _(c):
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols,
                      lambda i, j: If(eq(i, c.row), fdiv(c.mat[i, j], c.m), c.mat[i, j]))


def _gensr(rng):
    d = _genscale(rng)
    m = d["mat"]
    d["row"] = rng.randint(0, max(0, m[1] - 1))
    for i in range(m[1]):
        if i != d["row"]:
            m[3][i] = [rng.randint(-5, 5) for _ in m[3][i]]
    return d


@contract("isl_mat_is_equal", P, [KMat("mat1"), KMat("mat2")], "bool", alias=[("mat1", "mat2")], gen=lambda rng: _geneq(rng))
def _(c):
    a, b = c.mat1, c.mat2
    yield "boolean", Or(eq(c.ret, 0), eq(c.ret, 1))
    yield "if dimensions", Implies(eq(c.ret, 1), And(eq(a.rows, b.rows), eq(a.cols, b.cols)))
    yield "if", forall(0, a.rows, lambda i: imp(eq(c.ret, 1), forall(0, a.cols, lambda j: eq(a[i, j], b[i, j]))))
    yield "only if", imp(And(eq(c.ret, 0), eq(a.rows, b.rows), eq(a.cols, b.cols)),
                         exists([a.rows, a.cols], lambda i, j: ne(a[i, j], b[i, j])))


def _geneq(rng):
    r, k = rng.randint(0, 3), rng.randint(0, 3)
    l = [[rng.randint(-2, 2) for _ in range(k)] for _ in range(r)]
    l2 = [list(x) for x in l]
    r2, k2 = r, k
    z = rng.randrange(4)
    if z == 1 and r and k:
        l2[rng.randrange(r)][rng.randrange(k)] += rng.choice((1, -1))
    elif z == 2:
        r2, k2 = rng.randint(0, 3), rng.randint(0, 3)
        l2 = [[rng.randint(-1, 1) for _ in range(k2)] for _ in range(r2)]
    return dict(mat1=[k, r, k, l], mat2=[k2 + rng.randint(0, 1), r2, k2, l2])


@contract("isl_mat_is_scaled_identity", P, [KMat("mat")], "bool", gen=lambda rng: _genid(rng))
def _(c):
    m = c.mat
    yield "boolean", Or(eq(c.ret, 0), eq(c.ret, 1))
    yield "if", And(Implies(eq(c.ret, 1), eq(m.rows, m.cols)))
    want = lambda i, j: eq(m[i, j], If(eq(i, j), m[0, 0], 0))
    yield "entries", forall(0, m.rows, lambda i: imp(eq(c.ret, 1), forall(0, m.cols, lambda j: want(i, j))))
    yield "only if", imp(And(eq(c.ret, 0), eq(m.rows, m.cols)), exists([m.rows, m.cols], lambda i, j: Not(want(i, j))))


def _genid(rng):
    r = rng.randint(0, 4)
    d = rng.choice((0, 1, -1, 3))
    l = [[d if i == j else 0 for j in range(r)] for i in range(r)]
    k = r
    if rng.random() < 0.4 and r:
        l[rng.randrange(r)][rng.randrange(r)] += rng.choice((1, -1))
    if rng.random() < 0.2:
        k = r + 1
        l = [x + [0] for x in l]
    return dict(mat=[k, r, k, l])


# ---------------------------------------------------------------- products
def mul(a, b):
    return [[sum(x * y for x, y in zip(r, k)) for k in zip(*b)] if b and b[0] else [0] * (len(b[0]) if b else 0) for r in a]


_sq = dict(rows=lambda a: a.left.cols if hasattr(a, "left") else 2)


def _ghp(a):
    return []


@contract("isl_mat_product", P, [Mat("left"), Mat("right")], "mat", bounded_only=True, gen=lambda rng: _genprod(rng))
def _(c):
    a, b = c.left, c.right
    yield from partial(c, a.cols == b.rows, a.rows, b.cols, lambda i, j: sum(a[i, k] * b[k, j] for k in range(a.cols)))


def _rnd(rng, r, k, lo=-4, hi=4):
    return [[rng.choice((0, rng.randint(lo, hi))) for _ in range(k)] for _ in range(r)]


def _genprod(rng):
    r, k, n = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)
    k2 = k if rng.random() < 0.9 else k + 1
    return dict(left=[k + rng.randint(0, 1), r, k, _rnd(rng, r, k)], right=[n, k2, n, _rnd(rng, k2, n)])


_mv = lambda a: lambda n, v, i: v + a.mat[i, n] * a.vec[n]
_vm = lambda a: lambda n, v, j: v + a.vec[n] * a.mat[n, j]


@contract("isl_mat_vec_product", P, [Mat("mat"), Vec("vec")], "vec", gen=lambda rng: _genmv(rng, 0),
          ghosts=lambda a: [mkghost("mv", 0, _mv(a), 1)])
def _(c):
    m, v = c.mat, c.vec
    if c.ret is None:
        yield "rejected only outside of the domain", ne(m.cols, v.n)
        return
    yield "rejected outside of the domain", eq(m.cols, v.n)
    yield "size", eq(c.ret.n, m.rows)
    yield "elements", forall(0, m.rows, lambda i: eq(c.ret[i], reduce(c, "mv", 0, _mv(c), v.n, i)))


@contract("isl_vec_mat_product", P, [Vec("vec"), Mat("mat")], "vec", gen=lambda rng: _genmv(rng, 1),
          ghosts=lambda a: [mkghost("vm", 0, _vm(a), 1)])
def _(c):
    m, v = c.mat, c.vec
    if c.ret is None:
        yield "rejected only outside of the domain", ne(m.rows, v.n)
        return
    yield "rejected outside of the domain", eq(m.rows, v.n)
    yield "size", eq(c.ret.n, m.cols)
    yield "elements", forall(0, m.cols, lambda j: eq(c.ret[j], reduce(c, "vm", 0, _vm(c), v.n, j)))


def _genmv(rng, w):
    r, k = rng.randint(0, 3), rng.randint(0, 3)
    n = (k, r)[w] + (rng.random() < 0.1)
    return dict(mat=[k, r, k, _rnd(rng, r, k)], vec=[0] + [rng.randint(-4, 4) for _ in range(n)])


# ---------------------------------------------------------------- linear algebra (bounded)
from fractions import Fraction


def rank(l):
    m = [[Fraction(x) for x in r] for r in l]
    rk = 0
    cols = len(m[0]) if m else 0
    for c in range(cols):
        p = next((i for i in range(rk, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[rk], m[p] = m[p], m[rk]
        for i in range(len(m)):
            if i != rk and m[i][c]:
                f = m[i][c] / m[rk][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[rk])]
        rk += 1
    return rk


def det(l):
    m = [[Fraction(x) for x in r] for r in l]
    d = Fraction(1)
    n = len(m)
    for c in range(n):
        p = next((i for i in range(c, n) if m[i][c]), None)
        if p is None:
            return Fraction(0)
        if p != c:
            m[c], m[p] = m[p], m[c]
            d = -d
        d *= m[c][c]
        for i in range(c + 1, n):
            f = m[i][c] / m[c][c]
            m[i] = [x - f * y for x, y in zip(m[i], m[c])]
    return d


def _g(rng, r=(0, 4), k=(0, 4)):
    a, b = rng.randint(*r), rng.randint(*k)
    l = _rnd(rng, a, b, -6, 6)
    if a >= 2 and rng.random() < 0.3:
        l[-1] = [x + 2 * y for x, y in zip(l[0], l[-2])] if a > 2 else [2 * x for x in l[0]]
    return [b + rng.randint(0, 1), a, b, l]


@contract("isl_mat_left_hermite", P, [Mat("M"), Int("neg", pool=[0, 1]), MatOut("U"), MatOut("Q")], "mat", bounded_only=True,
          gen=lambda rng: dict(M=_g(rng)))
def _(c):
    M, U, Q, H = c.M, c.out("U"), c.out("Q"), c.ret
    if H is None or U is None or Q is None:
        yield "results exist", False
        return
    n = M.cols
    yield "dimensions", (H.rows, H.cols, U.rows, U.cols, Q.rows, Q.cols) == (M.rows, n, n, n, n, n)
    yield "U unimodular", abs(det(U.l)) == 1
    yield "U and Q inverse", mul(U.l, Q.l) == [[int(i == j) for j in range(n)] for i in range(n)]
    yield "M U = H", mul(M.l, U.l) == H.l if n else True
    col = 0
    ok = True
    for r in range(M.rows):
        if any(H[r, j] for j in range(col + 1, n)):
            ok = False
        if col < n and H[r, col]:
            p = H[r, col]
            ok &= p > 0
            for j in range(col):
                ok &= (-p < H[r, j] <= 0) if c.neg else (0 <= H[r, j] < p)
            col += 1
    yield "column echelon form", ok


@contract("isl_mat_rank", P, [KMat("mat")], "size", bounded_only=True, gen=lambda rng: dict(mat=_g(rng)))
def _(c):
    yield "rank", c.ret == rank(c.mat.l)


@contract("isl_mat_right_kernel", P, [Mat("mat")], "mat", bounded_only=True, gen=lambda rng: dict(mat=_g(rng)))
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    M, K = c.mat, c.ret
    yield "dimensions", (K.rows, K.cols) == (M.cols, M.cols - rank(M.l))
    yield "in the kernel", all(x == 0 for r in mul(M.l, K.l) for x in r)
    yield "independent", rank(K.l) == K.cols


@contract("isl_mat_right_inverse", P, [Mat("mat")], "mat", bounded_only=True, gen=lambda rng: dict(mat=_g(rng, (1, 3), (1, 4))),
          pre=lambda a: rank(a.mat.l) == a.mat.rows)
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    M, I = c.mat, c.ret
    p = mul(M.l, I.l)
    d = p[0][0]
    yield "scaled inverse", d > 0 and all(p[i][j] == (d if i == j else 0) for i in range(M.rows) for j in range(M.rows))


@contract("isl_mat_inverse_product", P, [Mat("left"), Mat("right")], "mat", bounded_only=True, gen=lambda rng: _genip(rng),
          pre=lambda a: a.left.rows == a.left.cols == a.right.rows and det(a.left.l) != 0)
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    L, R, X = c.left, c.right, c.ret
    yield "dimensions", (X.rows, X.cols) == (R.rows, R.cols)
    p = mul(L.l, X.l)
    f = {Fraction(p[i][j], R[i, j]) for i in range(R.rows) for j in range(R.cols) if R[i, j]}
    yield "scaled solution", len(f) <= 1 and all(p[i][j] == 0 for i in range(R.rows) for j in range(R.cols) if not R[i, j]) \
        and all(x != 0 for x in f)


def _genip(rng):
    n, k = rng.randint(1, 3), rng.randint(1, 3)
    return dict(left=[n, n, n, [[rng.randint(-4, 4) for _ in range(n)] for _ in range(n)]], right=[k, n, k, _rnd(rng, n, k)])


@contract("isl_mat_reverse_gauss", P, [Mat("mat")], "mat", bounded_only=True, gen=lambda rng: dict(mat=_g(rng)))
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    M, R = c.mat, c.ret
    yield "rank", R.rows == rank(M.l) and rank(R.l) == R.rows
    yield "same row space", rank(M.l + R.l) == R.rows


@contract("isl_mat_row_basis", P, [Mat("mat")], "mat", bounded_only=True, gen=lambda rng: dict(mat=_g(rng)))
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    yield "basis", c.ret.rows == rank(c.mat.l) == rank(c.ret.l) == rank(c.mat.l + c.ret.l)


@contract("isl_mat_row_basis_extension", P, [Mat("mat1"), Mat("mat2")], "mat", bounded_only=True, gen=lambda rng: _genbe(rng))
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    a, b, r = c.mat1.l, c.mat2.l, c.ret.l
    yield "basis extension", len(r) == rank(a + b) - rank(a) and rank(a + r) == rank(a + b) == rank(a + b + r)


def _genbe(rng):
    a = _g(rng, (0, 3), (1, 4))
    b = _g(rng, (0, 3), (a[2], a[2]))
    if rng.random() < 0.3 and a[1] and b[1]:
        b[3][0] = [3 * x for x in a[3][0]]
    return dict(mat1=a, mat2=b)


@contract("isl_mat_has_linearly_independent_rows", P, [KMat("mat1"), KMat("mat2")], "bool", bounded_only=True,
          gen=lambda rng: _genbe(rng))
def _(c):
    a, b = c.mat1.l, c.mat2.l
    yield "truth value", c.ret == int(rank(a + b) == rank(a) + rank(b))


@contract("isl_mat_unimodular_complete", P, [Mat("M"), Int("row", pool=[0, 1, 2])], "mat", bounded_only=True,
          gen=lambda rng: _genuc(rng))
def _(c):
    if c.ret is None:
        yield "result exists", False
        return
    M, R = c.M, c.ret
    yield "given rows", R.l[:c.row] == M.l[:c.row]
    yield "unimodular", R.rows == R.cols == M.cols and abs(det(R.l)) == 1


def _genuc(rng):
    n = rng.randint(1, 4)
    l = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(5):
        i, j = rng.randrange(n), rng.randrange(n)
        if i != j:
            f = rng.choice((1, -1, 2))
            l[i] = [x + f * y for x, y in zip(l[i], l[j])]
    row = rng.randint(0, n)
    for i in range(row, n):
        l[i] = [rng.randint(-3, 3) for _ in range(n)]
    return dict(M=[n, n, n, l], row=row)


@contract("isl_mat_lexnonneg_rows", P, [Mat("mat")], "mat", bounded_only=True, gen=lambda rng: dict(mat=_g(rng)))
def _(c):
    m = c.mat
    w = []
    for r in m.l:
        f = next((x for x in r if x), 0)
        w.append([-x for x in r] if f < 0 else list(r))
    yield "entries", c.ret is not None and c.ret.l == w


def _allg(a):
    rows = RowsGcd(a.mat)
    return [rows, AllGcd(rows, a.mat.cols, a.mat.rows)]


def _allgcd(c):
    if hasattr(c, "_E") and c._E is not None and c._E.ex.ghosts:
        return reduce(c, "gcm", 0, None, c.mat.rows)
    g = 0
    for i in range(c.mat.rows):
        for j in range(c.mat.cols):
            g = gcd(g, c.mat[i, j])
    return g


@contract("isl_mat_gcd", P, [KMat("mat"), ZOut("gcd")], ghosts=_allg)
def _(c):
    yield "greatest common divisor", eq(c.out("gcd"), _allgcd(c))


class Row:
    """row "i" of matrix "m" as a sequence"""

    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, j):
        return self.m[self.i, j]


def _rowg(a):
    return [GcdGhost(Row(a.mat, a.row))]


def _rowgcd(c):
    return reduce(c, "gc", 0, lambda n, v: gcd(v, c.mat[c.row, n]), c.mat.cols)


@contract("isl_mat_row_gcd", P, [KMat("mat"), Int("row", pool=POS), ZOut("gcd")], "stat", ghosts=_rowg)
def _(c):
    ok = And(c.row >= 0, c.row < c.mat.rows)
    yield "status", eq(c.ret, If(ok, 0, -1))
    if isz(ok) or ok:
        yield "greatest common divisor", Implies(ok, eq(c.out("gcd"), _rowgcd(c)))


@contract("isl_mat_normalize", P, [Mat("mat")], "mat", ghosts=_allg)
def _(c):
    g = _allgcd(c)
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols, lambda i, j: If(eq(g, 0), c.mat[i, j], fdiv(c.mat[i, j], If(eq(g, 0), 1, g))))


@contract("isl_mat_normalize_row", P, [Mat("mat"), Int("row", pool=[0, 1, 2])], "mat", ghosts=_rowg,
          pre=lambda a: And(a.row >= 0, a.row < a.mat.rows))
def _(c):
    g = _rowgcd(c)
    yield from is_mat(c.ret, c.mat.rows, c.mat.cols,
                      lambda i, j: If(And(eq(i, c.row), ne(g, 0)), fdiv(c.mat[i, j], If(eq(g, 0), 1, g)), c.mat[i, j]))



@contract("isl_mat_initial_non_zero_cols", P, [KMat("mat")], "int", bounded_only=True)
def _(c):
    k = 0
    while k < c.mat.cols and any(c.mat[i, k] for i in range(c.mat.rows)):
        k += 1
    yield "number of columns", c.ret == k


@contract("isl_mat_aff_direct_sum", P, [Mat("left"), Mat("right")], "mat", alias=[("left", "right")], bounded_only=True, gen=lambda rng: _gends(rng))
def _(c):
    from math import lcm
    a, b = c.left, c.right
    if c.ret is None:
        yield "result exists", False
        return
    d = lcm(a[0, 0], b[0, 0])
    fa, fb = d // a[0, 0], d // b[0, 0]
    w = [[d] + [0] * (a.cols + b.cols - 2)]
    for i in range(1, a.rows):
        w.append([fa * a[i, 0] + fb * b[i, 0]] + [fa * x for x in a.l[i][1:]] + [fb * x for x in b.l[i][1:]])
    yield "entries", c.ret.l == w


def _gends(rng):
    r, k, n = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    f = lambda w: [w, r, w, [[rng.choice((1, 2, 3, 4))] + [0] * (w - 1)] + [[rng.randint(-3, 3) for _ in range(w)] for _ in range(r - 1)]]
    return dict(left=f(k), right=f(n))
