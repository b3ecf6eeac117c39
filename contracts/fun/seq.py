"""C07: element-wise operations on coefficient sequences"""
from contract import contract, Seq, Z, ZOut, Int, UInt, Ctx, forall, imp, FA
from term import If, And, Or, Not, Implies, Iff, eq, ne, gcd, lcm, fdiv, cdiv, fmod, divides, sgn, Abs, isz
import z3
import term as T

P = "C07"
LEN = lambda a: a.len


def untouched(c, name, old):
    """nothing but [0,len) exists in the sequence, so writes elsewhere are bounds failures"""
    return forall(0, c.len, lambda j: eq(c.out(name)[j], old[j]))


def elementwise(name, params, f, keep=(), alias=(), dst="dst", pre=None):
    @contract(name, P, params, alias=alias, pre=pre)
    def _(c):
        yield "elements", forall(0, c.len, lambda j: eq(c.out(dst)[j], f(c, j)))
        for k in keep:
            if k not in getattr(c, "_aliased", ()):
                yield "%s unchanged" % k, untouched(c, k, getattr(c, k))


S = lambda n: Seq(n, len=LEN)
elementwise("isl_seq_clr", [S("p"), UInt("len")], lambda c, j: 0, dst="p")
elementwise("isl_seq_set_si", [S("p"), Int("v"), UInt("len")], lambda c, j: c.v, dst="p")
elementwise("isl_seq_set", [S("p"), Z("v"), UInt("len")], lambda c, j: c.v, dst="p")
A = [("dst", "src")]
elementwise("isl_seq_neg", [S("dst"), S("src"), UInt("len")], lambda c, j: -c.src[j], ["src"], [("dst", "src")])
elementwise("isl_seq_cpy", [S("dst"), S("src"), UInt("len")], lambda c, j: c.src[j], ["src"], [("dst", "src")])
elementwise("isl_seq_swp_or_cpy", [S("dst"), S("src"), UInt("len")], lambda c, j: c.src[j])
elementwise("isl_seq_addmul", [S("dst"), Z("f"), S("src"), UInt("len")], lambda c, j: c.dst[j] + c.f * c.src[j], ["src"])
elementwise("isl_seq_submul", [S("dst"), Z("f"), S("src"), UInt("len")], lambda c, j: c.dst[j] - c.f * c.src[j], ["src"])
elementwise("isl_seq_scale", [S("dst"), S("src"), Z("f"), UInt("len")], lambda c, j: c.src[j] * c.f, ["src"], A)
nz = lambda c: ne(c.m, 0)
elementwise("isl_seq_cdiv_q", [S("dst"), S("src"), Z("m"), UInt("len")], lambda c, j: cdiv(c.src[j], c.m), ["src"], A, pre=nz)
elementwise("isl_seq_fdiv_q", [S("dst"), S("src"), Z("m"), UInt("len")], lambda c, j: fdiv(c.src[j], c.m), ["src"], A, pre=nz)
elementwise("isl_seq_fdiv_r", [S("dst"), S("src"), Z("m"), UInt("len")], lambda c, j: fmod(c.src[j], c.m), ["src"], A, pre=nz)
elementwise("isl_seq_combine", [S("dst"), Z("m1"), S("src1"), Z("m2"), S("src2"), UInt("len")],
            lambda c, j: c.m1 * c.src1[j] + c.m2 * c.src2[j], ["src1", "src2"],
            [("dst", "src1"), ("dst", "src2"), ("src1", "src2")])


def dvd_all(m, p, n):
    return forall(0, n, lambda j: eq(p[j], m * fdiv(p[j], m)))


@contract("isl_seq_scale_down", P, [S("dst"), S("src"), Z("f"), UInt("len")], alias=A,
          pre=lambda a: [ne(a.f, 0), dvd_all(a.f, a.src, a.len)])
def _(c):
    yield "elements", forall(0, c.len, lambda j: And(eq(c.out("dst")[j] * c.f, c.src[j]), eq(c.out("dst")[j], fdiv(c.src[j], c.f))))


# ------------------------------------------------------------- reductions
class Ghost:
    """recursively defined function g(ps, 0), g(ps, n+1) = step(n, g(ps, n), ps)"""
    cnt = 0

    def __init__(self, init, step, np=0):
        Ghost.cnt += 1
        self.np = np
        self.f = z3.Function("ghost%d" % Ghost.cnt, *([T.INT] * (np + 2)))
        self.init, self.step = init, step

    def at(self, n, *ps):
        return self.f(*[x if isz(x) else z3.IntVal(x) for x in ps + (n,)])

    def inst(self, ps):
        return Inst(self, ps)

    def facts(self, ts):
        return self.definition(ts)

    def definition(self, ts):
        out = []
        if not self.np:
            out.append(eq(self.at(0), self.init))
        seen = set()
        for a in T.apps(ts):
            if a.decl().name() == self.f.name():
                ps = tuple(a.arg(i) for i in range(self.np))
                if self.np:
                    out.append(eq(self.at(0, *ps), self.init))
                n = a.arg(self.np)
                for m in (n, n - 1):
                    m = z3.simplify(m)
                    if (ps, m.get_id()) in seen:
                        continue
                    seen.add((ps, m.get_id()))
                    out.append(z3.Implies(m >= 0, self.at(z3.simplify(m + 1), *ps) == self.step(m, self.at(m, *ps), *ps)))
        return [x for x in out if isz(x)]


class Inst:
    def __init__(self, g, ps):
        self.g, self.ps = g, ps

    def at(self, n):
        return self.g.at(n, *self.ps)


def reduce(c, key, init, step, n, *ps):
    """value of the recursion after n elements"""
    if hasattr(c, "_E") and c._E is not None and c._E.ex.ghosts:
        for g in c._E.ex.ghosts:
            if g.key == key:
                return g.at(n, *ps)
    v = init
    for i in range(n):
        v = step(i, v, *ps)
    return v


def mkghost(key, init, step, np=0):
    g = Ghost(init, step, np)
    g.key = key
    return g


class Elems:
    """the symbol of the elements of a sequence, to find the elements that occur in a query"""

    def __init__(self, v, *ps):
        x = z3.Int("any")
        t = v(*(ps + (x,)))
        self.decl = t.decl()
        for i in range(t.num_args()):
            d = z3.simplify(t.arg(i) - x)
            if not any(y.eq(x) for y in consts(d)):
                self.pos, self.off = i, d
                break
        else:
            raise ValueError("elements")

    def at(self, ts):
        out = []
        for a in T.apps(ts):
            if a.decl().eq(self.decl):
                j = z3.simplify(a.arg(self.pos) - self.off)
                if not any(j.eq(x) for x in out):
                    out.append(j)
        return out


def argsof(d, ts):
    out = []
    for a in T.apps(ts):
        if a.decl().eq(d) and not any(a.arg(0).eq(x) for x in out):
            out.append(a.arg(0))
    return out


class MinGhost(Ghost):
    """position of the first smallest absolute value of the non-zero elements among the first n, -1 if there is none"""

    def __init__(self, p):
        self.p = p
        self.el = Elems(lambda n: p[n])
        Ghost.__init__(self, -1, lambda n, v: If(And(ne(p[n], 0), Or(v < 0, Abs(p[n]) < Abs(p[v]))), n, v))
        self.key = "mn"

    def range(self, n):
        m = self.at(n)
        return z3.Implies(n >= 0, And(m >= -1, m < n, Implies(m >= 0, ne(self.p[m], 0))))

    def least(self, n, j):
        m = self.at(n)
        return z3.Implies(And(j >= 0, j < n), Or(eq(self.p[j], 0), And(m >= 0, Abs(self.p[m]) <= Abs(self.p[j]))))

    def facts(self, ts):
        out = Ghost.facts(self, ts)
        ns = argsof(self.f, list(ts) + out)
        js = self.el.at(ts)
        for n in ns:
            out.append(self.range(n))
            out += [self.least(n, j) for j in js if not j.eq(n)]
        return out

    def lemmas(self):
        n, j = z3.Ints("lem!n lem!j")
        yield "range (base)", [], self.range(z3.IntVal(0))
        yield "range (step)", [n >= 0, self.range(n)], self.range(n + 1)
        yield "least (base)", [], self.least(z3.IntVal(0), j)
        yield "least (step)", [n >= 0, self.range(n), self.least(n, j)], self.least(n + 1, j)


def assoc(a, b, c):
    """arithmetic lemma: gcd is associative and commutative and gcd(gcd(x, y), y) = gcd(x, y)"""
    g = T.GCD
    ts = [g(g(a, b), c), g(g(a, c), b), g(g(b, c), a), g(c, g(a, b)), g(b, g(a, c)), g(a, g(b, c))]
    ab = [g(g(x, y), y) == g(x, y) for x, y in ((a, b), (b, a), (a, c), (c, a), (b, c), (c, b))]
    return ab + [ts[0] == t for t in ts[1:]] + [g(a, b) == g(b, a), g(a, c) == g(c, a), g(b, c) == g(c, b)]


class GcdGhost(Ghost):
    """greatest common divisor of the first n elements"""

    def __init__(self, p):
        self.p = p
        self.el = Elems(lambda n: p[n])
        Ghost.__init__(self, 0, lambda n, v: gcd(v, p[n]))
        self.key = "gc"
        self.w = z3.Function("ghostw%d" % Ghost.cnt, T.INT, T.INT)
        self.starts = []

    def nonneg(self, n):
        return z3.Implies(n >= 0, self.at(n) >= 0)

    def div(self, n, j):
        return z3.Implies(And(j >= 0, j < n), gcd(self.at(n), self.p[j]) == self.at(n))

    def pre(self, n, k):
        return z3.Implies(And(k >= 0, k <= n), gcd(self.at(n), self.at(k)) == self.at(n))

    def zero(self, n, w):
        return Or(eq(self.at(n), 0), And(w >= 0, w < n, ne(self.p[w], 0)))

    def facts(self, ts):
        out = Ghost.facts(self, ts)
        ns = argsof(self.f, list(ts))
        js = self.el.at(ts)
        for n in ns:
            out.append(self.nonneg(n))
            out.append(z3.Implies(n >= 0, self.zero(n, self.w(n))))
            out += [self.div(n, j) for j in js]
            # arithmetic lemma: gcd(a, b) = a implies b = a * floor(b / a)
            out += [z3.Implies(And(j >= 0, j < n), eq(self.p[j], self.at(n) * T.FDQ(self.p[j], self.at(n)))) for j in js]
            out += [self.pre(n, k) for k in ns if not k.eq(n)]
        for v in self.starts:
            for k in ns:
                out += [z3.Implies(And(j >= 0, j < k, Or(v == self.p[j], v == -self.p[j])), gcd(self.at(k), v) == self.at(k))
                        for j in js]
                out += assoc(self.at(k), v, self.p[k])
                # arithmetic lemma: the sign of the arguments of gcd does not matter
                b = gcd(self.at(k), self.p[k])
                out.append(z3.Implies(Or(v == self.p[k], v == -self.p[k]), And(gcd(self.at(k), v) == b, gcd(b, v) == b)))
                for n in ns:
                    if not n.eq(k):
                        out += assoc(self.at(n), self.at(k), v)
        return out

    def start(self, v0):
        return GcdFrom(self, v0)

    def lemmas(self):
        n, j, k, w = z3.Ints("lem!n lem!j lem!k lem!w")
        z = z3.IntVal(0)
        g = self.at(n)
        pn = self.p[n]
        yield "not negative (base)", [], self.nonneg(z)
        yield "not negative (step)", [n >= 0], self.nonneg(n + 1)
        yield "divides (base)", [], self.div(z, j)
        yield "divides (step)", [n >= 0, self.nonneg(n), self.div(n, j)] + assoc(g, pn, self.p[j]) + assoc(g, pn, pn), self.div(n + 1, j)
        yield "prefix (base)", [], self.pre(z, k)
        yield "prefix (step)", [n >= 0, self.nonneg(n), self.pre(n, k), self.nonneg(n + 1)] + assoc(g, pn, self.at(k)), self.pre(n + 1, k)
        yield "zero (base)", [], self.zero(z, w)
        yield "zero (step)", [n >= 0, self.zero(n, w)], Or(self.zero(n + 1, w), self.zero(n + 1, n))


class RowsGcd(Ghost):
    """greatest common divisor of the first n elements of row i of a matrix"""

    def __init__(self, m):
        self.m = m
        Ghost.__init__(self, 0, lambda n, v, i: gcd(v, m[i, n]), 1)
        self.key = "gc"
        x, y = z3.Ints("any anyrow")
        self.el = Elems(lambda n: m[y, n])

    def p(self, i, j):
        return self.m[i, j]

    def nonneg(self, i, n):
        return z3.Implies(n >= 0, self.at(n, i) >= 0)

    def div(self, i, n, j):
        return z3.Implies(And(j >= 0, j < n), gcd(self.at(n, i), self.m[i, j]) == self.at(n, i))

    def facts(self, ts):
        out = self.definition(ts)
        ij = [(a.arg(0), a.arg(1)) for a in T.apps(ts) if a.decl().eq(self.f)]
        js = self.el.at(ts)
        for i, n in ij:
            out.append(self.nonneg(i, n))
            out += [self.div(i, n, j) for j in js]
        return out

    def lemmas(self):
        i, n, j = z3.Ints("lem!i lem!n lem!j")
        z = z3.IntVal(0)
        g, pn = self.at(n, i), self.m[i, n]
        yield "row: not negative (base)", [], self.nonneg(i, z)
        yield "row: not negative (step)", [n >= 0], self.nonneg(i, n + 1)
        yield "row: divides (base)", [], self.div(i, z, j)
        yield ("row: divides (step)", [n >= 0, self.nonneg(i, n), self.div(i, n, j)] + assoc(g, pn, self.m[i, j]) + assoc(g, pn, pn),
               self.div(i, n + 1, j))


class RowsSeq:
    """the sequence of the greatest common divisors of the rows"""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols

    def __getitem__(self, i):
        return self.rows.at(self.cols, i)


class AllGcd(GcdGhost):
    """greatest common divisor of the elements of the first n rows of a matrix"""

    def __init__(self, rows, cols, nrows):
        GcdGhost.__init__(self, RowsSeq(rows, cols))
        self.key = "gcm"
        self.rows, self.cols, self.nrows = rows, cols, nrows
        # m[i, j]: i is the first argument of the symbol of the rows
        self.eld = rows.el

    def elem(self, n, i, j):
        """lemma: the gcd of all rows divides each element"""
        g, e = self.at(n), self.rows.m[i, j]
        return z3.Implies(And(i >= 0, i < n, j >= 0, j < self.cols), gcd(g, e) == g)

    def facts(self, ts):
        out = GcdGhost.facts(self, ts)
        ns = argsof(self.f, list(ts))
        js = self.rows.el.at(ts)
        isx = [x for x in self.el.at(ts)]
        for a in T.apps(ts):
            if a.decl().eq(self.eld.decl) and a.num_args() == 2:
                for x in (a.arg(0), a.arg(0).arg(0) if a.arg(0).num_args() == 1 else None):
                    if x is not None and not any(x.eq(y) for y in isx):
                        isx.append(x)
        for n in ns:
            for i in isx:
                for j in js:
                    out.append(self.elem(n, i, j))
                    # arithmetic lemma: gcd(a, b) = a implies b = a * floor(b / a)
                    e = self.rows.m[i, j]
                    out.append(z3.Implies(gcd(self.at(n), e) == self.at(n), eq(e, self.at(n) * T.FDQ(e, self.at(n)))))
        return out

    def lemmas(self):
        yield from GcdGhost.lemmas(self)
        n, i, j = z3.Ints("lem!n lem!i lem!j")
        yield ("element", [self.div(n, i), self.rows.div(i, self.cols, j)] + assoc(self.at(n), self.rows.at(self.cols, i), self.rows.m[i, j]),
               self.elem(n, i, j))


class GcdFrom:
    """gcd of the value v0 and the first n elements"""

    def __init__(self, g, v0):
        self.g, self.v0 = g, v0 if isz(v0) else z3.IntVal(v0)
        if not any(x.eq(self.v0) for x in g.starts):
            g.starts.append(self.v0)

    def at(self, n):
        return gcd(self.g.at(n), self.v0)


def seqarg(ex, st, p):
    """function that gives the key of the j-th element of a sequence of big integers"""
    import sym
    from term import Poly
    if not isinstance(p, sym.Ptr) or p.o.lane != "Z":
        return None
    k, x = ex.index(st, p.o, p.off, 16)
    if k != "arr":
        return None
    return lambda j: x[:-1] + (x[-1] + Poly.of(j),)


def rowsof(g, v):
    """rows of the matrix that occur in a term"""
    out = []
    for a in T.apps([v]):
        if a.decl().eq(g.el.decl):
            out += [x for x in [a.arg(0)] + a.arg(0).children() if not any(x.eq(y) for y in out)]
    return out


def readall(ex, st, o, key, n):
    """obligation: elements 0..n-1 can be read; a term for an arbitrary one"""
    j = ex.fresh("at")
    s2 = st.copy()
    s2.pc += [j >= 0, j < n]
    return s2, j, ex.arr_get(s2, o, key(j))


def summaries():
    import sym

    @sym.summary("isl_seq_abs_min_non_zero")
    def _(ex, st, a):
        key = None if ex.ks or ex.logs else seqarg(ex, st, a[0])
        if key is None:
            return NotImplemented
        o, n = a[0].o, ex.intval(a[1])
        readall(ex, st, o, key, n)
        get = lambda j: ex.arr_get(st, o, key(j), log=False)
        r = ex.fresh("absmin")
        x = ex.fresh("x")
        st.pc += [r >= -1, r < n, Implies(r >= 0, ne(get(r), 0))]
        st.pc.append(sym.QF([(x, n)], Or(eq(get(x), 0), And(r >= 0, Abs(get(r)) <= Abs(get(x))))))
        return r

    @sym.summary("isl_seq_gcd")
    def _(ex, st, a):
        if not any(g.key == "gc" for g in ex.ghosts):
            return NotImplemented
        key = seqarg(ex, st, a[0])
        if key is None:
            return NotImplemented
        n = ex.intval(a[1])
        s2, j, v = readall(ex, st, a[0].o, key, n)
        for g in ex.ghosts:
            if g.key != "gc":
                continue
            if not g.np:
                if ex.check(s2.pc, eq(v, g.p[j])) == "ok":
                    ex.zset(st, a[2], g.at(n))
                    return None
                continue
            for i in rowsof(g, v):
                if ex.check(s2.pc, eq(v, g.p(i, j))) == "ok":
                    ex.zset(st, a[2], g.at(n, i))
                    return None
        return NotImplemented


summaries()
_ip = lambda a: lambda n, v: v + a.p1[n] * a.p2[n]


@contract("isl_seq_inner_product", P, [S("p1"), S("p2"), UInt("len"), ZOut("prod")], alias=[("p1", "p2")],
          ghosts=lambda a: [mkghost("ip", 0, _ip(a))])
def _(c):
    yield "sum of products", eq(c.out("prod"), reduce(c, "ip", 0, _ip(c), c.len))
    for k in ("p1", "p2"):
        yield "%s unchanged" % k, untouched(c, k, getattr(c, k))


_mx = lambda a: lambda n, v: If(Abs(a.p[n]) > v, Abs(a.p[n]), v)


@contract("isl_seq_abs_max", P, [S("p"), UInt("len"), ZOut("max")], ghosts=lambda a: [mkghost("mx", 0, _mx(a))])
def _(c):
    yield "largest absolute value", eq(c.out("max"), reduce(c, "mx", 0, _mx(c), c.len))
    yield "p unchanged", untouched(c, "p", c.p)


_gc = lambda a: lambda n, v: gcd(v, a.p[n])


@contract("isl_seq_gcd", P, [S("p"), UInt("len"), ZOut("gcd")], ghosts=lambda a: [GcdGhost(a.p)])
def _(c):
    yield "greatest common divisor", eq(c.out("gcd"), reduce(c, "gc", 0, _gc(c), c.len))
    yield "p unchanged", untouched(c, "p", c.p)


_lc = lambda a: lambda n, v: If(eq(n, 0), a.p[0], lcm(v, a.p[n]))


@contract("isl_seq_lcm", P, [S("p"), UInt("len"), ZOut("lcm")], ghosts=lambda a: [mkghost("lc", 1, _lc(a))])
def _(c):
    yield "least common multiple", eq(c.out("lcm"), reduce(c, "lc", 1, _lc(c), c.len))
    yield "p unchanged", untouched(c, "p", c.p)


@contract("isl_seq_normalize", P, [Ctx("ctx"), S("p"), UInt("len")], ghosts=lambda a: [GcdGhost(a.p)])
def _(c):
    g = reduce(c, "gc", 0, _gc(c), c.len)
    yield "elements", forall(0, c.len, lambda j: eq(c.out("p")[j] * If(eq(g, 0), 1, g), c.p[j]))


# ------------------------------------------------------------- searches
@contract("isl_seq_first_non_zero", P, [S("p"), UInt("len")], "int")
def _(c):
    r = c.ret
    yield "range", And(r >= -1, r < c.len)
    yield "non-zero", Implies(r >= 0, ne(c.p[If(r >= 0, r, 0)], 0)) if isz(r) or isz(c.len) or r >= 0 else True
    yield "all before are zero", forall(0, If(r >= 0, r, c.len), lambda j: eq(c.p[j], 0))
    yield "p unchanged", untouched(c, "p", c.p)


@contract("isl_seq_last_non_zero", P, [S("p"), UInt("len")], "int")
def _(c):
    r = c.ret
    yield "range", And(r >= -1, r < c.len)
    yield "non-zero", Implies(r >= 0, ne(c.p[If(r >= 0, r, 0)], 0)) if isz(r) or isz(c.len) or r >= 0 else True
    yield "all after are zero", forall(r + 1, c.len, lambda j: eq(c.p[j], 0))


@contract("isl_seq_abs_min_non_zero", P, [S("p"), UInt("len")], "int", ghosts=lambda a: [MinGhost(a.p)])
def _(c):
    r = c.ret
    yield "range", And(r >= -1, r < c.len)
    if isz(r) or isz(c.len) or r >= 0:
        k = If(r >= 0, r, 0)
        yield "non-zero", Implies(r >= 0, ne(c.p[k], 0))
        yield "smallest", imp(r >= 0, forall(0, c.len, lambda j: Or(eq(c.p[j], 0), Abs(c.p[j]) >= Abs(c.p[k]))))
    yield "none", imp(eq(r, -1), forall(0, c.len, lambda j: eq(c.p[j], 0)))


def _cmpall(name, rel, alias):
    @contract(name, P, [S("p1"), S("p2"), UInt("len")], "int", alias=alias)
    def _(c):
        yield "boolean", Or(eq(c.ret, 0), eq(c.ret, 1))
        yield "if", imp(eq(c.ret, 1), forall(0, c.len, lambda j: rel(c.p1[j], c.p2[j])))
        yield "only if", exists(c, 0, c.len, lambda j: Not(rel(c.p1[j], c.p2[j])), eq(c.ret, 0))


def exists(c, lo, hi, f, guard):
    """guard => some j; symbolically witnessed by the terms of the path condition"""
    if not isz(lo) and not isz(hi):
        return Implies(guard, Or(*[f(j) for j in range(lo, hi)]))
    ws = []
    for t in c._st.pc:
        if isz(t):
            for a in T.apps([t]):
                if a.decl().name().startswith(("p1", "p2")):
                    if not any(a.arg(0).get_id() == w.get_id() for w in ws):
                        ws.append(a.arg(0))
            for a in consts(t):
                if a.decl().name().startswith("k!") and not any(a.get_id() == w.get_id() for w in ws):
                    ws.append(a)
    return Implies(guard, Or(*[And(w >= lo, w < hi, f(w)) for w in ws]))


def consts(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


_cmpall("isl_seq_eq", eq, [("p1", "p2")])
_cmpall("isl_seq_is_neg", lambda a, b: eq(a, -b), [("p1", "p2")])


@contract("isl_seq_cmp", P, [S("p1"), S("p2"), UInt("len")], "int", alias=[("p1", "p2")])
def _(c):
    yield "equal", imp(eq(c.ret, 0), forall(0, c.len, lambda j: eq(c.p1[j], c.p2[j])))
    if isz(c.len):
        yield "first difference", exists2(c)
    else:
        d = [(x > y) - (x < y) for x, y in ((c.p1[j], c.p2[j]) for j in range(c.len))]
        d = [x for x in d if x]
        yield "first difference", sgn(c.ret) == (d[0] if d else 0)


def exists2(c):
    ws = []
    for t in c._st.pc:
        if isz(t):
            for a in consts(t):
                if a.decl().name().startswith("k!") and not any(a.get_id() == w.get_id() for w in ws):
                    ws.append(a)
    alts = [And(w >= 0, w < c.len, eq(sgn(c.ret), If(c.p1[w] < c.p2[w], -1, 1)), ne(c.p1[w], c.p2[w])) for w in ws]
    if not alts:
        return eq(c.ret, 0)
    return Implies(ne(c.ret, 0), Or(*alts))


# ------------------------------------------------------------- elimination, substitution
@contract("isl_seq_elim", P, [Seq("dst", len=LEN), Seq("src", len=LEN), UInt("pos"), UInt("len"), ZOut("m")],
          pre=lambda a: And(a.pos < a.len, ne(a.src[a.pos], 0)))
def _(c):
    s, d = c.src[c.pos], c.dst[c.pos]
    g = gcd(s, d)
    z = eq(d, 0)
    yield "elements", forall(0, c.len, lambda j: eq(c.out("dst")[j] * If(z, 1, g),
                                                    If(z, c.dst[j], Abs(s) * c.dst[j] - sgn(s) * d * c.src[j])))
    yield "multiplier", eq(c.out("m") * If(z, 1, g), c.m * If(z, 1, Abs(s)))
    yield "src unchanged", untouched(c, "src", c.src)


@contract("isl_seq_substitute", P, [Seq("p", len=lambda a: a.p_len), Int("pos", pool=[0, 1, 2, 3]), Seq("subs", len=lambda a: a.subs_len),
                                    Int("p_len", pool=[1, 2, 3, 4, 5]), Int("subs_len", pool=[1, 2, 3, 4]), ZOut("v")],
          pre=lambda a: And(a.pos >= 0, a.pos + 1 < a.subs_len, a.subs_len <= a.p_len, a.subs_len >= 1))
def _(c):
    f, d, a, m = c.subs, c.subs[0], c.p[c.pos + 1], c.p[0]
    yield "denominator", eq(c.out("p")[0], m * d)
    yield "elements", forall(1, c.subs_len, lambda j: eq(c.out("p")[j], If(eq(j, c.pos + 1), 0, c.p[j]) * d + a * f[j]))
    yield "remaining elements", forall(c.subs_len, c.p_len, lambda j: eq(c.out("p")[j], c.p[j] * d))
    yield "subs unchanged", forall(0, c.subs_len, lambda j: eq(c.out("subs")[j], c.subs[j]))
