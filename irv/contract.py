"""Functional contracts: one text, two readings.

The postcondition of a contract is evaluated on z3 terms (proof, all inputs) or
on python integers (replay on the real code).
"""
import z3
import term as T
from term import Poly, If, And, Or, Not, Implies, isz
import sym
from sym import Ptr, NULL, Ref, Obj

CONTRACTS = {}


class Contract:
    pass


def contract(name, prop, params, ret="void", pre=None, src=None, ghosts=None, alias=(), cap=None, only=None,
             bounded_only=False, note=None, gen=None, fname=None, cases=None):
    def d(post):
        c = Contract()
        c.name, c.prop, c.params, c.ret, c.pre, c.post = name, prop, params, ret, pre, post
        c.src, c.ghosts, c.alias, c.cap, c.only, c.bounded_only = src, ghosts, alias, cap, only, bounded_only
        c.note = note
        c.gen, c.fname, c.cases = gen, fname or name, cases
        CONTRACTS[name] = c
        return post
    return d


class FA:
    """for all j in [lo,hi): f(j)"""

    def __init__(self, lo, hi, f, guard=True):
        self.lo, self.hi, self.f, self.guard = lo, hi, f, guard


def forall(lo, hi, f):
    if isz(lo) or isz(hi):
        return FA(lo, hi, f)
    if SYMBOLIC[0]:
        l = [f(j) for j in range(lo, hi)]
        if any(isinstance(g, (FA, list)) for g in l):
            return l
        return And(*[flat(g) for g in l])
    for j in range(lo, hi):
        if not f(j):
            return False
    return True


def flat(g):
    if isinstance(g, FA):
        raise sym.Unsupported("nested quantifier")
    return g


class EX:
    """there are j1, j2, ... with 0 <= ji < ni and f(j1, j2, ...)"""

    def __init__(self, ns, f, guard=True):
        self.ns, self.f, self.guard = ns, f, guard


def exists(ns, f):
    if SYMBOLIC[0]:
        return EX(ns, f)
    import itertools
    return any(f(*x) for x in itertools.product(*[range(n) for n in ns]))


def imp(c, g):
    if isinstance(g, list):
        return [imp(c, x) for x in g]
    if isinstance(g, EX):
        return EX(g.ns, g.f, And(g.guard, c))
    if isinstance(g, FA):
        return FA(g.lo, g.hi, g.f, And(g.guard, c))
    return Implies(c, g)


SYMBOLIC = [False]


# ---------------------------------------------------------------- views
class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class SeqV:
    """read-only sequence view"""

    def __init__(self, get, n):
        self._g, self.n = get, n

    def __getitem__(self, i):
        return self._g(i)


class MatV:
    def __init__(self, get, rows, cols):
        self._g, self.rows, self.cols = get, rows, cols

    def __getitem__(self, ij):
        return self._g(ij[0], ij[1])


# ---------------------------------------------------------------- parameter kinds
class Kind:
    take = False
    shared = False        # has a sharing variant

    def __init__(self, name, **kw):
        self.name = name
        self.kw = kw
        self.__dict__.update(kw)
        if kw.get("raw") or kw.get("inplace"):
            self.shared = False


class Ctx(Kind):
    def sym(self, E, var):
        return Ptr(E.ex.ctxobj), None


class Long(Kind):
    lo, hi = -(1 << 63), (1 << 63) - 1

    def sym(self, E, var):
        v = z3.Int(self.name)
        E.st.pc += [v >= self.lo, v <= self.hi]
        return v, v


class ULong(Long):
    lo, hi = 0, (1 << 64) - 1


class Int(Long):
    lo, hi = -(1 << 31), (1 << 31) - 1


class UInt(Long):
    lo, hi = 0, (1 << 31) - 1        # positions and counts; sums do not wrap around


class Z(Kind):
    """isl_int passed by value (a read-only big integer)"""

    def sym(self, E, var):
        o = Obj(self.name)
        v = z3.Int(self.name)
        E.ex.new(E.st, o, {0: v})
        return Ptr(o), v

    out = None


class ZOut(Kind):
    """isl_int * written by the function"""

    def sym(self, E, var):
        o = Obj(self.name)
        v = z3.Int(self.name)
        E.ex.new(E.st, o, {0: v})
        E.outs[self.name] = lambda st: E.ex.load_cell(st, o, 0, "Z")
        return Ptr(o), v


class Val(Kind):
    take = True
    shared = True

    def sym(self, E, var):
        n, d = z3.Int(self.name + ".n"), z3.Int(self.name + ".d")
        F = E.fields("isl_val")
        o = Obj(self.name)
        ref = 2 if var == "shared" else 1
        E.ex.new(E.st, o, {F["ref"]: ref, F["ctx"]: Ptr(E.ex.ctxobj), F["n"]: n, F["d"]: d})
        if self.kw.get("raw"):
            E.st.pc += [z3.Implies(d == 0, z3.And(n >= -1, n <= 1))]
        elif self.kw.get("int"):
            E.st.pc += [d == 1]
        else:
            E.st.pc += [d >= 0, z3.Implies(d == 0, z3.And(n >= -1, n <= 1)), z3.Implies(d > 0, T.GCD(n, d) == 1)]
        view = NS(n=n, d=d)
        E.outs[self.name] = lambda st: NS(n=E.ex.load_cell(st, o, F["n"], "Z"), d=E.ex.load_cell(st, o, F["d"], "Z"))
        E.objs[self.name] = o
        return Ptr(o), view

    def unchanged(self, E, st, view):
        o = E.outs[self.name](st)
        return And(T.eq(o.n, view.n), T.eq(o.d, view.d))


class KVal(Val):
    take = False


class ValOut(Kind):
    """isl_val ** result parameter"""

    def sym(self, E, var):
        o = Obj(self.name)
        E.ex.new(E.st, o, {0: NULL})
        E.outs[self.name] = lambda st: valview(E, st, E.ex.load_cell(st, o, 0, "ptr"))
        return Ptr(o), None


class MatOut(Kind):
    """isl_mat ** result parameter"""

    def sym(self, E, var):
        o = Obj(self.name)
        E.ex.new(E.st, o, {0: NULL})
        E.outs[self.name] = lambda st: matview(E, st, E.ex.load_cell(st, o, 0, "ptr"))
        return Ptr(o), None


def valview(E, st, r):
    if r is NULL:
        return None
    if not isinstance(r, Ptr):
        raise sym.Unsupported("value result %r" % (r,))
    F = E.fields("isl_val")
    o = r.o
    return NS(n=E.ex.load_cell(st, o, F["n"], "Z"), d=E.ex.load_cell(st, o, F["d"], "Z"))


class Seq(Kind):
    """isl_int *p with len elements (len: parameter name or function of the parameters)"""

    def sym(self, E, var):
        n = self.len(E.args)
        o = Obj(self.name, lane="Z", arrbase=0, elsize=16, n=n)
        f = z3.Function(self.name, T.INT, T.INT)
        o.base = lambda i: f(i if isz(i) else z3.IntVal(i))
        E.ex.new(E.st, o)
        view = SeqV(lambda i: o.base(i), n)
        E.outs[self.name] = lambda st: SeqV(lambda i: E.ex.arr_get(st, o, (Poly.of(i),), log=False), n)
        E.objs[self.name] = o
        return Ptr(o), view


class IntSeq(Kind):
    """int *p with len elements, read only"""

    def sym(self, E, var):
        raise sym.Unsupported("int array")


class Vec(Kind):
    take = True
    shared = True

    def sym(self, E, var):
        F = E.fields("isl_vec")
        n = z3.Int(self.name + ".size")
        cap = z3.Int(self.name + ".cap")
        E.st.pc += [n >= 0, n < (1 << 30), cap >= n]
        b = Obj(self.name + ".el", lane="Z", arrbase=0, elsize=16, n=cap)
        f = z3.Function(self.name, T.INT, T.INT)
        b.base = lambda i: f(i if isz(i) else z3.IntVal(i))
        E.ex.new(E.st, b)
        o = Obj(self.name)
        E.ex.new(E.st, o, {F["ref"]: 2 if var == "shared" else 1, F["ctx"]: Ptr(E.ex.ctxobj), F["size"]: n,
                           F["el"]: Ptr(b), F["block"]: cap, F["block"] + 8: Ptr(b)})
        view = SeqV(lambda i: b.base(i), n)
        E.outs[self.name] = lambda st: vecview(E, st, Ptr(o))
        E.objs[self.name] = o
        return Ptr(o), view

    def unchanged(self, E, st, view):
        o = E.outs[self.name](st)
        return [T.eq(o.n, view.n), forall(0, view.n, lambda j: T.eq(o[j], view[j]))]


class KVec(Vec):
    take = False


def vecview(E, st, r):
    if r is NULL:
        return None
    if not isinstance(r, Ptr):
        raise sym.Unsupported("vector result %r" % (r,))
    F = E.fields("isl_vec")
    o = r.o
    n = E.ex.load_cell(st, o, F["size"], "int")
    el = E.ex.load_cell(st, o, F["el"], "ptr")

    def get(i):
        if el is NULL:
            raise sym.Unsupported("empty vector")
        k, x = E.ex.index(st, el.o, el.off + Poly.of(i).scale(16), 16)
        if k == "cell":
            return E.ex.load_cell(st, el.o, x, "Z")
        return E.ex.arr_get(st, el.o, x, log=False)
    return SeqV(get, n)


class Mat(Kind):
    take = True
    shared = True

    def sym(self, E, var):
        F = E.fields("isl_mat")
        nm = self.name
        nr, nc, mc = z3.Int(nm + ".rows"), z3.Int(nm + ".cols"), z3.Int(nm + ".max_col")
        cap, R = z3.Int(nm + ".cap"), z3.Int(nm + ".max_row")
        E.st.pc += [nr >= 0, nc >= 0, nr < (1 << 30), nc < (1 << 30), cap >= 0, R >= nr, R < (1 << 30)]
        borrowed = var == "borrowed"
        b = Obj(nm + ".el", lane="Z", arrbase=0, elsize=16, n=None)
        f = z3.Function(nm, T.INT, T.INT, T.INT)
        zi = lambda i: i if isz(i) else z3.IntVal(i)
        b.base = lambda r, c: f(zi(r), zi(c))
        W, c0 = mc, 0
        if borrowed:
            # rows are parts of the rows of some other array
            W, c0 = z3.Int(nm + ".width"), z3.Int(nm + ".col0")
            E.st.pc += [c0 >= 0, c0 + nc <= W]
        else:
            E.st.pc += [mc >= nc, cap >= R * mc, cap >= nr * mc]
        b.stride = T.atom_id(W)
        b.dims = [(R, True)]
        b.n = None if borrowed else cap
        # any injective placement of the rows
        pi, inv = z3.Function(nm + ".at", T.INT, T.INT), z3.Function(nm + ".at_inv", T.INT, T.INT)
        sym.INVERSE[nm + ".at"] = inv
        x = z3.Int(nm + ".x")
        E.st.pc.append(sym.QF([(x, nr)], z3.And(pi(x) >= 0, pi(x) < R, inv(pi(x)) == x)))
        E.ex.new(E.st, b)
        rows = Obj(nm + ".row", lane="P", arrbase=0, elsize=8, n=nr)
        rows.base = lambda i: Ptr(b, (Poly.of(pi(zi(i))) * Poly.of(W) + Poly.of(c0)).scale(16))
        E.ex.new(E.st, rows)
        o = Obj(nm)
        E.ex.new(E.st, o, {F["ref"]: 2 if var == "shared" else 1, F["ctx"]: Ptr(E.ex.ctxobj), F["flags"]: int(borrowed),
                           F["n_row"]: nr, F["n_col"]: nc, F["row"]: Ptr(rows), F["max_col"]: mc,
                           F["block"]: 0 if borrowed else cap, F["block"] + 8: NULL if borrowed else Ptr(b)})
        view = MatV(lambda i, j: b.base(pi(zi(i)), zi(j) + c0 if borrowed else zi(j)), nr, nc)
        E.outs[nm] = lambda st: matview(E, st, Ptr(o))
        E.objs[nm] = o
        return Ptr(o), view

    def unchanged(self, E, st, view):
        o = E.outs[self.name](st)
        return [T.eq(o.rows, view.rows), T.eq(o.cols, view.cols),
                forall(0, view.rows, lambda i: forall(0, view.cols, lambda j: T.eq(o[i, j], view[i, j])))]


class KMat(Mat):
    take = False


def matview(E, st, r):
    if r is NULL:
        return None
    if not isinstance(r, Ptr):
        raise sym.Unsupported("matrix result %r" % (r,))
    F = E.fields("isl_mat")
    o = r.o
    nr = E.ex.load_cell(st, o, F["n_row"], "int")
    nc = E.ex.load_cell(st, o, F["n_col"], "int")
    row = E.ex.load_cell(st, o, F["row"], "ptr")

    def get(i, j):
        ex = E.ex
        if row is NULL:
            return ex.fresh("none")
        k, x = ex.index(st, row.o, row.off + Poly.of(i).scale(8), 8)
        if row.o.lane is None:
            ex.setlane(row.o, "P")
        if k == "cell":
            alts = [(True, ex.load_cell(st, row.o, x, "ptr"))]
        else:
            alts = ex.arr_alts(st, row.o, x)
        r = None
        for g, p in alts:
            if p is NULL:
                v = ex.fresh("none")       # a row without elements
            elif not isinstance(p, Ptr):
                raise sym.Unsupported("row %r" % (p,))
            else:
                k, x = ex.index(st, p.o, p.off + Poly.of(j).scale(16), 16)
                if k == "cell":
                    v = ex.load_cell(st, p.o, x, "Z")
                else:
                    if p.o.lane is None:
                        ex.setlane(p.o, "Z")
                    v = ex.arr_get(st, p.o, x, log=False)
            r = v if r is None else If(g, v, r)
        return r
    def pos(i):
        """(object number, row number) of row i; (0, 0) is no row at all"""
        ex = E.ex
        if row is NULL:
            return 0, 0
        k, x = ex.index(st, row.o, row.off + Poly.of(i).scale(8), 8)
        if row.o.lane is None:
            ex.setlane(row.o, "P")
        alts = [(True, ex.load_cell(st, row.o, x, "ptr"))] if k == "cell" else ex.arr_alts(st, row.o, x)
        a, b = 0, 0
        for g, p in alts:
            if p is NULL:
                x, y = 0, 0
            elif not isinstance(p, Ptr):
                raise sym.Unsupported("row %r" % (p,))
            else:
                k, key = ex.index(st, p.o, p.off, 16)
                x = p.o.id
                y = key[0].z() if k == "arr" and len(key) == 2 else (p.off.divc(16) or p.off).z()
            a, b = If(g, x, a), If(g, y, b)
        return a, b
    v = MatV(get, nr, nc)
    v.pos = pos
    return v


class El(Kind):
    """a list element: an opaque object, only its identity matters"""
    take = True

    def sym(self, E, var):
        t = z3.Int(self.name)
        E.st.pc.append(t != 0)
        return Ref(t), t


class KEl(El):
    take = False


class List(Kind):
    take = True
    shared = True

    def sym(self, E, var):
        F = E.fields("isl_%s_list" % self.el)
        nm = self.name
        n, cap = z3.Int(nm + ".n"), z3.Int(nm + ".cap")
        E.st.pc += [n >= 0, n < (1 << 28), cap >= n, cap < (1 << 29), cap >= 1]
        f = z3.Function(nm, T.INT, T.INT)
        x = z3.Int(nm + ".x")
        E.st.pc.append(sym.QF([(x, n)], f(x) != 0))
        o = Obj(nm, lane="R", arrbase=F["p"], elsize=8, n=cap)
        zi = lambda i: i if isz(i) else z3.IntVal(i)
        o.base = lambda i: Ref(f(zi(i)))
        E.ex.new(E.st, o, {F["ref"]: 2 if var == "shared" else 1, F["ctx"]: Ptr(E.ex.ctxobj), F["n"]: n, F["size"]: cap})
        view = SeqV(lambda i: f(zi(i)), n)
        E.outs[nm] = lambda st: listview(E, st, Ptr(o), self.el)
        E.objs[nm] = o
        return Ptr(o), view

    def unchanged(self, E, st, view):
        o = E.outs[self.name](st)
        return [T.eq(o.n, view.n), forall(0, view.n, lambda j: T.eq(o[j], view[j]))]


class KList(List):
    take = False


class User(Kind):
    """the user pointer of a callback"""

    def sym(self, E, var):
        return Ref(z3.Int(self.name)), None


class CallBack(Kind):
    """a function of the user: called any number of times with elements, returns anything;
    the view is the result of the k-th call, out() the sequence of elements it was called on"""

    def sym(self, E, var):
        o = Obj(self.name, lane="R", arrbase=64, elsize=8)
        o.n = None
        f = z3.Function(self.name + ".calls", T.INT, T.INT)
        o.base = lambda i: Ref(f(i if isz(i) else z3.IntVal(i)))
        E.ex.new(E.st, o, {0: 0})
        g = z3.Function(self.name + ".result", T.INT, T.INT)
        zi = lambda i: i if isz(i) else z3.IntVal(i)
        x = z3.Int(self.name + ".x")
        if self.res == "el":
            E.st.pc.append(sym.QF([(x, 1 << 40)], g(x) != 0))
        elif self.res == "stat":
            E.st.pc.append(sym.QF([(x, 1 << 40)], z3.And(g(x) >= -1, g(x) <= 0)))
        elif self.res == "bool":
            E.st.pc.append(sym.QF([(x, 1 << 40)], z3.And(g(x) >= -1, g(x) <= 1)))

        def out(st):
            n = E.ex.load_cell(st, o, 0, "int")

            def get(i):
                return sym.reft(E.ex.arr_get(st, o, (Poly.of(i),), log=False))
            return SeqV(get, n)
        E.outs[self.name] = out
        res = (lambda k: Ref(g(zi(k)))) if self.res == "el" else (lambda k: g(zi(k)))
        return sym.Cb(o, res), SeqV(lambda k: g(zi(k)), None)


class _P:
    k = "ptr"


from ir import PTR as sym_ptr


# ---------------------------------------------------------------- symbolic environment
class Env:
    def __init__(self, ex, st, world):
        self.ex, self.st, self.w = ex, st, world
        self.args = NS()
        self.outs = {}
        self.objs = {}
        self.fr = None

    def fields(self, s):
        return self.w.fields(s)


def ret_view(E, st, kind):
    r = st.retval
    if kind == "val":
        return valview(E, st, r)
    if kind == "vec":
        return vecview(E, st, r)
    if kind == "mat":
        return matview(E, st, r)
    if kind in ("bool", "int", "size", "stat"):
        return E.ex.intval(r)
    if kind == "ctx":
        return r
    if kind.startswith("list:"):
        return listview(E, st, r, kind[5:])
    if kind.startswith("el:"):
        return None if r is NULL else sym.reft(r)
    return None


def listview(E, st, r, el):
    if r is NULL:
        return None
    if not isinstance(r, Ptr):
        raise sym.Unsupported("list result")
    F = E.fields("isl_%s_list" % el)
    o = r.o
    n = E.ex.load_cell(st, o, F["n"], "int")

    def get(i):
        k, x = E.ex.index(st, o, Poly.of(i).scale(8) + F["p"], 8)
        if k == "cell":
            v = E.ex.load_cell(st, o, x, "ptr")
        else:
            v = E.ex.arr_get(st, o, x, log=False)
        return sym.reft(v)
    return SeqV(get, n)
