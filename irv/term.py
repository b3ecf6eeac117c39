"""Mathematical-integer terms shared by the contracts, the symbolic executor
(z3 terms) and the replay on the real code (python integers)."""
import math
import z3

INT = z3.IntSort()


def isz(x):
    return isinstance(x, z3.ExprRef)


def add(a, b):
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return a + b


def sub(a, b):
    if not isz(b) and b == 0:
        return a
    return a - b


def mul(a, b):
    if not isz(a):
        if a == 0:
            return 0
        if a == 1:
            return b
    if not isz(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return a * b


def neg(a):
    return -a


def And(*xs):
    ys = []
    for x in xs:
        if isz(x):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isz(x):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    return z3.Not(x) if isz(x) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isz(a) or isz(b):
        return (a if isz(a) else z3.BoolVal(bool(a))) == (b if isz(b) else z3.BoolVal(bool(b)))
    return bool(a) == bool(b)


def If(c, a, b):
    if isz(c):
        if isinstance(a, tuple):
            return tuple(If(c, x, y) for x, y in zip(a, b))
        if not isz(a) and not isz(b) and a == b:
            return a
        if isinstance(a, bool) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
            return Or(And(c, a), And(Not(c), b))
        return z3.If(c, a, b)
    return a if c else b


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return Iff(a, b)
    return a == b


def ne(a, b):
    return a != b


def Abs(a):
    return If(a < 0, -a, a)


def sgn(a):
    return If(a < 0, -1, If(a > 0, 1, 0))


# Function symbols with defining axioms (instantiated per application, see facts())
GCD = z3.Function("gcd", INT, INT, INT)
CA = z3.Function("gcd_ca", INT, INT, INT)
CB = z3.Function("gcd_cb", INT, INT, INT)
POW2 = z3.Function("pow2", INT, INT)
CMP = z3.Function("cmp", INT, INT, INT)
LCM = z3.Function("lcm", INT, INT, INT)
DIVX = z3.Function("divexact", INT, INT, INT)
FDQ = z3.Function("fdiv_q", INT, INT, INT)
CDQ = z3.Function("cdiv_q", INT, INT, INT)
TDQ = z3.Function("tdiv_q", INT, INT, INT)


def gcd(a, b):
    if isz(a) or isz(b):
        return GCD(a, b)
    return math.gcd(a, b)


def lcm(a, b):
    if isz(a) or isz(b):
        return LCM(a, b)
    return abs(a * b) // math.gcd(a, b) if a and b else 0


def fdiv(a, b):
    if isz(a) or isz(b):
        if not isz(b) and b == 1:
            return a
        return FDQ(a, b)
    return a // b if b else 0


def cdiv(a, b):
    if isz(a) or isz(b):
        if not isz(b) and b == 1:
            return a
        return CDQ(a, b)
    return -((-a) // b) if b else 0


def tdiv(a, b):
    if isz(a) or isz(b):
        if not isz(b) and b == 1:
            return a
        return TDQ(a, b)
    if not b:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def fmod(a, b):
    if isz(a) or isz(b):
        return a - mul(FDQ(a, b), b)
    return a - (a // b) * b if b else a


def divides(b, a):
    """b | a"""
    if isz(a) or isz(b):
        return If(eq(b, 0), eq(a, 0), eq(a - mul(fdiv(a, b), b), 0))
    return a == 0 if b == 0 else a % b == 0


def pow2(e):
    if isz(e):
        return POW2(e)
    return 2 ** e if e >= 0 else 1


# ------------------------------------------------------------------ polynomials
class Poly:
    """polynomial with integer coefficients over z3 atoms"""
    __slots__ = ("m",)
    atoms = {}

    def __init__(self, m):
        self.m = m

    @staticmethod
    def of(t):
        if isinstance(t, Poly):
            return t
        if not isz(t):
            return Poly({(): t} if t else {})
        return Poly._w(t)

    _memo = {}

    @staticmethod
    def _w(t):
        i = t.get_id()
        r = Poly._memo.get(i)
        if r is not None:
            return r[1]
        k = t.decl().kind()
        if z3.is_int_value(t):
            v = t.as_long()
            p = Poly({(): v} if v else {})
        elif k == z3.Z3_OP_ADD:
            p = Poly({})
            for c in t.children():
                p = p + Poly._w(c)
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            p = Poly._w(ch[0])
            for c in ch[1:]:
                p = p - Poly._w(c)
        elif k == z3.Z3_OP_UMINUS:
            p = Poly({}) - Poly._w(t.arg(0))
        elif k == z3.Z3_OP_MUL:
            p = Poly({(): 1})
            for c in t.children():
                p = p * Poly._w(c)
        else:
            Poly.atoms[i] = t
            p = Poly({(i,): 1})
        Poly._memo[i] = (t, p)
        return p

    def __add__(self, o):
        o = Poly.of(o)
        m = dict(self.m)
        for k, v in o.m.items():
            w = m.get(k, 0) + v
            if w:
                m[k] = w
            else:
                m.pop(k, None)
        return Poly(m)

    def __sub__(self, o):
        return self + Poly.of(o).scale(-1)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()} if c else {})

    def __mul__(self, o):
        o = Poly.of(o)
        m = {}
        for k, v in self.m.items():
            for l, w in o.m.items():
                x = tuple(sorted(k + l))
                s = m.get(x, 0) + v * w
                if s:
                    m[x] = s
                else:
                    m.pop(x, None)
        return Poly(m)

    def const(self):
        """python int when constant, else None"""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def divc(self, c):
        """exact division by an integer constant, or None"""
        m = {}
        for k, v in self.m.items():
            if v % c:
                return None
            m[k] = v // c
        return Poly(m)

    def split(self, aid):
        """-> (q, r) with self = q*atom + r, r free of atom (linear in the atom only)"""
        q, r = {}, {}
        for k, v in self.m.items():
            if aid in k:
                l = list(k)
                l.remove(aid)
                if aid in l:
                    return None
                q[tuple(l)] = v
            else:
                r[k] = v
        return Poly(q), Poly(r)

    def uses(self, aid):
        return any(aid in k for k in self.m)

    def z(self):
        t = None
        for k in sorted(self.m, key=lambda x: (len(x), x)):
            v = self.m[k]
            f = None
            for a in k:
                x = Poly.atoms[a]
                f = x if f is None else f * x
            if f is None:
                f = v
            elif v != 1:
                f = v * f
            t = f if t is None else t + f
        return 0 if t is None else t

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return str(self.z())


def atom_id(t):
    p = Poly.of(t)
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return None


# ------------------------------------------------------------------ axioms
def apps(ts, seen=None):
    """all applications of uninterpreted functions in the terms"""
    out = []
    seen = set() if seen is None else seen
    stack = [t for t in ts if isz(t)]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if t.num_args():
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            stack.extend(t.children())
    return out


def qr(a, b, q, kind):
    r = a - b * q
    if kind == "f":
        c = z3.And(z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(b < 0, z3.And(r <= 0, r > b)))
    elif kind == "c":
        c = z3.And(z3.Implies(b > 0, z3.And(r <= 0, r > -b)), z3.Implies(b < 0, z3.And(r >= 0, r < -b)))
    else:
        ab = z3.If(b < 0, -b, b)
        c = z3.Implies(b != 0, z3.And(z3.Implies(a >= 0, z3.And(r >= 0, r < ab)),
                                      z3.Implies(a <= 0, z3.And(r <= 0, r > -ab))))
    return c


def facts(ts, rounds=2, light=False):
    """axiom instances for the function symbols that occur in the terms"""
    out = []
    seen = set()
    todo = apps(ts, seen)
    gc = []
    for _ in range(rounds):
        new = []
        for t in todo:
            d = t.decl().name()
            if d in ("gcd", "gcd_ca", "gcd_cb"):
                a, b = t.arg(0), t.arg(1)
                g, ca, cb = GCD(a, b), CA(a, b), CB(a, b)
                fs = [g >= 0, a == g * ca, b == g * cb,
                      z3.Implies(g == 0, z3.And(a == 0, b == 0)),
                      z3.Implies(z3.And(a == 0, b == 0), g == 0),
                      z3.Implies(a == 0, g == z3.If(b < 0, -b, b)),
                      z3.Implies(b == 0, g == z3.If(a < 0, -a, a)),
                      z3.Implies(z3.Or(a == 1, a == -1, b == 1, b == -1), g == 1),
                      z3.Implies(a == b, g == z3.If(a < 0, -a, a)),
                      z3.Implies(a == -b, g == z3.If(a < 0, -a, a)),
                      z3.Implies(a > 0, z3.And(ca > 0, g <= a)), z3.Implies(a < 0, z3.And(ca < 0, g <= -a)),
                      z3.Implies(b > 0, z3.And(cb > 0, g <= b)), z3.Implies(b < 0, z3.And(cb < 0, g <= -b)),
                      z3.Implies(z3.And(a == 0, g != 0), ca == 0), z3.Implies(z3.And(b == 0, g != 0), cb == 0),
                      z3.Implies(g == 1, z3.And(ca == a, cb == b)),
                      z3.Implies(g != 0, GCD(ca, cb) == 1) if d != "gcd" else None]
                fs = [f for f in fs if f is not None]
                if light:
                    fs = fs[:1] + fs[3:9] if d == "gcd" else []
                    fs += [g == GCD(b, a)]
                gc.append((a, b))
            elif d == "pow2":
                fs = [t >= 1, z3.Implies(t.arg(0) <= 0, t == 1)]
            elif d == "cmp":
                a, b = t.arg(0), t.arg(1)
                fs = [(t < 0) == (a < b), (t == 0) == (a == b)]
            elif d == "fdiv_q":
                fs = [qr(t.arg(0), t.arg(1), t, "f")]
                if not z3.is_int_value(t.arg(1)):
                    fs += [z3.Implies(t.arg(1) == 1, t == t.arg(0))]
            elif d == "cdiv_q":
                fs = [qr(t.arg(0), t.arg(1), t, "c"), z3.Implies(t.arg(1) == 1, t == t.arg(0))]
            elif d == "tdiv_q":
                fs = [qr(t.arg(0), t.arg(1), t, "t"), z3.Implies(t.arg(1) == 1, t == t.arg(0))]
            elif d == "divexact":
                a, b = t.arg(0), t.arg(1)
                fs = [z3.Implies(z3.And(b != 0, a == b * FDQ(a, b)), z3.And(a == b * t, t == FDQ(a, b))),
                      z3.Implies(b == 1, t == a)]
            elif d == "lcm":
                a, b = t.arg(0), t.arg(1)
                fs = [t >= 0, z3.Implies(z3.Or(a == 0, b == 0), t == 0)]
            else:
                continue
            out += fs
            new += apps(fs, seen)
        todo = new
    # gcd(a + m*b, b) = gcd(a, b) and symmetry, for the pairs that occur
    P = []
    done = set()
    for a, b in gc:
        key = (a.get_id(), b.get_id())
        if key not in done:
            done.add(key)
            P.append((a, b, Poly.of(a), Poly.of(b)))
    for i in range(len(P)):
        for j in range(i):
            a, b, pa, pb = P[i]
            c, e, pc, pe = P[j]
            if gcd_same(pa, pb, pc, pe):
                out.append(GCD(a, b) == GCD(c, e))
    return out


def _mult(p, b):
    """p is a multiple of b, as polynomials (b an atom or constant)"""
    if not p.m:
        return True
    if len(b.m) != 1:
        for s in (1, -1):
            if p == b.scale(s):
                return True
        return False
    (k, v), = b.m.items()
    if len(k) == 0:
        return p.divc(v) is not None
    if len(k) != 1:
        return p == b or p == b.scale(-1)
    return abs(v) == 1 and all(k[0] in x for x in p.m)


def gcd_same(a, b, c, e):
    for x, y, u, w in ((a, b, c, e), (a, b, e, c), (b, a, c, e), (b, a, e, c)):
        if y == w or y == w.scale(-1):
            if _mult(x - u, y) or _mult(x + u, y):
                return True
    return False
