"""Symbolic execution of the extracted IR with loop summarisation: generates and
discharges (z3) the obligations of the functional contracts in contracts/fun.

All paths of a function and of everything it calls (down to the allocator, the
block allocator isl_blk_* and GMP) are followed.  A loop is replaced by its
exact effect after an unknown number of iterations: the executor guesses, for
every scalar that changes in the loop, an affine invariant in the iteration
number (or a recursively defined function), proves it inductive, proves that no
iteration reads or writes an array element written by another one, and then
describes the array after the loop by the elements written in iteration k,
0 <= k < K.  If any of this cannot be established, or the code leaves the
supported subset, Unsupported is raised and the function is not proved.
"""
import z3
import time
import term as T
from term import Poly, And, Or, Not, If, isz
from ir import IRError, ICMP


import os
DEBUG = __import__("os").environ.get("SYMDEBUG")


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ("id", "name", "lane", "arrbase", "elsize", "n", "stride", "base", "lazy", "zero", "dims", "raw", "free_ok", "bytes")
    cnt = 0

    def __init__(self, name, lane=None, arrbase=None, elsize=None, n=None, base=None, lazy=False, zero=False):
        Obj.cnt += 1
        self.id = Obj.cnt
        self.name = name
        self.lane = lane          # Z mpz, R opaque reference, I int, P pointer
        self.arrbase = arrbase
        self.elsize = elsize
        self.n = n                # number of elements (term) or None
        self.stride = None        # atom id of the row length of a two-dimensional array
        self.dims = None
        self.base = base
        self.lazy = lazy
        self.zero = zero
        self.raw = False
        self.bytes = None

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=None):
        self.o = o
        self.off = Poly({}) if off is None else off

    def __repr__(self):
        return "&%r+%r" % (self.o, self.off)


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class Cb:
    """a callback: records the elements it is called on in ghost object o"""
    __slots__ = ("o", "res")

    def __init__(self, o, res):
        self.o, self.res = o, res


class Ref:
    """opaque pointer with an integer identity (0 is NULL)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "ref(%s)" % self.t


class Fn:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Undef:
    pass


UNDEF = Undef()


class CmpVal:
    """result of mpz_cmp and friends: only the sign is specified"""
    __slots__ = ("a", "b", "exact")

    def __init__(self, a, b, exact=False):
        self.a = a
        self.b = b
        self.exact = exact


class Upd:
    """for all (k1..km) in the box with cond: A[key] := val"""
    __slots__ = ("ks", "key", "cond", "val", "nf")

    def __init__(self, ks, key, cond, val):
        self.nf = None
        self.ks = ks
        self.key = key
        self.cond = cond
        self.val = val


class QF:
    """for all v in [0,K): body"""
    __slots__ = ("vs", "body", "nf")

    def __init__(self, vs, body):
        self.nf = None
        self.vs = vs
        self.body = body


class OS:
    __slots__ = ("cells", "ups")

    def __init__(self, cells=None, ups=()):
        self.cells = cells if cells is not None else {}
        self.ups = ups

    def copy(self):
        return OS(dict(self.cells), self.ups)


class Frame:
    __slots__ = ("mod", "f", "regs", "blk", "prev", "ip", "ret", "unroll", "objs")

    def copy(self):
        r = Frame()
        r.mod = self.mod
        r.f = self.f
        r.regs = dict(self.regs)
        r.blk = self.blk
        r.prev = self.prev
        r.ip = self.ip
        r.ret = self.ret
        r.unroll = dict(self.unroll)
        r.objs = self.objs
        return r


class State:
    __slots__ = ("frames", "mem", "pc", "err", "retval", "freed", "events")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.err = False
        self.retval = None
        self.freed = frozenset()
        self.events = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.err = self.err
        s.retval = self.retval
        s.freed = self.freed
        s.events = self.events
        return s


def s64(v):
    return v


class Loop:
    __slots__ = ("header", "blocks")


def natural_loops(f):
    """{header: set of blocks}; raises Unsupported on irreducible flow"""
    names = [b.name for b in f.order]
    dom = {n: set(names) for n in names}
    ent = names[0]
    dom[ent] = {ent}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in b.preds]
            d = set.intersection(*ps) | {b.name} if ps else {b.name}
            if d != dom[b.name]:
                dom[b.name] = d
                ch = True
    loops = {}
    for b in f.order:
        for s in b.succs:
            if s in dom[b.name]:
                L = loops.setdefault(s, {s})
                st = [b.name]
                while st:
                    x = st.pop()
                    if x in L:
                        continue
                    L.add(x)
                    st.extend(f.blocks[x].preds)
    return loops


class Executor:
    def __init__(self, world, budget=60.0, unroll=0, depth=60, z3_ms=4000):
        self.w = world            # World-like: fn[key]->(mod,f), key_of(src,name), layout(mod)
        self.ks = []
        self.logs = []
        self.quiet = 0
        self.uid = 0
        self.deadline = time.time() + budget
        self.unroll = unroll
        self.maxdepth = depth
        self.z3_ms = z3_ms
        self.ghosts = []
        self.obl = 0
        self.ok = 0
        self.failed = []          # (kind, state, goal/None, model or None)
        self.unknown = []
        self.solver_s = 0.0
        self.trusted = set()
        self.inlined = set()
        self.modular = set()
        self.accel = 0
        self.unrolled = False
        self._fs = z3.SimpleSolver()
        self._fs.set("timeout", 250)
        self._fstack = []
        self._fresh = {}
        self.ctxobj = None
        self.lp = {}
        self._glob = {}
        self.named = {}
        self.prods = {}
        self.bounds = True

    # -------------------------------------------------------- fresh symbols
    def fresh(self, name, sort=None):
        self.uid += 1
        n = "%s!%d" % (name, self.uid)
        if self.ks:
            return z3.Function(n, *([T.INT] * len(self.ks) + [sort or T.INT]))(*self.ks)
        return z3.Const(n, sort or T.INT)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget")

    # -------------------------------------------------------- solver
    def feasible(self, pc):
        pc = [c for c in pc if isz(c)]
        st = self._fstack
        i = 0
        while i < len(st) and i < len(pc) and st[i].get_id() == pc[i].get_id():
            i += 1
        while len(st) > i:
            self._fs.pop()
            st.pop()
        for c in pc[i:]:
            self._fs.push()
            self._fs.add(c)
            st.append(c)
        t = time.time()
        r = self._fs.check()
        self.solver_s += time.time() - t
        self.tick()
        return r != z3.unsat

    def instances(self, pc, goals):
        """instances of the quantified facts at the array indices of the query"""
        qs = [q for q in pc if isinstance(q, QF)]
        if not qs:
            return []
        out = []
        have = set()
        terms = [c for c in pc if isz(c)] + list(goals)
        for rnd in range(2):
            ground = {}
            for a in T.apps(terms):
                ground.setdefault(a.decl().name(), []).append(a)
            new = []
            for q in qs:
                q = plainq(q)
                vids = [T.atom_id(v) for v, K in q.vs]
                for pat in T.apps([q.body]):
                    pa = [Poly.of(x) for x in pat.children()]
                    if not any(p.uses(v) for p in pa for v in vids):
                        continue
                    for g in ground.get(pat.decl().name(), ()):
                        ga = [Poly.of(x) for x in g.children()]
                        if len(ga) != len(pa):
                            continue
                        sol = match(pa, ga, vids)
                        if sol is None:
                            continue
                        sub = []
                        cond = []
                        for (v, K), vid in zip(q.vs, vids):
                            t = sol[vid].z()
                            sub.append((v, t if isz(t) else z3.IntVal(t)))
                        for v, K in q.vs:
                            vz = z3.substitute(v, *sub)
                            Kz = z3.substitute(K, *sub) if isz(K) else K
                            cond += [vz >= 0, vz < Kz]
                        b = z3.substitute(q.body, *sub)
                        ins = z3.Implies(z3.And(*cond), b)
                        if ins.get_id() not in have:
                            have.add(ins.get_id())
                            new.append(ins)
            out += new
            terms = terms + new
            if len(out) > 400:
                break
        return out

    def check(self, pc, goal, ms=None):
        """-> 'ok' | ('cex', model) | 'unk' for pc => goal"""
        if not isz(goal):
            if goal:
                return "ok"
            goal = z3.BoolVal(False)
        g = z3.simplify(goal, som=True)
        if z3.is_true(g):
            return "ok"
        self.tick()
        bs = [c for c in pc if isz(c)]
        ng = z3.Not(goal)
        if len(bs) < len(pc) and not self.ghosts:
            s = z3.Solver()
            s.set("timeout", 300)
            s.add(*bs)
            s.add(ng)
            if s.check() == z3.unsat:
                return "ok"
        gf = []
        if any(hasattr(G, "lemmas") for G in self.ghosts):
            # most obligations do not depend on the ghosts
            t = time.time()
            ins = self.instances(pc, [ng])
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(*(bs + ins + T.facts(bs + ins + [ng], light=True)))
            s.add(ng)
            r = s.check()
            self.solver_s += time.time() - t
            if r == z3.unsat:
                return "ok"
        for G in self.ghosts:
            if hasattr(G, "lemmas"):
                gf += G.facts(bs + [ng])
        ins = self.instances(pc, [ng] + gf)
        fs = T.facts(bs + ins + [ng])
        for G in self.ghosts:
            if not hasattr(G, "lemmas"):
                gf += G.facts(bs + ins + [ng])
        t = time.time()
        if gf:
            # without the nonlinear facts
            s = z3.Solver()
            s.set("timeout", int(ms or self.z3_ms))
            s.add(*(bs + ins + gf + T.facts(bs + ins + gf + [ng], light=True)))
            s.add(ng)
            if s.check() == z3.unsat:
                self.solver_s += time.time() - t
                return "ok"
        s = z3.Solver()
        s.set("timeout", int(ms or self.z3_ms))
        s.add(*bs)
        s.add(*ins)
        s.add(*fs)
        s.add(*gf)
        s.add(ng)
        r = s.check()
        self.solver_s += time.time() - t
        if r == z3.unsat:
            return "ok"
        if r == z3.sat:
            return ("cex", s.model())
        return "unk"

    def lemma(self, g, kind, hyp, goal):
        """a lemma on a ghost function, proved from its recursive definition"""
        self.obl += 1
        ts = hyp + [z3.Not(goal)]
        s = z3.Solver()
        s.set("timeout", self.z3_ms)
        gf = g.definition(ts)
        s.add(*ts)
        s.add(*gf)
        t = time.time()
        s.add(*T.facts(ts + gf, light=True))
        r = s.check()
        if r != z3.unsat:
            s.add(*T.facts(ts + gf))
            r = s.check()
        self.solver_s += time.time() - t
        if r == z3.unsat:
            self.ok += 1
        else:
            self.unknown.append((kind, None, goal))

    def oblige(self, st, kind, goal):
        if self.quiet:
            return
        self.obl += 1
        r = self.check(st.pc, goal)
        if r == "ok":
            self.ok += 1
        elif r == "unk":
            self.unknown.append((kind, st, goal))
        else:
            self.failed.append((kind, st, goal, r[1]))

    def implied(self, st, c):
        """quick entailment under the path condition"""
        if not isz(c):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(st.pc + [z3.Not(c)])

    # -------------------------------------------------------- memory
    def new(self, st, o, cells=None):
        st.mem[o.id] = OS(dict(cells) if cells else {})
        self._objs = getattr(self, "_objs", {})
        self._objs[o.id] = o
        return o

    def wr(self, st, o):
        if o.id not in st.mem:
            raise Unsupported("write to unknown object %r" % o)
        s = st.mem[o.id].copy()
        st.mem[o.id] = s
        return s

    def index(self, st, o, off, elsize):
        """-> ('cell', const offset) or ('arr', (poly,)) / ('arr', (row, col))"""
        c = off.const()
        if o.arrbase is None:
            if c is not None:
                return "cell", c
            if o.raw and not st.mem[o.id].cells:
                o.arrbase = 0
                o.elsize = elsize
            else:
                raise Unsupported("symbolic offset into %r" % o)
        if c is not None and c < o.arrbase:
            return "cell", c
        e = (off - o.arrbase).divc(o.elsize)
        if e is None:
            # field within an array element
            raise Unsupported("unaligned access to %r: %r" % (o, off))
        if o.stride is not None:
            sp = e.split(o.stride)
            if sp is None:
                raise Unsupported("index %r" % e)
            return "arr", sp
        return "arr", (e,)

    def inb(self, st, o, key):
        if self.quiet or not self.bounds:
            return
        if len(key) == 1 and o.n is not None:
            i = key[0].z()
            self.oblige(st, "bounds", And(i >= 0, i < o.n))
        elif len(key) == 2 and o.dims is not None:
            # o.dims: row counts R (under a condition) with R * stride <= allocated size
            r, c = key[0].z(), key[1].z()
            w = Poly.atoms[o.stride]
            self.oblige(st, "bounds", And(r >= 0, Or(*[And(r < R, g) for R, g in o.dims]), c >= 0, c <= w - 1))

    def oblige_in(self, st, o, p, j):
        """the j-th big integer from p on exists"""
        k, x = self.index(st, o, p.off, 16)
        self.inb(st, o, x[:-1] + (x[-1] + Poly.of(j),))

    def arr_get(self, st, o, key, log=True):
        if o.id not in st.mem:
            raise Unsupported("access to dead object %r" % o)
        if log:
            for lg in self.logs:
                lg.append((o, key, tuple(st.pc)))
            self.inb(st, o, key)
        if o.base is None:
            raise Unsupported("content of %r" % o)
        r = o.base(*[p.z() for p in key])
        for u in st.mem[o.id].ups:
            g, v = usolve(u, key)
            if isz(g):
                g = z3.simplify(g)
                if z3.is_true(g):
                    g = True
                elif z3.is_false(g):
                    g = False
            if g is False:
                continue
            if g is True:
                r = v
            elif isinstance(v, (Ptr, Null)) or isinstance(r, (Ptr, Null)):
                if self.implied(st, g):
                    r = v
                elif self.implied(st, Not(g)):
                    pass
                else:
                    raise NeedFork(g)
            elif isinstance(v, Ref) or isinstance(r, Ref):
                r = Ref(If(g, reft(v), reft(r)))
            else:
                r = If(g, v, r)
        return r

    def arr_alts(self, st, o, key):
        """[(guard, pointer)]: the last entry whose guard holds is the content"""
        if o.id not in st.mem:
            raise Unsupported("access to dead object %r" % o)
        if o.base is None:
            raise Unsupported("content of %r" % o)
        out = [(True, o.base(*[p.z() for p in key]))]
        for u in st.mem[o.id].ups:
            g, v = usolve(u, key)
            if isz(g):
                g = z3.simplify(g)
                g = True if z3.is_true(g) else False if z3.is_false(g) else g
            if g is False:
                continue
            if g is True:
                out = []
            out.append((g, v))
        return out

    def arr_set(self, st, o, key, v):
        self.inb(st, o, key)
        s = self.wr(st, o)
        s.ups = s.ups + (Upd((), key, True, v),)

    def load_cell(self, st, o, off, ty):
        if o.id not in st.mem:
            raise Unsupported("access to dead object %r" % o)
        cs = st.mem[o.id].cells
        if off in cs:
            return cs[off]
        if o.zero:
            return NULL if ty == "ptr" else 0
        if o.lazy:
            if ty == "ptr":
                v = Ref(self.fresh("%s_%d" % (o.name, off)))
            elif ty == "Z":
                v = self.fresh("%s_%d" % (o.name, off))
            else:
                v = self.fresh("%s_%d" % (o.name, off))
            s = self.wr(st, o)
            s.cells[off] = v
            return v
        if ty == "Z":
            return self.fresh("uninit")
        return UNDEF

    def zget(self, st, p):
        """value of the big integer at p"""
        if isinstance(p, Ref):
            raise Unsupported("big integer of an opaque object")
        if p is NULL and self.dead(st):
            return self.fresh("none")
        if not isinstance(p, Ptr):
            raise Unsupported("big integer at %r" % (p,))
        k, x = self.index(st, p.o, p.off, 16)
        if k == "cell":
            return self.load_cell(st, p.o, x, "Z")
        if p.o.lane is None:
            self.setlane(p.o, "Z")
        if p.o.lane != "Z":
            raise Unsupported("lane of %r" % p.o)
        return self.arr_get(st, p.o, x)

    def dead(self, st):
        """access through NULL: only on an infeasible path"""
        if self.quiet:
            return True
        self.oblige(st, "access through NULL", False)
        return True

    def zset(self, st, p, v):
        if p is NULL and self.dead(st):
            return
        if not isinstance(p, Ptr):
            raise Unsupported("big integer at %r" % (p,))
        k, x = self.index(st, p.o, p.off, 16)
        if k == "cell":
            self.wr(st, p.o).cells[x] = v
            return
        if p.o.lane is None:
            self.setlane(p.o, "Z")
        if p.o.lane != "Z":
            raise Unsupported("lane of %r" % p.o)
        self.arr_set(st, p.o, x, v)

    def setlane(self, o, lane):
        o.lane = lane
        if o.base is None:
            self.uid += 1
            nm = "%s_init!%d" % (o.name, self.uid)
            if lane == "P":
                if o.zero:
                    o.base = lambda *i: NULL
            else:
                if o.zero:
                    z = Ref(0) if lane == "R" else 0
                    o.base = lambda *i: z
                else:
                    def base(*i):
                        f = z3.Function(nm, *([T.INT] * (len(i) + 1)))
                        t = f(*[x if isz(x) else z3.IntVal(x) for x in i])
                        return Ref(t) if lane == "R" else t
                    o.base = base

    # -------------------------------------------------------- operands
    def val(self, st, fr, op, ty=None):
        k = op[0]
        if k == "v":
            try:
                return fr.regs[op[1]]
            except KeyError:
                raise Unsupported("register %s" % op[1])
        if k == "c":
            return op[1]
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "g":
            n = op[1]
            if n in fr.mod.funcs or n in fr.mod.decls:
                return Fn(n, fr.mod)
            return Ptr(self.glob(st, fr.mod, n))
        if k == "zero":
            return Agg({}) if op[1].k in ("lit", "struct") else 0
        if k == "cgep":
            base = self.val(st, fr, op[2])
            return self.gep(st, fr, op[1], base, op[3])
        raise Unsupported("operand %r" % (op,))

    def glob(self, st, mod, n):
        key = (mod.src, n) if mod.globals.get(n, {}).get("internal") else n
        o = self._glob.get(key)
        if o is None:
            o = Obj("@" + n, lazy=True)
            self._glob[key] = o
            self._objs[o.id] = o
        if o.id not in st.mem:
            st.mem[o.id] = OS({})
        return o

    def gep(self, st, fr, ety, base, idx):
        if base is NULL:
            c = self.val(st, fr, idx[0][1])
            if not isz(c) and c == 0 and all(not isz(self.val(st, fr, i)) and self.val(st, fr, i) == 0 for _, i in idx):
                return NULL
            if len(idx) == 1 and isz(c):
                if self.implied(st, c == 0):
                    return NULL
                if self.quiet:
                    return NULL
                if not self.implied(st, c != 0):
                    raise NeedFork(c == 0)
            if self.dead(st):
                return NULL
            raise Unsupported("offset from NULL")
        if isinstance(base, Ref):
            raise Unsupported("field of an opaque object")
        if not isinstance(base, Ptr):
            raise Unsupported("gep base %r" % (base,))
        lay = self.w.layout(fr.mod)
        off = base.off
        t = ety
        o = base.o
        first = True
        for it, iv in idx:
            i = self.val(st, fr, iv)
            if isinstance(i, (Ptr, Ref, Null, Undef)):
                raise Unsupported("gep index")
            if first:
                sz = lay.size(t)
                off = off + Poly.of(i).scale(sz)
                if isz(i) and o.arrbase is None and o.raw and not st.mem[o.id].cells:
                    o.arrbase = 0
                    o.elsize = sz
                first = False
                continue
            if t.k in ("struct", "lit"):
                el = lay.elts(t)
                d = lay.offset(t, i)
                off = off + d
                nt = el[i]
                if i == len(el) - 1 and nt.k == "arr" and o.arrbase is None and t.k == "struct" and nt.a <= 1 \
                        and nt.b.k != "struct":
                    if off.const() is not None:
                        o.arrbase = off.const()
                        o.elsize = lay.size(nt.b)
                        if o.bytes is not None and o.n is None:
                            n = (Poly.of(o.bytes) - o.arrbase).divc(o.elsize)
                            if n is not None:
                                o.n = n.z()
                t = nt
            elif t.k == "arr":
                t = t.b
                off = off + Poly.of(i).scale(lay.size(t))
            else:
                raise Unsupported("gep into %r" % t)
        return Ptr(o, off)

    # -------------------------------------------------------- execution
    def call_top(self, st, mod, f, args):
        self.push(st, mod, f, args, None)
        return self.explore([(st, None)], None)

    def push(self, st, mod, f, args, ret):
        f.parse()
        if f.variadic:
            raise Unsupported("variadic %s" % f.name)
        if len(st.frames) > self.maxdepth:
            raise Unsupported("call depth")
        for g in st.frames:
            if g.f is f and sum(1 for h in st.frames if h.f is f) > 3:
                raise Unsupported("recursion in %s" % f.name)
        fr = Frame()
        fr.mod = mod
        fr.f = f
        fr.regs = {}
        for (n, ty, at), a in zip(f.params, args):
            fr.regs[n] = a
        fr.blk = f.order[0]
        fr.prev = None
        fr.ip = 0
        fr.ret = ret
        fr.unroll = {}
        fr.objs = ()
        st.frames.append(fr)
        self.inlined.add(f.name)

    def explore(self, work, stop):
        ends = []
        n = 0
        while work:
            st, tgt = work.pop()
            n += 1
            if n > 3000:
                raise Unsupported("too many paths")
            if n % 16 == 0:
                self.tick()
            e = self.run(st, tgt, stop, work)
            if e is not None:
                ends.append(e)
        return ends

    def run(self, st, tgt, stop, work):
        """execute until the path ends or forks"""
        while True:
            if tgt is not None:
                fr = st.frames[-1]
                src = fr.blk.name
                if stop and len(st.frames) == stop[0]:
                    if tgt == stop[1]:
                        return ("latch", st, src)
                    if tgt not in stop[2]:
                        return ("exit", st, src, tgt)
                loops = self.loops(fr.f)
                if tgt in loops:
                    L = loops[tgt]
                    if src not in L or fr.prev is None and src == tgt or fr.unroll.pop(("re", tgt), None):
                        try:
                            res = self.do_loop(st.copy(), tgt, L, src)
                            self.accel += 1
                            work.extend(res)
                            return None
                        except Unsupported as e:
                            if not self.unroll:
                                raise
                            fr.unroll[tgt] = 0
                    else:
                        fr.unroll[tgt] = fr.unroll.get(tgt, 0) + 1
                        if fr.unroll[tgt] > self.unroll:
                            raise Unsupported("loop bound in %s" % fr.f.name)
                self.enter(st, fr, tgt, src)
                tgt = None
            fr = st.frames[-1]
            b = fr.blk
            forked = False
            while fr.ip < len(b.ins):
                ins = b.ins[fr.ip]
                try:
                    if ins.op == "call":
                        r = self.call(st, fr, ins, work)
                        if r == "push":
                            forked = True
                            break
                        if r == "dead":
                            return None
                        fr.ip += 1
                        continue
                    self.step(st, fr, ins)
                except NeedFork as nf:
                    c = nf.cond
                    s2 = st.copy()
                    s2.pc.append(z3.simplify(Not(c)))
                    if self.feasible(s2.pc):
                        work.append((s2, None))
                    st.pc.append(z3.simplify(c) if isz(c) else c)
                    if not self.feasible(st.pc):
                        return None
                    continue
                fr.ip += 1
            if forked:
                continue
            t = b.term
            if t.op == "br":
                tgt = t.a[0]
                continue
            if t.op == "condbr":
                c = self.val(st, fr, t.a[0])
                c = self.asbool(c)
                if isz(c):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if not isz(c):
                    tgt = t.a[1] if c else t.a[2]
                    continue
                nc = z3.simplify(z3.Not(c))
                f1 = self.feasible(st.pc + [c])
                f2 = self.feasible(st.pc + [nc]) if f1 else True
                if f1 and f2 and nulltest(c):
                    f1 = self.check(st.pc, nc, 400) != "ok"
                    f2 = not f1 or self.check(st.pc, c, 400) != "ok"
                if f1 and f2:
                    s2 = st.copy()
                    s2.pc.append(nc)
                    work.append((s2, t.a[2]))
                    st.pc.append(c)
                    tgt = t.a[1]
                elif f1:
                    tgt = t.a[1]
                else:
                    tgt = t.a[2]
                continue
            if t.op == "switch":
                v = self.intval(self.val(st, fr, t.a[0]))
                rest = []
                done = False
                for cv, lab in t.a[2]:
                    c = T.eq(v, cv)
                    if isz(c):
                        c = z3.simplify(c)
                        if z3.is_true(c):
                            c = True
                        elif z3.is_false(c):
                            c = False
                    if c is False:
                        continue
                    if c is True:
                        tgt = lab
                        done = True
                        break
                    if self.feasible(st.pc + rest + [c]):
                        s2 = st.copy()
                        s2.pc += rest + [c]
                        work.append((s2, lab))
                    rest.append(z3.simplify(z3.Not(c)))
                if not done:
                    st.pc += rest
                    if rest and not self.feasible(st.pc):
                        return None
                    tgt = t.a[1]
                elif rest:
                    st.pc += rest
                    if not self.feasible(st.pc):
                        return None
                continue
            if t.op == "ret":
                v = self.val(st, fr, t.a[0]) if t.a[0] is not None else None
                st.frames.pop()
                if not st.frames:
                    st.retval = v
                    return ("ret", st)
                cf = st.frames[-1]
                if fr.ret is not None:
                    cf.regs[fr.ret] = v
                cf.ip += 1
                continue
            if t.op == "unreachable":
                return None
            raise Unsupported(t.op)

    def loops(self, f):
        k = id(f)
        if k not in self.lp:
            self.lp[k] = (f, natural_loops(f))
        return self.lp[k][1]

    def enter(self, st, fr, tgt, src):
        b = fr.f.blocks[tgt]
        vals = []
        for p in b.phis:
            for v, s in p.a:
                if s == src:
                    vals.append((p.res, self.val(st, fr, v)))
                    break
            else:
                raise Unsupported("phi")
        for r, v in vals:
            fr.regs[r] = v
        fr.prev = src
        fr.blk = b
        fr.ip = 0

    # -------------------------------------------------------- instructions
    def asbool(self, c):
        if isinstance(c, bool) or isz(c) and z3.is_bool(c):
            return c
        if isinstance(c, CmpVal):
            return T.ne(c.a, c.b)
        if isz(c):
            return c != 0
        if isinstance(c, int):
            return bool(c)
        raise Unsupported("condition %r" % (c,))

    def intval(self, v):
        if isinstance(v, CmpVal):
            if v.exact:
                return If(v.a < v.b, -1, If(v.a > v.b, 1, 0))
            if not isz(v.a) and not isz(v.b):
                return (v.a > v.b) - (v.a < v.b)
            a = v.a if isz(v.a) else z3.IntVal(v.a)
            b = v.b if isz(v.b) else z3.IntVal(v.b)
            return T.CMP(a, b)
        if isinstance(v, bool):
            return int(v)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isz(v) or isinstance(v, int):
            return v
        raise Unsupported("integer %r" % (v,))

    def step(self, st, fr, ins):
        op = ins.op
        R = fr.regs
        if op == "bin":
            k, a, b, fl = ins.a
            a = self.val(st, fr, a)
            b = self.val(st, fr, b)
            if ins.ty.a == 1 and k in ("and", "or", "xor"):
                a, b = self.asbool(a), self.asbool(b)
                R[ins.res] = And(a, b) if k == "and" else Or(a, b) if k == "or" else Not(T.Iff(a, b))
                return
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if k == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                    R[ins.res] = (a.off - b.off).z()
                    return
                if k == "sub" and (a is NULL or b is NULL):
                    R[ins.res] = self.fresh("ptrdiff")     # nothing is known about it
                    return
                raise Unsupported("pointer arithmetic")
            a, b = self.intval(a), self.intval(b)
            R[ins.res] = self.arith(st, k, a, b, ins.ty.a)
        elif op == "icmp":
            R[ins.res] = self.icmp(st, fr, ins)
        elif op == "cast":
            k, sty, v = ins.a
            v = self.val(st, fr, v)
            if k in ("sext", "zext"):
                if sty.k == "int" and sty.a == 1:
                    v = self.intval(self.asbool(v))
                    if k == "sext":
                        v = T.neg(v)
                else:
                    v = self.intval(v)
                    if k == "zext" and not self.nonneg(st, v):
                        m = 1 << sty.a
                        v = If(v < 0, v + m, v)
                R[ins.res] = v
            elif k == "trunc":
                v = self.intval(v)
                n = ins.ty.a
                if n == 1:
                    R[ins.res] = T.ne(v % 2, 0) if not isz(v) else z3.simplify(v % 2) != 0
                    return
                if not isz(v):
                    v &= (1 << n) - 1
                    if v >> (n - 1):
                        v -= 1 << n
                R[ins.res] = v
            elif k in ("bitcast",):
                R[ins.res] = v
            elif k == "ptrtoint" and isinstance(v, (Ptr, Null)):
                R[ins.res] = v
            else:
                raise Unsupported("cast " + k)
        elif op == "select":
            c = self.asbool(self.val(st, fr, ins.a[0]))
            a = self.val(st, fr, ins.a[1])
            b = self.val(st, fr, ins.a[2])
            if isz(c):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if not isz(c):
                R[ins.res] = a if c else b
            elif isinstance(a, Ref) and isinstance(b, Ref):
                R[ins.res] = Ref(If(c, a.t, b.t))
            elif isinstance(a, (Ptr, Null, Ref)):
                raise NeedFork(c)
            elif ins.ty.k == "int" and ins.ty.a == 1:
                R[ins.res] = If(c, self.asbool(a), self.asbool(b))
            else:
                R[ins.res] = If(c, self.intval(a), self.intval(b))
        elif op == "gep":
            ety, base, idx = ins.a
            R[ins.res] = self.gep(st, fr, ety, self.val(st, fr, base), idx)
        elif op == "load":
            R[ins.res] = self.load(st, fr, self.val(st, fr, ins.a[0]), ins.ty)
        elif op == "store":
            self.store(st, fr, self.val(st, fr, ins.a[1]), self.val(st, fr, ins.a[0]), ins.ty)
        elif op == "alloca":
            ty, cnt = ins.a
            if cnt is not None and cnt != ("c", 1, cnt[2] if len(cnt) > 2 else None):
                if cnt[1] != 1:
                    raise Unsupported("alloca array")
            o = Obj("stk." + str(ins.res))
            self.new(st, o)
            R[ins.res] = Ptr(o)
        elif op == "extractvalue":
            v = self.val(st, fr, ins.a[0])
            if not isinstance(v, Agg):
                raise Unsupported("extractvalue")
            R[ins.res] = v.v.get(tuple(ins.a[1]), 0)
        elif op == "insertvalue":
            v = self.val(st, fr, ins.a[0])
            d = dict(v.v) if isinstance(v, Agg) else {}
            d[tuple(ins.a[3])] = self.val(st, fr, ins.a[2])
            R[ins.res] = Agg(d)
        elif op == "freeze":
            R[ins.res] = self.val(st, fr, ins.a[0])
        else:
            raise Unsupported(op)

    def nonneg(self, st, v):
        if not isz(v):
            return v >= 0
        return self.implied(st, v >= 0)

    def factor(self, st, a, b):
        """a name for a compound factor of a nonlinear product (row lengths)"""
        if not isz(a) or not isz(b):
            return a
        p = Poly.of(a)
        if len(p.m) < 2 and list(p.m.values()) == [1] or Poly.of(b).const() is not None:
            return a
        s = str(a)
        if "s!" in s or any(uses(a, k) for k in self.ks):
            return a
        key = repr(p)
        n = self.named.get(key)
        if n is None:
            self.uid += 1
            n = self.named[key] = z3.Int("dim!%d" % self.uid)
        c = n == a
        if not any(isz(x) and x.get_id() == c.get_id() for x in st.pc):
            st.pc.append(c)
        return n

    def arith(self, st, k, a, b, bits):
        cz = not isz(a) and not isz(b)
        if k == "add":
            return T.add(a, b)
        if k == "sub":
            return T.sub(a, b)
        if k == "mul":
            if not cz:
                a, b = self.factor(st, a, b), self.factor(st, b, a)
                if isz(a) and isz(b):
                    self.prods[repr(Poly.of(a) * Poly.of(b))] = (a, b)
            return T.mul(a, b)
        if k in ("sdiv", "srem"):
            x = Poly.of(a).divc(b) if not isz(b) and b > 0 and isz(a) else None
            if x is not None:
                return x.z() if k == "sdiv" else 0
            if cz and b:
                q = T.tdiv(a, b)
            elif not isz(b) and b > 0 and self.nonneg(st, a):
                q = a / b
            else:
                q = T.tdiv(a, b)
            return q if k == "sdiv" else a - T.mul(q, b)
        if k in ("udiv", "urem"):
            if cz and b and a >= 0 and b > 0:
                return a // b if k == "udiv" else a % b
            if not isz(b) and b > 0 and self.nonneg(st, a):
                return a / b if k == "udiv" else a % b
            if isz(b) and self.nonneg(st, a) and self.nonneg(st, b):
                q = T.fdiv(a, b)
                return q if k == "udiv" else a - T.mul(q, b)
            raise Unsupported(k)
        if cz:
            m = (1 << bits) - 1
            ua, ub = a & m, b & m
            r = {"and": ua & ub, "or": ua | ub, "xor": ua ^ ub,
                 "shl": (ua << ub) & m if ub < 128 else 0, "lshr": ua >> ub if ub < 128 else 0,
                 "ashr": (a >> ub) if ub < 128 else 0}.get(k)
            if r is None:
                raise Unsupported(k)
            if r >> (bits - 1):
                r -= 1 << bits
            return r
        if k == "and":
            if not isz(a):
                a, b = b, a
            if not isz(b) and b == 1:
                return a % 2
            if not isz(b) and b == 0:
                return 0
            if not isz(b) and b > 0 and (b & (b + 1)) == 0:
                return a % (b + 1)
        if k == "shl" and not isz(b):
            return T.mul(a, 1 << b)
        if k == "lshr" and not isz(b) and self.nonneg(st, a):
            return a / (1 << b)
        if k == "xor" and not isz(b) and b == -1:
            return -a - 1
        if k == "or" and not isz(b) and b == 0:
            return a
        raise Unsupported("%s on symbolic values" % k)

    def icmp(self, st, fr, ins):
        pred, ty, a, b = ins.a
        a = self.val(st, fr, a)
        b = self.val(st, fr, b)
        if ty.k == "ptr":
            if pred in ("ult", "ule", "ugt", "uge") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                x, y = a.off.z(), b.off.z()
                return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            if pred in ("ult", "ule", "ugt", "uge") and (a is NULL) + (b is NULL) + isinstance(a, Ptr) + isinstance(b, Ptr) == 2:
                x, y = int(a is not NULL), int(b is not NULL)      # NULL is address 0
                return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            r = self.ptreq(a, b)
            if r is None or pred not in ("eq", "ne"):
                raise Unsupported("pointer comparison %r %r" % (a, b))
            return r if pred == "eq" else Not(r)
        if isinstance(a, CmpVal) and b == 0 and not isz(b):
            x, y = a.a, a.b
            if pred == "eq":
                return T.eq(x, y)
            if pred == "ne":
                return T.ne(x, y)
            if pred == "slt":
                return x < y
            if pred == "sle":
                return x <= y
            if pred == "sgt":
                return x > y
            if pred == "sge":
                return x >= y
        if isinstance(b, CmpVal) and a == 0 and not isz(a):
            x, y = b.a, b.b
            return {"eq": lambda: T.eq(x, y), "ne": lambda: T.ne(x, y), "sgt": lambda: x < y, "sge": lambda: x <= y,
                    "slt": lambda: x > y, "sle": lambda: x >= y}[pred]()
        if ty.a == 1:
            a, b = self.asbool(a), self.asbool(b)
            e = T.Iff(a, b)
            if pred == "eq":
                return e
            if pred == "ne":
                return Not(e)
            a, b = self.intval(a), self.intval(b)
        if isinstance(a, CmpVal) and isinstance(b, CmpVal):
            pass
        a, b = self.intval(a), self.intval(b)
        # zext i1 / boolean compared with a constant
        if pred == "eq":
            return T.eq(a, b)
        if pred == "ne":
            return T.ne(a, b)
        if pred[0] == "u":
            m = 1 << ty.a
            if not self.nonneg(st, a):
                a = If(a < 0, a + m, a)
            if not self.nonneg(st, b):
                b = If(b < 0, b + m, b)
        p = pred[1:]
        if p == "lt":
            return a < b
        if p == "le":
            return a <= b
        if p == "gt":
            return a > b
        return a >= b

    def ptreq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return T.eq(a.t, b.t)
        if isinstance(a, Ref) and b is NULL:
            return T.eq(a.t, 0)
        if isinstance(b, Ref) and a is NULL:
            return T.eq(b.t, 0)
        if a is NULL or b is NULL:
            return False if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)) else None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o:
                d = (a.off - b.off)
                c = d.const()
                if c is not None:
                    return c == 0
                return T.eq(d.z(), 0)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        return None

    def load(self, st, fr, p, ty):
        if isinstance(p, Ref):
            raise Unsupported("load from an opaque object")
        if not isinstance(p, Ptr):
            raise Unsupported("load from %r" % (p,))
        if p.o.id in st.freed:
            raise Unsupported("load from freed object")
        if ty.k in ("lit", "struct"):
            lay = self.w.layout(fr.mod)
            d = {}
            for i, e in enumerate(lay.elts(ty)):
                d[(i,)] = self.load(st, fr, Ptr(p.o, p.off + lay.offset(ty, i)), e)
            return Agg(d)
        if ty.k not in ("int", "ptr"):
            raise Unsupported("load %r" % ty)
        sz = self.w.layout(fr.mod).size(ty)
        k, x = self.index(st, p.o, p.off, sz)
        if k == "cell":
            return self.load_cell(st, p.o, x, "ptr" if ty.k == "ptr" else "int")
        if p.o.lane is None:
            self.setlane(p.o, "I" if ty.k == "int" else "P" if p.o.zero else "R")
        if p.o.lane == "Z":
            raise Unsupported("raw read of a big integer")
        return self.arr_get(st, p.o, x)

    def store(self, st, fr, p, v, ty):
        if isinstance(p, Ref):
            raise Unsupported("store to an opaque object")
        if not isinstance(p, Ptr):
            raise Unsupported("store to %r" % (p,))
        if p.o.id in st.freed:
            raise Unsupported("store to freed object")
        if isinstance(v, Agg):
            lay = self.w.layout(fr.mod)
            for i, e in enumerate(lay.elts(ty)):
                self.store(st, fr, Ptr(p.o, p.off + lay.offset(ty, i)), v.v.get((i,), 0), e)
            return
        sz = self.w.layout(fr.mod).size(ty)
        k, x = self.index(st, p.o, p.off, sz)
        if isinstance(v, CmpVal) or isinstance(v, bool) or isz(v) and z3.is_bool(v):
            v = self.intval(v)
        if k == "cell":
            self.wr(st, p.o).cells[x] = v
            return
        if p.o.lane is None:
            if isinstance(v, Ptr):
                self.setlane(p.o, "P")
            elif isinstance(v, (Ref, Null)):
                self.setlane(p.o, "R")
            else:
                self.setlane(p.o, "I")
        if p.o.lane == "Z":
            raise Unsupported("raw write of a big integer")
        if p.o.lane == "R" and v is NULL:
            v = Ref(0)
        if p.o.lane == "R" and not isinstance(v, Ref):
            raise Unsupported("store of %r into reference array" % (v,))
        if p.o.lane == "P" and not isinstance(v, (Ptr, Null)):
            raise Unsupported("store of %r into pointer array" % (v,))
        self.arr_set(st, p.o, x, v)

    # -------------------------------------------------------- calls
    def call(self, st, fr, ins, work):
        callee, args = ins.a
        if callee[0] == "g":
            name = callee[1]
        else:
            v = self.val(st, fr, callee)
            if isinstance(v, Fn):
                name = v.name
            else:
                a = [self.val(st, fr, x[1]) for x in args]
                return self.callback(st, fr, ins, v, a)
        a = [self.val(st, fr, x[1]) for x in args]
        h = INTR.get(name)
        if h is not None:
            self.trusted.add(name)
            r = h(self, st, a)
            if isinstance(r, str):
                return "dead"
            if ins.res is not None:
                fr.regs[ins.res] = r
            return None
        if a and isinstance(a[0], Ref) and not self.w.inline_ref(name):
            # an element of a list: its type is abstract, only its identity matters
            if name.endswith("_copy"):
                self.trusted.add("*_copy")
                fr.regs[ins.res] = a[0]
                return None
            if name.endswith("_free"):
                self.trusted.add("*_free")
                if ins.res is not None:
                    fr.regs[ins.res] = NULL
                return None
            if name.endswith("_get_ctx"):
                self.trusted.add("*_get_ctx")
                fr.regs[ins.res] = Ptr(self.ctxobj)
                return None
        key = self.w.key_of(fr.mod.src, name)
        if key is None or key not in self.w.fn:
            raise Unsupported("call to %s" % name)
        h = SUMMARY.get(name)
        if h is not None and not self.unroll:
            # the callee is represented by its contract
            r = h(self, st, a)
            if r is not NotImplemented:
                self.modular.add(name)
                if ins.res is not None:
                    fr.regs[ins.res] = r
                return None
        mod, f = self.w.fn[key]
        self.push(st, mod, f, a, ins.res)
        return "push"

    def callback(self, st, fr, ins, v, a):
        if not isinstance(v, Cb) or not a or not isinstance(a[0], Ref):
            raise Unsupported("indirect call")
        k = self.load_cell(st, v.o, 0, "int")
        self.arr_set(st, v.o, (Poly.of(k),), a[0])
        self.wr(st, v.o).cells[0] = k + 1
        if ins.res is not None:
            fr.regs[ins.res] = v.res(k)
        return None

    # -------------------------------------------------------- loops
    def do_loop(self, st, hdr, blocks, pred):
        fr = st.frames[-1]
        f = fr.f
        depth = len(st.frames)
        phis = f.blocks[hdr].phis
        ent = {}
        for p in phis:
            for v, s in p.a:
                if s == pred:
                    ent[p.res] = self.val(st, fr, v)
        self.uid += 1
        uid = self.uid
        nks = len(self.ks)
        if nks:
            k = z3.Function("k!%d" % uid, *([T.INT] * (nks + 1)))(*self.ks)
        else:
            k = z3.Int("k!%d" % uid)
        kid = T.atom_id(k)
        hyp = {}        # loop variable -> hypothesis
        ekeys = {}      # array elements used as accumulators
        for r, v in ent.items():
            if isinstance(v, (bool, CmpVal)) or isz(v) and z3.is_bool(v):
                v = ent[r] = self.intval(v)
            if isinstance(v, (Null, Fn, Undef, Agg, Cb)) or isinstance(v, Ptr) and (v.o.arrbase or 0) > 0 and v.off.const() == 0 \
                    or isinstance(v, Ptr) and v.o.arrbase is None and not (v.o.raw and not st.mem[v.o.id].cells):
                hyp[("p", r)] = ("inv", v)
            else:
                hyp[("p", r)] = ("sym", self.fresh("s"), v)
        L = None
        signs = []
        stable = False
        for rnd in range(9):
            self.tick()
            final = not any(h[0] == "sym" for h in hyp.values()) and stable
            s0 = st.copy()
            f0 = s0.frames[-1]
            for key, h in hyp.items():
                v = self.hval(h, k)
                if key[0] == "p":
                    f0.regs[key[1]] = v
                elif key[0] == "e":
                    o = self._objs[key[1]]
                    self.wr(s0, o)
                    s0.mem[o.id].ups = s0.mem[o.id].ups + (Upd((), ekeys[key], True, v),)
                else:
                    o = self._objs[key[1]]
                    self.wr(s0, o).cells[key[2]] = v
            f0.prev = pred
            f0.blk = f.blocks[hdr]
            f0.ip = 0
            s0.pc.append(k >= 0)
            if L is not None:
                s0.pc += L
            s0.pc += signs
            npc = len(s0.pc)
            self.ks.append(k)
            savelogs = self.logs
            log = []
            if final:
                self.logs = self.logs + [log]
            else:
                self.logs = []
                self.quiet += 1
            save = (self.obl, self.ok, len(self.failed), len(self.unknown))
            try:
                ends = self.explore([(s0.copy(), None)], (depth, hdr, blocks))
            finally:
                self.ks.pop()
                self.logs = savelogs
                if not final:
                    self.quiet -= 1
            latches = []
            brk = []        # iterations that give a pointer a different object: the loop is entered anew
            # next values
            stable = True
            newhyp = dict(hyp)
            steps = {}
            for e in ends:
                if e[0] != "latch":
                    continue
                _, s, src = e
                fs = s.frames[-1]
                nxt = {}
                for p in phis:
                    for v, b in p.a:
                        if b == src:
                            x = self.val(s, fs, v)
                            if isinstance(x, (bool, CmpVal)) or isz(x) and z3.is_bool(x):
                                x = self.intval(x)
                            nxt[("p", p.res)] = x
                if any(hyp[key][0] == "inv" and isinstance(hyp[key][1], (Ptr, Null)) and not same(x, hyp[key][1])
                       for key, x in nxt.items()):
                    brk.append(e)
                    continue
                latches.append(e)
                for oid, os_ in s.mem.items():
                    if oid not in s0.mem:
                        continue
                    old = s0.mem[oid].cells
                    for off in set(os_.cells) | set(old):
                        a, b = old.get(off, UNDEF), os_.cells.get(off, UNDEF)
                        if ("c", oid, off) in hyp or not same(a, b):
                            nxt[("c", oid, off)] = b
                for oid, os_ in s.mem.items():
                    if oid not in s0.mem or os_.ups is s0.mem[oid].ups:
                        continue
                    add = os_.ups[len(s0.mem[oid].ups):]
                    ek = [key for key in hyp if key[0] == "e" and key[1] == oid]
                    if ek:
                        continue
                    if not add or any(u.ks or u.cond is not True or not (isz(u.val) or isinstance(u.val, int)) for u in add):
                        continue
                    K0 = add[0].key
                    if any(u.key != K0 for u in add):
                        continue
                    mine = [k] + [h[1] for h in hyp.values() if h[0] == "sym"]
                    if any(isz(x.z()) and uses(x.z(), y) for x in K0 for y in mine):
                        continue
                    key = ("e", oid, str(K0))
                    ekeys[key] = K0
                    self.quiet += 1
                    try:
                        v0 = self.arr_get(st, self._objs[oid], K0, log=False)
                    finally:
                        self.quiet -= 1
                    newhyp[key] = ("sym", self.fresh("s"), v0)
                    stable = False
                for key in hyp:
                    if key[0] != "e" or key[1] not in s.mem:
                        continue
                    add = s.mem[key[1]].ups[len(s0.mem[key[1]].ups):]
                    if any(u.ks or u.cond is not True or u.key != ekeys[key] for u in add):
                        raise Unsupported("accumulator")
                    nxt[key] = add[-1].val if add else self.hval(hyp[key], k)
                if s.freed != s0.freed:
                    raise Unsupported("object freed in loop")
                if s.err != st.err:
                    raise Unsupported("error in loop")
                for key, v in nxt.items():
                    steps.setdefault(key, []).append((s, v))
            for key, lst in steps.items():
                h = hyp.get(key)
                if h is None:
                    # a cell that changes: start value
                    o = self._objs[key[1]]
                    v0 = st.mem[key[1]].cells.get(key[2], UNDEF)
                    newhyp[key] = self.newcell(v0, lst)
                    stable = False
                    continue
                if h[0] == "sym":
                    newhyp[key] = self.classify(h, lst, [k] + [x[1] for x in hyp.values() if x[0] == "sym"])
                    stable = False
                elif h[0] == "aff":
                    good = True
                    for s, v in lst:
                        want = self.hval(h, k + 1)
                        if not self.sameval(s, v, want):
                            good = False
                    if not good:
                        newhyp[key] = self.mkfold(h[1], lst)
                        stable = False
                elif h[0] == "inv":
                    for s, v in lst:
                        if not same(v, h[1]):
                            raise Unsupported("loop-carried pointer")
                elif h[0] == "ghost":
                    pass
            nL = self.latchfacts(latches, npc, k)
            if final and stable:
                break
            if stable and not signs:
                signs = self.signs(st, hyp, latches, k)
            if stable:
                # candidate recursively defined functions for the remaining folds
                for key, h in list(newhyp.items()):
                    if h[0] == "fold" and key in steps and self.ghosts:
                        self._hyp = hyp
                        g = self.ghost(st, h, steps[key], k)
                        if g is not None:
                            newhyp[key] = g
            if DEBUG:
                print("ROUND", rnd, "stable", stable, {str(kk): (h[0],) + tuple(str(x)[:60] for x in h[1:3]) for kk, h in newhyp.items()})
            hyp = newhyp
            L = nL
        else:
            raise Unsupported("no loop invariant found")
        return self.compose(st, s0, npc, k, kid, ends, latches, log, phis, hyp, brk, hdr)

    def signs(self, st, hyp, latches, k):
        """counters that go down and stay non-negative"""
        out = []
        for h in hyp.values():
            if h[0] != "aff" or not (isz(h[1]) or isinstance(h[1], int)):
                continue
            d = h[2].const()
            if d is None or d >= 0:
                continue
            c = lambda x: self.hval(h, x) >= 0
            if self.check(st.pc, c(0), 500) == "ok" and \
                    all(self.check(s.pc + [c(k)], c(k + 1), 500) == "ok" for _, s, _ in latches):
                out.append(c(k))
        return out

    def newcell(self, v0, lst):
        if isinstance(v0, Undef):
            if all(isz(v) or isinstance(v, int) for _, v in lst):
                return ("fold", self.foldfn(), None, "int")
            return ("undef",)
        if isinstance(v0, (Null, Fn, Agg)):
            raise Unsupported("pointer cell changes in loop")
        return ("sym", self.fresh("s"), v0)

    def foldfn(self):
        self.uid += 1
        return z3.Function("F!%d" % self.uid, *([T.INT] * (len(self.ks) + 2)))

    def mkfold(self, v0, lst):
        if isinstance(v0, Ptr):
            raise Unsupported("pointer fold")
        return ("fold", self.foldfn(), v0, "ref" if isinstance(v0, Ref) else "int")

    def hval(self, h, k):
        if h[0] == "inv":
            return h[1]
        if h[0] == "undef":
            return UNDEF
        if h[0] == "sym":
            if isinstance(h[2], Ptr):
                return Ptr(h[2].o, Poly.of(h[1]))
            if isinstance(h[2], Ref):
                return Ref(h[1])
            return h[1]
        if h[0] == "aff":
            v0, d = h[1], h[2]
            x = Poly.of(k) * d
            if isinstance(v0, Ptr):
                return Ptr(v0.o, v0.off + x)
            return (Poly.of(v0) + x).z()
        if h[0] == "fold":
            t = h[1](*(self.ks_args(h[1].arity() - 1) + [k]))
            return Ref(t) if h[3] == "ref" else t
        if h[0] == "ghost":
            return h[1].at(k + h[2])
        raise Unsupported(h[0])

    def ks_args(self, n):
        return list(self.ks[:n])

    def classify(self, h, lst, mine):
        """one-iteration behaviour of a loop variable"""
        _, s, v0 = h
        sid = T.atom_id(s)
        delta = None
        for stt, v in lst:
            if isinstance(v0, Ptr):
                if not (isinstance(v, Ptr) and v.o is v0.o):
                    raise Unsupported("loop-carried pointer")
                d = v.off - Poly.of(s)
            elif isinstance(v0, Ref):
                if isinstance(v, Ref) and T.atom_id(v.t) == sid:
                    d = Poly({})
                else:
                    return self.mkfold(v0, lst)
            elif isz(v) or isinstance(v, int):
                d = Poly.of(v) - Poly.of(s)
            else:
                return self.mkfold(v0, lst)
            if any(uses(Poly.atoms[a], x) for m in d.m for a in m for x in mine):
                return self.mkfold(v0, lst)
            if delta is None:
                delta = d
            elif delta != d:
                return self.mkfold(v0, lst)
        if delta is None:
            delta = Poly({})
        if isinstance(v0, Ref):
            return ("inv", v0)
        return ("aff", v0, delta)

    def sameval(self, s, v, want):
        if isinstance(v, Ptr) and isinstance(want, Ptr):
            return v.o is want.o and (v.off == want.off or self.implied(s, T.eq(v.off.z(), want.off.z())))
        if (isz(v) or isinstance(v, int)) and (isz(want) or isinstance(want, int)):
            return Poly.of(v) == Poly.of(want) or self.implied(s, T.eq(v, want))
        return same(v, want)

    def ghost(self, st, h, lst, k):
        v0 = h[2]
        if v0 is None or not (isz(v0) or isinstance(v0, int)):
            return None
        F = self.hval(h, k)
        import itertools
        gs = []
        starts = [x[1] for x in self._hyp.values() if x[0] == "aff" and (isz(x[1]) or isinstance(x[1], int))]
        offs = [0, 1] + [x for x in starts if isz(x)]
        for g in self.ghosts:
            if hasattr(g, "start"):
                gs.append(g.start(v0))
            if not getattr(g, "np", 0):
                gs.append(g)
            else:
                gs += [g.inst(ps) for ps in itertools.permutations(self.ks, g.np)]
        for g in gs:
            for c in offs:
                if self.check(st.pc, T.eq(v0, g.at(c)), 800) != "ok":
                    continue
                if DEBUG:
                    print("GHOST start ok", c)
                good = True
                for s, v in lst:
                    if not (isz(v) or isinstance(v, int)):
                        good = False
                        break
                    vv = z3.substitute(v, (F, g.at(k + c))) if isz(v) else v
                    pc = [z3.substitute(x, (F, g.at(k + c))) if isz(x) else x for x in s.pc]
                    r = self.check(pc, T.eq(vv, g.at(k + c + 1)), 1500)
                    if r != "ok":
                        if DEBUG:
                            print("GHOST step", r, vv, pc)
                        good = False
                        break
                if good:
                    return ("ghost", g, c)
        return None

    def latchfacts(self, latches, npc, k):
        """facts about the previous iterations, usable at iteration k"""
        out = []
        self.uid += 1
        if self.ks:
            j = z3.Function("j!%d" % self.uid, *([T.INT] * (len(self.ks) + 1)))(*self.ks)
        else:
            j = z3.Int("j!%d" % self.uid)
        if not latches:
            return [k == 0]
        items = []
        if len(latches) == 1:
            items = latches[0][1].pc[npc:]
        else:
            alts = []
            for _, s, _ in latches:
                bs = [c for c in s.pc[npc:] if isz(c)]
                alts.append(And(*bs))
            d = Or(*alts)
            if isz(d):
                items = [d]
        for c in items:
            if isinstance(c, QF):
                sub = [(k, j)]
                vs = [(j, k)] + [(z3.substitute(v, *sub), z3.substitute(K, *sub) if isz(K) else K) for v, K in c.vs]
                out.append(QF(vs, z3.substitute(c.body, *sub)))
                continue
            if not isz(c):
                continue
            out.append(z3.Implies(k >= 1, z3.substitute(c, (k, k - 1))))
            cj = z3.substitute(c, (k, j))
            if any(uses(a, j) for a in T.apps([cj])):
                out.append(QF([(j, k)], cj))
        return out

    def compose(self, st, s0, npc, k, kid, ends, latches, log, phis, hyp, brk, hdr):
        multi = len(latches) > 1
        self.uid += 1
        if self.ks:
            j = z3.Function("r!%d" % self.uid, *([T.INT] * (len(self.ks) + 1)))(*self.ks)
        else:
            j = z3.Int("r!%d" % self.uid)
        regions = {}      # object id -> list of Upd (with k still free)
        common = None
        for _, s, _ in latches:
            ids = [c.get_id() for c in s.pc[npc:] if isz(c)]
            common = set(ids) if common is None else common & set(ids)
        writes = []       # (oid, Upd, latch state)
        sel = None
        selfacts = []
        if multi and any(isinstance(c, QF) for _, s, _ in latches for c in s.pc[npc:]) and \
                any(os_.ups is not s0.mem[oid].ups for _, s, _ in latches for oid, os_ in s.mem.items() if oid in s0.mem):
            # which path iteration k takes: an uninterpreted function
            self.uid += 1
            sel = z3.Function("sel!%d" % self.uid, *([T.INT] * (len(self.ks) + 2)))(*(list(self.ks) + [k]))
            sub = [(k, j)]
            selfacts.append(QF([(j, k)], z3.substitute(z3.And(sel >= 0, sel < len(latches)), *sub)))
            for i, (_, s, _) in enumerate(latches):
                g = z3.substitute(sel == i, *sub)
                for c in s.pc[npc:]:
                    if isinstance(c, QF):
                        vs = [(j, k)] + [(z3.substitute(v, *sub), z3.substitute(K, *sub) if isz(K) else K) for v, K in c.vs]
                        selfacts.append(QF(vs, z3.Implies(g, z3.substitute(c.body, *sub))))
                    elif c.get_id() not in common:
                        selfacts.append(QF([(j, k)], z3.Implies(g, z3.substitute(c, *sub))))
        for li, (_, s, _) in enumerate(latches):
            cond = []
            hasq = False
            for c in s.pc[npc:]:
                if isinstance(c, QF):
                    hasq = True
                elif c.get_id() not in common:
                    cond.append(c)
            for oid, os_ in s.mem.items():
                if oid not in s0.mem:
                    continue
                e = s0.mem[oid].ups
                if os_.ups is e or os_.ups == e:
                    continue
                if os_.ups[:len(e)] != e:
                    raise Unsupported("array history")
                if any(key[0] == "e" and key[1] == oid for key in hyp):
                    continue
                if sel is not None:
                    cond = [sel == li]
                for u in os_.ups[len(e):]:
                    u2 = Upd(u.ks, u.key, And(u.cond, *cond) if multi else u.cond, u.val)
                    writes.append((oid, u2, s))
        # values must not refer to objects of one iteration
        for oid, u, s in writes:
            if isinstance(u.val, Ptr) and u.val.o.id not in s0.mem:
                raise Unsupported("object allocated in loop is stored")
        self.independent(st, s0, npc, k, writes, log)
        res = []
        prev = self.latchfacts(latches, npc, k)
        for e in ends:
            if e[0] == "latch":
                if not any(e is b for b in brk):
                    continue
                _, s, src = e
                tgt = hdr
                n = s.frames[-1].unroll.get(("n", hdr), 0)
                if n >= 3:
                    raise Unsupported("loop-carried pointer")
                s = s.copy()
                s.frames[-1].unroll[("n", hdr)] = n + 1
                s.frames[-1].unroll[("re", hdr)] = True
            elif e[0] != "exit":
                raise Unsupported("return from within loop")
            else:
                _, s, src, tgt = e
                s = s.copy()
            for x in prev:
                s.pc.append(x)
            s.pc += selfacts
            byobj = {}
            for oid, u, ls in writes:
                sub = [(k, j)]
                u2 = usub(u, sub, ((j, k),))
                byobj.setdefault(oid, []).append(u2)
            for oid, us in byobj.items():
                base = s0.mem[oid].ups
                own = s.mem[oid].ups[len(base):]
                c = s.mem[oid].copy()
                c.ups = base + tuple(us) + own
                s.mem[oid] = c
            if self.feasible(s.pc):
                res.append((s, tgt))
        return res

    def independent(self, st, s0, npc, k, writes, log):
        """no iteration reads or writes an element written by an earlier one"""
        if not writes or self.quiet:
            return
        a = z3.Int("a!%d" % (self.uid + 1))
        self.uid += 1
        # rename inner iteration symbols of the earlier iteration
        for oid, u, s in writes:
            for oid2, u2, s2 in writes:
                if oid2 != oid:
                    continue
                self.disjoint(s0, k, a, u, s.pc[npc:], oid, u2.key, u2.ks, u2.cond, s2.pc[npc:])
            for o, key, pc in log:
                if o.id != oid:
                    continue
                self.disjoint(s0, k, a, u, s.pc[npc:], oid, key, (), True, list(pc)[npc:])

    def disjoint(self, s0, k, a, u, pce, oid, key, ks, cond, pcl):
        """u at iteration a < k never hits key at iteration k"""
        if len(u.key) != len(key):
            raise Unsupported("mixed dimensions")
        # quick syntactic test: same affine index with non-zero coefficient of k
        kid = T.atom_id(k)
        sub = [(k, a)]
        vs = []
        for i, (v, K) in enumerate(u.ks):
            self.uid += 1
            nv = z3.Int("b!%d" % self.uid)
            vs.append((v, nv, K))
        sub2 = sub + [(v, nv) for v, nv, K in vs]

        def S(x):
            if not isz(x):
                return x
            x = z3.substitute(x, *[(v, nv) for v, nv, K in vs]) if vs else x
            return z3.substitute(x, (k, a))
        cs = [a >= 0, a < k]
        for v, nv, K in vs:
            cs += [nv >= 0, nv < S(K)]
        for v, K in ks:
            cs += [v >= 0, v < K]
        for x, y in zip(u.key, key):
            xz, yz = x.z(), y.z()
            cs.append(T.eq(S(xz), yz))
        if cond is not True:
            cs.append(cond)
        if u.cond is not True:
            cs.append(S(u.cond))
        cs += [S(c) for c in pce if isz(c)]
        cs += [c for c in pcl if isz(c)]
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs):
            return
        s = z3.Solver()
        s.set("timeout", 1500)
        allc = [c for c in s0.pc if isz(c)] + cs
        s.add(*allc)
        t = time.time()
        r = s.check()
        if r != z3.unsat:
            ins = self.instances(s0.pc, allc)
            if ins:
                s.add(*ins)
                r = s.check()
        self.solver_s += time.time() - t
        if r != z3.unsat:
            if DEBUG:
                print("DEP", u.key, key, u.cond, cond, u.ks, ks)
            raise Unsupported("iterations of a loop are not independent (%s)" % self._objs[oid].name)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


def nulltest(c):
    """is c a test of an array element against NULL?"""
    if z3.is_not(c):
        c = c.arg(0)
    return z3.is_eq(c) and any(x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and
                               z3.is_int_value(y) and y.as_long() == 0 for x, y in (c.children(), c.children()[::-1]))


def uses(t, v):
    i = v.get_id()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() == i:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def reft(v):
    if isinstance(v, Ref):
        return v.t
    if v is NULL:
        return 0
    raise Unsupported("reference %r" % (v,))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and a.off == b.off
    if isinstance(a, Ref) and isinstance(b, Ref):
        return same(a.t, b.t)
    if isz(a) and isz(b):
        return a.get_id() == b.get_id()
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return False


def psub(p, sub):
    z = p.z()
    return Poly.of(z3.substitute(z, *sub)) if isz(z) else p


def vsub(v, sub):
    if isz(v):
        return z3.substitute(v, *sub)
    if isinstance(v, Ref):
        return Ref(vsub(v.t, sub))
    if isinstance(v, Ptr):
        return Ptr(v.o, psub(v.off, sub))
    return v


def usub(u, sub, outer):
    ks = tuple((vsub(v, sub), vsub(K, sub)) for v, K in u.ks)
    return Upd(outer + ks, tuple(psub(p, sub) for p in u.key), vsub(u.cond, sub), vsub(u.val, sub))


def zi(x):
    return x if isz(x) else z3.IntVal(x)


def solve_for(eqs, vids):
    """eqs: list of Poly == 0; solve for the atoms vids, triangularly -> (solution, residual eqs)"""
    sol = {}
    extra = []
    eqs = list(eqs)
    todo = list(vids)
    progress = True
    while todo and progress:
        progress = False
        for e in eqs:
            us = [v for v in todo if e.uses(v)]
            if not us:
                r = invert(e, todo)
                if r is not None:
                    v, s, x = r
                    extra.append(x)
                    sol[v] = s
                    todo.remove(v)
                    sub = (Poly.atoms[v], zi(s.z()))
                    eqs = [Poly.of(z3.substitute(y.z(), sub)) if isz(y.z()) else y for y in eqs if y is not e]
                    progress = True
                    break
                continue
            if len(us) != 1:
                continue
            v = us[0]
            c = e.m.get((v,))
            if c is None or any(v in k and k != (v,) for k in e.m):
                continue
            rest = Poly({k: w for k, w in e.m.items() if k != (v,)})
            if abs(c) == 1:
                s = rest.scale(-c)
            else:
                rz = rest.scale(-1 if c > 0 else 1).z()
                if not isz(rz):
                    s = Poly.of(rz // abs(c))
                else:
                    s = Poly.of(rz / abs(c))
                extra.append(s.scale(c) + rest)      # divisible
            sol[v] = s
            todo.remove(v)
            z = Poly.atoms[v]
            sz = s.z()
            sz = sz if isz(sz) else z3.IntVal(sz)
            eqs = [Poly.of(z3.substitute(x.z(), (z, sz))) if isz(x.z()) else x for x in eqs if x is not e]
            progress = True
            break
    if todo:
        return None, None
    # substitute solutions into one another
    ch = True
    n = 0
    while ch and n < 4:
        ch = False
        n += 1
        for v in sol:
            for w in sol:
                if v != w and sol[v].uses(w):
                    wz = sol[w].z()
                    sol[v] = Poly.of(z3.substitute(sol[v].z(), (Poly.atoms[w], wz if isz(wz) else z3.IntVal(wz))))
                    ch = True
    if extra:
        sub = [(Poly.atoms[v], zi(x.z())) for v, x in sol.items()]
        eqs = eqs + [Poly.of(z3.substitute(x.z(), *sub)) if isz(x.z()) else x for x in extra]
    return sol, eqs


INVERSE = {}      # injective function -> its inverse


def invert(e, todo):
    """solve f(v + c) + rest == 0 for v, f injective -> (v, solution, residual)"""
    for a in e.m:
        if len(a) != 1 or abs(e.m[a]) != 1:
            continue
        t = Poly.atoms[a[0]]
        if not z3.is_app(t) or t.num_args() != 1 or t.decl().name() not in INVERSE:
            continue
        arg = Poly.of(t.arg(0))
        us = [v for v in todo if arg.uses(v)]
        if len(us) != 1 or arg.m.get((us[0],)) != 1 or any(us[0] in k and k != (us[0],) for k in arg.m):
            continue
        v = us[0]
        c = Poly({k: w for k, w in arg.m.items() if k != (v,)})
        rest = Poly({k: w for k, w in e.m.items() if k != a}).scale(-e.m[a])
        if any(uses(Poly.atoms[x], Poly.atoms[v]) for k in rest.m for x in k):
            continue
        rz = rest.z()
        if isz(rz) and z3.is_app(rz) and rz.num_args() == 1 and rz.decl().eq(t.decl()):
            return v, Poly.of(rz.arg(0)) - c, Poly({})
        y = INVERSE[t.decl().name()](zi(rz))
        return v, Poly.of(y) - c, Poly.of(t.decl()(y)) - rest
    return None


def match(pa, ga, vids):
    sol, rest = solve_for([p - g for p, g in zip(pa, ga)], [v for v in vids])
    if sol is None:
        return None
    for r in rest:
        c = r.const()
        if c is not None and c != 0:
            return None
    return sol


BV = [0]


def renaming(ks):
    """bound variables of inner loops are applications of the outer ones: plain constants instead"""
    sub = []
    for v, K in ks:
        BV[0] += 1
        sub.append((v, z3.Int("bv!%d" % BV[0])))
    return sub


def plain(u):
    if all(v.num_args() == 0 for v, K in u.ks):
        return u
    if u.nf is None:
        sub = renaming(u.ks)
        ks = tuple((c, msub(K, sub)) for (v, K), (_, c) in zip(u.ks, sub))
        key = tuple(Poly.of(msub(p.z(), sub)) if isz(p.z()) else p for p in u.key)
        u.nf = Upd(ks, key, msub(u.cond, sub), vmsub(u.val, sub))
    return u.nf


def plainq(q):
    if all(v.num_args() == 0 for v, K in q.vs):
        return q
    if q.nf is None:
        sub = renaming(q.vs)
        q.nf = QF([(c, msub(K, sub)) for (v, K), (_, c) in zip(q.vs, sub)], msub(q.body, sub))
    return q.nf


def usolve(u, key):
    """guard and value of an update at the given index"""
    u = plain(u)
    if len(u.key) != len(key):
        raise Unsupported("mixed dimensions")
    eqs = [a - b for a, b in zip(u.key, key)]
    if not u.ks:
        cs = []
        for e in eqs:
            c = e.const()
            if c is not None:
                if c:
                    return False, None
                continue
            cs.append(T.eq(e.z(), 0))
        return And(u.cond, *cs), u.val
    vids = [T.atom_id(v) for v, K in u.ks]
    sol, rest = solve_for(eqs, vids)
    if sol is None:
        raise Unsupported("cannot invert an array index %r %r" % (u.key, key))
    sub = []
    for v, K in u.ks:
        z = sol[T.atom_id(v)].z()
        sub.append((v, z if isz(z) else z3.IntVal(z)))
    # bound variables may occur in one another (functions of the outer variable)
    cs = []
    for (v, K), (_, z) in zip(u.ks, sub):
        Kz = msub(K, sub)
        cs += [z >= 0, z < Kz]
    for e in rest:
        c = e.const()
        if c is not None:
            if c:
                return False, None
            continue
        cs.append(T.eq(e.z(), 0))
    return And(msub(u.cond, sub), *cs), vmsub(u.val, sub)


def msub(t, sub):
    if not isz(t):
        return t
    # innermost variables may be applications of the outer ones: replace them first
    for v, z in reversed(sub):
        t = z3.substitute(t, (v, z))
    return t


def vmsub(v, sub):
    if isinstance(v, Ref):
        return Ref(msub(v.t, sub))
    if isinstance(v, Ptr):
        z = v.off.z()
        return Ptr(v.o, Poly.of(msub(z, sub)) if isz(z) else v.off)
    return msub(v, sub)


# ------------------------------------------------------------------ trusted externals
INTR = {}


SUMMARY = {}


def summary(*names):
    """contract of a function, used for its calls"""
    def d(f):
        for n in names:
            SUMMARY[n] = f
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def zop(fn, nsrc=2, conv=None):
    def h(ex, st, a):
        xs = []
        for i in range(nsrc):
            p = a[1 + i]
            if conv and conv[i] == "i":
                xs.append(ex.intval(p))
            else:
                xs.append(ex.zget(st, p))
        ex.zset(st, a[0], fn(*xs))
        return None
    return h


for _n, _f in (("mpz_add", T.add), ("mpz_sub", T.sub), ("mpz_mul", T.mul), ("mpz_fdiv_q", T.fdiv),
               ("mpz_cdiv_q", T.cdiv), ("mpz_tdiv_q", T.tdiv), ("mpz_fdiv_r", T.fmod)):
    INTR[_n] = zop(_f)
for _n, _f in (("mpz_add_ui", T.add), ("mpz_sub_ui", T.sub), ("mpz_mul_ui", T.mul), ("mpz_mul_si", T.mul),
               ("mpz_cdiv_q_ui", T.cdiv), ("mpz_fdiv_q_ui", T.fdiv)):
    INTR[_n] = zop(_f, 2, "zi")
INTR["mpz_mul_2exp"] = zop(lambda x, e: T.mul(x, T.pow2(e)), 2, "zi")
INTR["mpz_set"] = zop(lambda x: x, 1)
INTR["mpz_neg"] = zop(T.neg, 1)
INTR["mpz_abs"] = zop(T.Abs, 1)
INTR["mpz_set_si"] = zop(lambda x: x, 1, "i")
INTR["mpz_set_ui"] = zop(lambda x: x, 1, "i")


@intr("mpz_pow_ui")
def _(ex, st, a):
    raise Unsupported("mpz_pow_ui")


@intr("mpz_init_set")
def _(ex, st, a):
    ex.zset(st, a[0], ex.zget(st, a[1]))


@intr("mpz_gcd")
def _(ex, st, a):
    x, y = ex.zget(st, a[1]), ex.zget(st, a[2])
    if isz(x) or isz(y):
        x = x if isz(x) else z3.IntVal(x)
        y = y if isz(y) else z3.IntVal(y)
    ex.zset(st, a[0], T.gcd(x, y))


@intr("mpz_lcm")
def _(ex, st, a):
    x, y = ex.zget(st, a[1]), ex.zget(st, a[2])
    if isz(x) or isz(y):
        x = x if isz(x) else z3.IntVal(x)
        y = y if isz(y) else z3.IntVal(y)
    ex.zset(st, a[0], T.lcm(x, y))


def divexact(x, y):
    if not isz(y) and y in (1, -1):
        return T.mul(x, y)
    if not isz(x) and not isz(y):
        return x // y if y else 0
    if isz(y) and y.num_args() == 2 and y.decl().name() == "gcd":
        px = Poly.of(x)
        for i, f in ((0, T.CA), (1, T.CB)):
            pa = Poly.of(y.arg(i))
            if px == pa:
                return f(y.arg(0), y.arg(1))
            if px == pa.scale(-1):
                return -f(y.arg(0), y.arg(1))
    return T.DIVX(x if isz(x) else z3.IntVal(x), y if isz(y) else z3.IntVal(y))


INTR["mpz_divexact"] = zop(divexact)
INTR["mpz_divexact_ui"] = zop(divexact, 2, "zi")


@intr("mpz_addmul", "mpz_submul", "mpz_addmul_ui", "mpz_submul_ui")
def _(ex, st, a):
    pass


def _muladd(sign, ui):
    def h(ex, st, a):
        d = ex.zget(st, a[0])
        x = ex.zget(st, a[1])
        y = ex.intval(a[2]) if ui else ex.zget(st, a[2])
        ex.zset(st, a[0], T.add(d, T.mul(x, y)) if sign > 0 else T.sub(d, T.mul(x, y)))
    return h


INTR["mpz_addmul"] = _muladd(1, 0)
INTR["mpz_addmul_ui"] = _muladd(1, 1)
INTR["mpz_submul"] = _muladd(-1, 0)
INTR["mpz_submul_ui"] = _muladd(-1, 1)


@intr("mpz_init")
def _(ex, st, a):
    ex.zset(st, a[0], 0)


@intr("mpz_clear")
def _(ex, st, a):
    return None


@intr("mpz_swap")
def _(ex, st, a):
    x, y = ex.zget(st, a[0]), ex.zget(st, a[1])
    ex.zset(st, a[0], y)
    ex.zset(st, a[1], x)


@intr("mpz_cmp")
def _(ex, st, a):
    return CmpVal(ex.zget(st, a[0]), ex.zget(st, a[1]))


@intr("mpz_cmp_si", "mpz_cmp_ui")
def _(ex, st, a):
    return CmpVal(ex.zget(st, a[0]), ex.intval(a[1]))


@intr("mpz_sgn")
def _(ex, st, a):
    return CmpVal(ex.zget(st, a[0]), 0, True)


@intr("mpz_cmpabs")
def _(ex, st, a):
    x, y = ex.zget(st, a[0]), ex.zget(st, a[1])
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and ex.ptreq(a[0], a[1]) is True:
        return 0
    return CmpVal(T.Abs(x), T.Abs(y))


@intr("mpz_divisible_p")
def _(ex, st, a):
    return T.divides(ex.zget(st, a[1]), ex.zget(st, a[0]))


@intr("mpz_fits_slong_p")
def _(ex, st, a):
    x = ex.zget(st, a[0])
    return And(x >= -(1 << 63), x < (1 << 63))


@intr("mpz_fits_ulong_p")
def _(ex, st, a):
    x = ex.zget(st, a[0])
    return And(x >= 0, x < (1 << 64))


@intr("mpz_get_si", "mpz_get_ui")
def _(ex, st, a):
    return ex.zget(st, a[0])


# allocation (success assumed: failure paths are the subject of C01..C04)
def _alloc(ex, st, name, size=None, zero=False, n=None, elsize=None):
    o = Obj(name, zero=zero)
    ex.new(st, o)
    if n is not None:
        o.n = n
        if isz(n):
            o.arrbase = 0
            o.elsize = elsize
        elif elsize:
            o.n = n
    else:
        o.raw = True
        o.bytes = size
        if isz(size):
            p = Poly.of(size)
            if p.m.get((), 0) == 0 and len(p.m) == 1:
                (k, c), = p.m.items()
                o.n = None
    if n is not None and not isz(n):
        o.raw = True
    return Ptr(o)


@intr("isl_malloc_or_die", "malloc", "isl_malloc_checked")
def _(ex, st, a):
    size = a[1] if len(a) == 2 else a[0]
    return _alloc(ex, st, "heap", size=ex.intval(size))


@intr("isl_calloc_or_die")
def _(ex, st, a):
    return _alloc(ex, st, "heap", zero=True, n=ex.intval(a[1]), elsize=ex.intval(a[2]))


@intr("calloc")
def _(ex, st, a):
    return _alloc(ex, st, "heap", zero=True, n=ex.intval(a[0]), elsize=ex.intval(a[1]))


@intr("isl_realloc_or_die", "realloc")
def _(ex, st, a):
    p, size = a[-2], ex.intval(a[-1])
    if p is NULL:
        return _alloc(ex, st, "heap", size=size)
    if not isinstance(p, Ptr) or p.off.const() != 0:
        raise Unsupported("realloc")
    o = p.o
    n = Obj(o.name + "'", lane=o.lane, arrbase=o.arrbase, elsize=o.elsize, base=o.base, lazy=False, zero=False)
    n.raw = o.raw
    n.stride, n.dims = o.stride, o.dims
    n.n = None
    if o.arrbase is not None:
        e = (Poly.of(size) - o.arrbase).divc(o.elsize)
        if e is not None and o.dims is None:
            n.n = e.z()
    old = st.mem[o.id]
    ex.new(st, n)
    st.mem[n.id] = OS(dict(old.cells), old.ups)
    st.freed = st.freed | {o.id}
    return Ptr(n)


@intr("free")
def _(ex, st, a):
    if isinstance(a[0], Ptr):
        st.freed = st.freed | {a[0].o.id}
    return None


@intr("isl_handle_error")
def _(ex, st, a):
    st.err = True
    return None


@intr("isl_ctx_next_operation")
def _(ex, st, a):
    return 0


@intr("isl_ctx_ref", "isl_ctx_deref")
def _(ex, st, a):
    return None


@intr("fprintf", "fputs", "printf", "fputc", "fwrite")
def _(ex, st, a):
    return 0


@intr("abort", "exit")
def _(ex, st, a):
    return "dead"


@intr("isl_blk_empty")
def _(ex, st, a):
    return Agg({(0,): 0, (1,): NULL})


def blkret(n, p):
    return Agg({(0,): n, (1,): p})


@intr("isl_blk_is_error")
def _(ex, st, a):
    return 0


@intr("isl_blk_alloc")
def _(ex, st, a):
    n = ex.intval(a[1])
    size = ex.fresh("blksize")
    st.pc.append(size >= n)
    o = Obj("blk", arrbase=0, elsize=16, lane=None)
    ex.new(st, o)
    ex.setlane(o, "Z")
    o.n = size
    rows(ex, o, n)
    return blkret(size, Ptr(o))


def rows(ex, o, n, cond=True):
    """a block of n = rows * columns elements is a two-dimensional array"""
    pr = ex.prods.get(repr(Poly.of(n)))
    if pr is None:
        return
    r, c = pr
    cid = T.atom_id(c)
    if o.stride is None:
        o.stride = cid
        o.dims = []
    if o.stride == cid:
        o.dims = list(o.dims or []) + [(r, cond)]


@intr("isl_blk_extend")
def _(ex, st, a):
    # (ctx, size, data, n)
    size, data, n = ex.intval(a[1]), a[2], ex.intval(a[3])
    if data is NULL:
        return INTR["isl_blk_alloc"](ex, st, [a[0], n])
    c = size >= n
    if isz(c):
        if ex.implied(st, c):
            c = True
        elif ex.implied(st, Not(c)):
            c = False
        else:
            raise NeedFork(c)
    if c:
        rows(ex, data.o, n, size >= n)
        return blkret(size, data)
    o = data.o
    if data.off.const() != 0:
        raise Unsupported("extend")
    nn = Obj("blk'", lane=o.lane, arrbase=o.arrbase, elsize=o.elsize, base=o.base)
    nn.stride, nn.dims = o.stride, []
    nn.n = n
    rows(ex, nn, n)
    ex.new(st, nn)
    st.mem[nn.id] = OS(dict(st.mem[o.id].cells), st.mem[o.id].ups)
    st.freed = st.freed | {o.id}
    return blkret(n, Ptr(nn))


@intr("isl_blk_free")
def _(ex, st, a):
    if isinstance(a[2], Ptr):
        st.freed = st.freed | {a[2].o.id}
    return None


@intr("llvm.memcpy.p0.p0.i64", "memcpy")
def _(ex, st, a):
    d, s, n = a[0], a[1], a[2]
    if isz(n) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported("memcpy")
    if d.o.arrbase is not None or s.o.arrbase is not None:
        raise Unsupported("memcpy on arrays")
    do, so = d.off.const(), s.off.const()
    if do is None or so is None:
        raise Unsupported("memcpy")
    src = st.mem[s.o.id].cells
    dst = ex.wr(st, d.o).cells
    for off in list(dst):
        if do <= off < do + n:
            del dst[off]
    for off, v in src.items():
        if so <= off < so + n:
            dst[off - so + do] = v
    return None
