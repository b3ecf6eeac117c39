"""Discharges the functional contracts (contracts/fun) on the IR of /repo."""
import os
import sys
import time
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "frontend"), os.path.join(VERIF, "contracts", "fun")]
sys.setrecursionlimit(20000)
import term as T
from term import And, Not, Implies, isz
import sym
import contract as K
from contract import FA, CONTRACTS, Env, NS
from ir import Module, Layout


class World:
    """lazily parsed modules"""

    def __init__(self, res, decls):
        self.res = {src: ll for src, ll, dj in res}
        self.decls = decls
        self.mods = {}
        self.fn = {}
        self.where = {}
        self._f = {}
        import re
        for src, ll in self.res.items():
            for m in re.finditer(r"^define (.*?)@([\w.]+)\(", open(ll).read(), re.M):
                internal = "internal" in m.group(1).split()
                self.where[(src, m.group(2)) if internal else m.group(2)] = src

    def mod(self, src):
        m = self.mods.get(src)
        if m is None:
            m = Module(self.res[src], src)
            m._lay = Layout(m.structs)
            self.mods[src] = m
            for n, f in m.funcs.items():
                self.fn[(src, n) if f.internal else n] = (m, f)
        return m

    def layout(self, m):
        return m._lay

    def key_of(self, src, name):
        for k in ((src, name), name):
            if k in self.where:
                self.mod(self.where[k])
                return k if k in self.fn else None
        return None

    def fields(self, s):
        if s not in self._f:
            d = self.decls.structs.get(s)
            if d is None:
                raise sym.Unsupported("struct " + s)
            self._f[s] = {f["n"]: f["o"] for f in d["f"]}
        return self._f[s]

    def inline_ref(self, name):
        return False


class PostCtx:
    """what a postcondition sees"""

    def __init__(self, E, st, c):
        self._E, self._st = E, st
        self.ret = K.ret_view(E, st, c.ret)
        self.err = st.err
        for k, v in E.args.__dict__.items():
            setattr(self, k, v)

    def out(self, name):
        return self._E.outs[name](self._st)


def variants(c):
    """sharing and aliasing patterns of the object arguments"""
    sh = [p.name for p in c.params if p.shared]
    out = []
    if not sh:
        return [({}, {})]
    out.append(({}, {}))
    if any(p.take for p in c.params if p.shared):
        out.append(({n: "shared" for n in sh}, {}))
        if len([p for p in c.params if p.shared and p.take]) > 1:
            for n in sh:
                out.append(({n: "shared"}, {}))
    bo = [p.name for p in c.params if p.shared and p.take and isinstance(p, K.Mat)]
    if bo:
        out.append(({n: "borrowed" for n in bo}, {}))
    for a, b in c.alias:
        kinds = {p.name: p for p in c.params}
        if kinds[a].shared:
            out.append(({a: "shared", b: "shared"}, {b: a}))
        else:
            out.append(({}, {b: a}))
    return out


def setup(c, w, var, alias, budget, unroll, nofix=None):
    z3.set_param("smt.random_seed", 1)
    ex = sym.Executor(w, budget=budget, unroll=unroll)
    st = sym.State()
    ex._objs = {}
    ctx = sym.Obj("ctx", lazy=True)
    ex.ctxobj = ctx
    # invariant of isl_ctx: the constants (set by isl_ctx_alloc, see C05 for "never assigned elsewhere")
    F = w.fields("isl_ctx")
    ex.new(st, ctx, {F[n]: v for n, v in (("zero", 0), ("one", 1), ("two", 2), ("negone", -1)) if n in F})
    E = Env(ex, st, w)
    vals = []
    made = {}
    E.params = {p.name: p for p in c.params}
    # sequences depend on the lengths, which may come later in the signature
    order = sorted(range(len(c.params)), key=lambda i: isinstance(c.params[i], K.Seq))
    byi = {}
    for i in order:
        p = c.params[i]
        if p.name in alias:
            src = alias[p.name]
            v, view = made[src]
            if p.name in E.outs or src in E.outs:
                E.outs[p.name] = E.outs[src]
        else:
            v, view = p.sym(E, var.get(p.name))
        made[p.name] = (v, view)
        setattr(E.args, p.name, view)
        byi[i] = v
    vals = [byi[i] for i in range(len(c.params))]
    if c.pre is not None:
        pre = c.pre(E.args)
        for g in pre if isinstance(pre, list) else [pre]:
            if isinstance(g, FA):
                vs, grd = [], []
                while isinstance(g, FA):
                    j = z3.Int("pre!%d" % ex.uid)
                    ex.uid += 1
                    vs.append((j, g.hi - g.lo))
                    grd.append(g.guard)
                    g = g.f(j + g.lo if not (isinstance(g.lo, int) and g.lo == 0) else j)
                st.pc.append(sym.QF(vs, T.Implies(And(*grd), g)))
            elif isz(g):
                st.pc.append(g)
            elif not g:
                return None
    if c.ghosts:
        ex.ghosts = c.ghosts(E.args)
    return ex, st, E, vals


def goals(g, name):
    """flatten a postcondition into quantifier-free goals with hypotheses"""
    if isinstance(g, (list, tuple)):
        for x in g:
            yield from goals(x, name)
        return
    if isinstance(g, FA):
        FACNT[0] += 1
        j = z3.Int("idx!%d" % FACNT[0])
        hyp = [j >= g.lo, j < g.hi]
        if g.guard is not True:
            hyp.append(g.guard)
        for n, h, x in goals(g.f(j), name):
            yield n, hyp + h, x
        return
    if isinstance(g, K.EX):
        vs = []
        for n in g.ns:
            FACNT[0] += 1
            vs.append((z3.Int("wit!%d" % FACNT[0]), n))
        b = Not(g.f(*[v for v, n in vs]))
        yield name, [g.guard, sym.QF(vs, b)], False
        return
    yield name, [], g


FACNT = [0]


class Result:
    def __init__(self):
        self.status = None       # proved | failed | unknown | unsupported
        self.why = ""
        self.obl = self.ok = 0
        self.solver_s = 0.0
        self.paths = 0
        self.inlined = set()
        self.modular = set()
        self.trusted = set()
        self.cex = []
        self.loops = 0
        self.t = 0


def prove(c, w, budget=60, unroll=0, only=None):
    R = Result()
    t0 = time.time()
    K.SYMBOLIC[0] = True
    try:
        key = w.key_of(c.src, c.fname)
        if key is None:
            R.status, R.why = "missing", "no definition of %s" % c.name
            return R
        mod, f = w.fn[key]
        bad = []
        for vi, (var, alias) in enumerate(variants(c)):
            if only is not None and vi != only:
                continue
            s = setup(c, w, var, alias, budget - (time.time() - t0), unroll)
            if s is None:
                continue
            ex, st, E, vals = s
            fr = sym.Frame()
            fr.mod, fr.f, fr.regs = mod, f, {}
            E.fr = fr
            try:
                for g in ex.ghosts:
                    for name, hyp, goal in getattr(g, "lemmas", lambda: ())():
                        ex.lemma(g, "lemma: " + name, hyp, goal)
                ends = ex.call_top(st, mod, f, vals)
                for e in ends:
                    s1 = e[1]
                    R.paths += 1
                    judge(c, ex, E, s1, alias, var)
            finally:
                R.obl += ex.obl
                R.ok += ex.ok
                R.solver_s += ex.solver_s
                R.inlined |= ex.inlined
                R.modular |= ex.modular
                R.trusted |= ex.trusted
                R.loops += ex.accel
            for kind, s1, goal, m in ex.failed:
                R.cex.append((kind, var, alias, m, E, s1))
            for kind, s1, goal in ex.unknown:
                bad.append(kind)
        if R.cex:
            R.status = "failed"
            R.why = ", ".join(sorted(set(x[0] for x in R.cex)))
        elif bad:
            R.status = "unknown"
            R.why = ", ".join(sorted(set(bad)))
        else:
            R.status = "proved"
    except sym.Unsupported as e:
        R.status, R.why = "unsupported", str(e)
    except sym.Budget as e:
        R.status, R.why = "unsupported", str(e)
    except sym.NeedFork as e:
        R.status, R.why = "unsupported", "undetermined pointer"
    except (sym.IRError,) as e:
        R.status, R.why = "unsupported", str(e)
    except z3.Z3Exception as e:
        R.status, R.why = "unsupported", "z3: %s" % e
    finally:
        K.SYMBOLIC[0] = False
        R.t = time.time() - t0
    return R


def wellformed(m):
    def two(i, k):
        (a, x), (b, y) = m.pos(i), m.pos(k)
        return Implies(m.cols > 0, And(T.ne(a, 0), T.Or(T.ne(a, b), T.ne(x, y))))
    return K.forall(0, m.rows, lambda i: K.forall(0, i, lambda k: two(i, k)))


def judge(c, ex, E, st, alias, var):
    work = [st]
    n = 0
    while work:
        st = work.pop()
        n += 1
        if n > 200:
            raise sym.Unsupported("too many cases in postcondition")
        save = (ex.obl, ex.ok, len(ex.failed), len(ex.unknown))
        FACNT[0] = 0
        try:
            pc = PostCtx(E, st, c)
            items = []
            for name, g in c.post(pc):
                items += list(goals(g, name))
            if c.ret == "mat" and pc.ret is not None:
                items += list(goals(wellformed(pc.ret), "rows of the result do not overlap"))
            for p in c.params:
                if p.name in alias or any(a == p.name for a in alias.values()):
                    if p.take:
                        continue
                if p.shared and (not p.take or var.get(p.name)):
                    for g in [p.unchanged(E, st, getattr(E.args, p.name))]:
                        items += list(goals(g, "operand %s unchanged" % p.name))
            for name, hyp, g in items:
                s2 = st.copy()
                s2.pc = st.pc + [h for h in hyp if isz(h) or isinstance(h, sym.QF)]
                if any(h is False for h in hyp):
                    continue
                ex.oblige(s2, name, g)
        except sym.NeedFork as nf:
            ex.obl, ex.ok = save[0], save[1]
            del ex.failed[save[2]:]
            del ex.unknown[save[3]:]
            for cnd in (nf.cond, Not(nf.cond)):
                s2 = st.copy()
                s2.pc.append(cnd)
                if ex.feasible(s2.pc):
                    work.append(s2)


if __name__ == "__main__":
    import lower
    out = os.environ.get("OUT", "/tmp/ir2")
    res = []
    for s in lower.sources():
        b = s.replace("/", "_")[:-2]
        res.append((s, "%s/%s.ll" % (out, b), "%s/%s.decl" % (out, b)))
    w = World(res, lower.Decls(res))
    import importlib
    for m in sys.argv[1].split(","):
        importlib.import_module(m)
    names = sys.argv[2:] or list(CONTRACTS)
    for n in names:
        c = CONTRACTS[n]
        r = prove(c, w, unroll=int(os.environ.get("UNROLL", "0")))
        print("%-34s %-11s obl %3d/%3d paths %3d loops %d  %.1fs (z3 %.1f) %s" % (
            n, r.status, r.ok, r.obl, r.paths, r.loops, r.t, r.solver_s, r.why))
        if os.environ.get("CEX"):
            for kind, var, alias, m, E, s1 in r.cex[:2]:
                print("   ", kind, var, alias, [(d.name(), m[d]) for d in m.decls()][:12])
        sys.stdout.flush()
