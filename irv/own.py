"""Engine B: contract checking of every library function against isl's own
annotations (__isl_take / __isl_keep / __isl_give / __isl_null, isl_bool /
isl_stat / isl_size error returns), path-sensitively, on LLVM IR.

Every function is executed symbolically on an abstract state (ownership
counts, nullness, exclusivity, integer ranges, memoised fields); callees are
seen only through their contract.  Loops are iterated to a fixpoint of the
set of abstract states at the loop header (that set is the inferred
disjunctive loop invariant), so the result covers every iteration count.
"""
import re
import sys
import time
from collections import namedtuple, defaultdict
from ir import Module, Layout, IRError, Ty

sys.setrecursionlimit(20000)

NEG, ZERO, POS = 1, 2, 4


class GiveUp(Exception):
    pass


# pointer symbol
PS = namedtuple("PS", "null own excl ty org root deps tok flg")
# null: None/True/False ; own: owned references ; excl: None (not exclusive) or
#   frozenset of parameter indices whose exclusivity is needed
# ty: C pointee type ; org: where it came from ; root: symbol of owning object
# deps: symbols implied non-null by this being non-null
# tok: symbol whose ownership token this one may use (after havoc)
# flg: set of markers: 'dead', 'borrow', 'fresh', 'soft', 'dying', 'alloca'
NP = PS(None, 0, None, None, ("?",), None, (), None, frozenset())
# scalar symbol
SS = namedtuple("SS", "lo hi ne deps err")
# err: 1 if this is an isl_bool/isl_stat/isl_size style result
NS = SS(None, None, frozenset(), (), 0)

EXCL = frozenset()

MALLOC = {"isl_malloc_or_die", "isl_calloc_or_die", "malloc", "calloc", "strdup"}
IGN_CALLS = {"printf", "fprintf", "fflush", "snprintf", "exit", "abort", "fputs", "putchar", "fputc"}


def strip_ptr(ct):
    """pointee type of a C pointer/array type"""
    if ct is None:
        return None
    ct = ct.strip()
    ct = re.sub(r"\s*\[\d*\]$", "*", ct) if ct.endswith("]") else ct
    if not ct.endswith("*"):
        return None
    ct = ct[:-1].strip()
    ct = re.sub(r"\bconst\b", "", ct).strip()
    return ct or None


class Contracts:
    """What a caller may assume about a callee."""
    pass


class Summary:
    __slots__ = ("nn_req", "excl_req", "writes", "strict", "total", "ret_excl", "shares",
                 "stores", "ret_root", "never_null", "noerr")

    def __init__(self):
        self.nn_req = frozenset()     # params that must be non-null
        self.excl_req = frozenset()   # params that must be exclusively owned
        self.writes = frozenset()     # params whose interior is written
        self.strict = frozenset()     # param error => result error
        self.total = True             # all strict params fine => result fine
        self.ret_excl = EXCL          # None or set of params that must be exclusive
        self.shares = frozenset()
        self.stores = frozenset()
        self.ret_root = frozenset()
        self.never_null = False
        self.noerr = False

    def key(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def to_json(self):
        return {"nn": sorted(self.nn_req), "xr": sorted(self.excl_req), "w": sorted(self.writes),
                "s": sorted(self.strict), "t": int(self.total),
                "rx": None if self.ret_excl is None else sorted(self.ret_excl),
                "sh": sorted(self.shares), "st": sorted(self.stores), "rr": sorted(self.ret_root)}

    @staticmethod
    def from_json(j):
        s = Summary()
        s.nn_req = frozenset(j["nn"])
        s.excl_req = frozenset(j["xr"])
        s.writes = frozenset(j["w"])
        s.strict = frozenset(j["s"])
        s.total = bool(j["t"])
        s.ret_excl = None if j["rx"] is None else frozenset(j["rx"])
        s.shares = frozenset(j["sh"])
        s.stores = frozenset(j["st"])
        s.ret_root = frozenset(j["rr"])
        return s


# sets are maps without domain (isl_map_private.h)
ALIAS = {"isl_set": "isl_map", "isl_basic_set": "isl_basic_map", "isl_union_set": "isl_union_map",
         "isl_set_list": "isl_map_list", "isl_basic_set_list": "isl_basic_map_list",
         "isl_union_set_list": "isl_union_map_list"}
ALIAS_RE = re.compile(r"struct (isl_(?:basic_|union_)?set(?:_list)?)\b(?!_)")


# prototypes whose ownership annotation in the source contradicts every use
ANNOTATION_FIXES = [
    (r"isl_multi_\w+_peek_at", ["keep"], "returns a borrowed element (marked __isl_give)"),
]


class World:
    def __init__(self, res, decls):
        self.decls = decls
        self.mods = {}
        self.fn = {}            # key -> (mod, func); key = name or (src,name) for statics
        self.ext = {}           # external name -> src
        for src, ll, dj in res:
            m = Module(ll, src)
            m.layout = Layout(m.structs)
            self.mods[src] = m
            for n, f in m.funcs.items():
                k = (src, n) if f.internal else n
                self.fn[k] = (m, f)
        for (rx, a, why) in ANNOTATION_FIXES:
            for n, d in list(decls.funcs.items()) + [(k[1], v) for k, v in decls.static.items()]:
                if re.fullmatch(rx, n):
                    d["a"] = a
        self.rc = set()
        for n, d in list(decls.funcs.items()) + [(k[1], v) for k, v in decls.static.items()]:
            if n.endswith("_free") and len(d["p"]) == 1 and "take" in d["p"][0]["a"]:
                t = strip_ptr(d["p"][0]["ct"])
                if t and t.startswith("struct "):
                    sd = self.struct(None, t[7:])
                    if sd and any(f["n"] == "ref" for f in sd["f"]):
                        self.rc.add(t)
        self.rc.discard("struct isl_ctx")
        # objects with a single owner, subject to the same error convention
        self.uniq = set()
        for n, d in list(decls.funcs.items()) + [(k[1], v) for k, v in decls.static.items()]:
            for q in d["p"]:
                if "take" in q["a"]:
                    t = strip_ptr(self.canon(q["ct"]))
                    if t and t.startswith("struct ") and not t.endswith("*") and t not in self.rc:
                        self.uniq.add(t)
        self.uniq -= {"struct isl_ctx", "struct isl_stream", "struct isl_poly_cst", "struct isl_poly_rec"}
        self.obj = self.rc | self.uniq
        self._ann = {}

    def struct(self, src, name):
        d = self.decls.structs.get((src, name)) if src else None
        if d is None:
            d = self.decls.structs.get(name)
        return d

    def field(self, src, sname, off):
        """(field name, C type) of the scalar at byte offset off of struct sname"""
        path = ""
        depth = 0
        while depth < 6:
            depth += 1
            d = self.struct(src, sname)
            if not d:
                return None
            best = None
            for f in d["f"]:
                if 0 <= f["o"] <= off and (best is None or f["o"] >= best["o"]):
                    best = f
            if best is None:
                return None
            ct = best["ct"]
            path = path + "." + best["n"] if path else best["n"]
            m = re.match(r"struct ([\w]+)(\s*\[\d*\])?$", ct)
            if m and self.struct(src, m.group(1)) and m.group(1) != "__mpz_struct":
                sz = self.struct(src, m.group(1))["size"]
                off = off - best["o"]
                if m.group(2) and sz:
                    off %= sz
                sname = m.group(1)
                continue
            return path, ct
        return None

    def key_of(self, src, name):
        if (src, name) in self.fn:
            return (src, name)
        if name in self.fn:
            return name
        return None

    def decl(self, key):
        if isinstance(key, tuple):
            return self.decls.static.get(key)
        return self.decls.funcs.get(key)

    def ann(self, src, name):
        """annotation record of a callee: (params, ret) or None"""
        k = (src, name)
        if k in self._ann:
            return self._ann[k]
        d = self.decls.get(src, name)
        r = None
        if d:
            r = self.mkann(d["p"], d["a"], d["cr"], d["r"])
        self._ann[k] = r
        return r

    def mkann(self, ps, a, cr, r, cb=False):
        ps2 = []
        for p in ps:
            t = p.get("ct") or p["t"]
            an = None
            for x in ("take", "keep", "give"):
                if x in p["a"]:
                    an = x
            pt = strip_ptr(self.canon(t))
            ps2.append((an, pt, p))
        ret = "give" if "give" in a else ("null" if "null" in a else ("keep" if "keep" in a else None))
        rt = strip_ptr(self.canon(cr))
        kind = None
        rr = (r or "").strip()
        if rr in ("isl_bool", "isl_stat", "isl_size") or rr.startswith("enum isl_lp"):
            kind = rr if not rr.startswith("enum") else None
        return (ps2, ret, rt, kind, cr)

    def canon(self, t):
        t = t.strip()
        m = re.match(r"(isl_\w+)\s*(\*+.*)$", t)
        if m:
            td = self.typedefs().get(m.group(1))
            if td:
                t = td + " " + m.group(2)
        return ALIAS_RE.sub(lambda m: "struct " + ALIAS[m.group(1)], t)

    def typedefs(self):
        if not hasattr(self, "_td"):
            self._td = {}
            for d in self.decls.typedefs:
                self._td[d[0]] = d[1]
        return self._td


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("env", "ps", "ss", "heap", "slot", "preds", "errs", "n", "obl", "flags")

    def __init__(self):
        self.env = {}
        self.ps = {}
        self.ss = {}
        self.heap = {}
        self.slot = {}
        self.preds = {}
        self.errs = {}
        self.n = 0
        self.flags = frozenset()

    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.ps = dict(self.ps)
        s.ss = dict(self.ss)
        s.heap = dict(self.heap)
        s.slot = dict(self.slot)
        s.preds = dict(self.preds)
        s.errs = dict(self.errs)
        s.n = self.n
        s.flags = self.flags
        return s

    def newp(self, **kw):
        self.n += 1
        self.ps[self.n] = NP._replace(**kw)
        return ("p", self.n, 0)

    def news(self, **kw):
        self.n += 1
        self.ss[self.n] = NS._replace(**kw)
        return ("s", self.n)

    def up(self, sym, **kw):
        self.ps[sym] = self.ps[sym]._replace(**kw)


ZEROV = ("c", 0)


def addoff(o, k, term=None):
    if isinstance(o, int):
        c, t = o, ()
    else:
        c, t = o[1], o[2]
    c += k
    if term is not None:
        t = tuple(sorted(t + (term,), key=repr))
    if not t:
        return c
    if len(t) > 3:
        return ("?", 0, ())
    return ("+", c, t)


def syms_of(v, acc):
    if not isinstance(v, tuple) or not v:
        return
    k = v[0]
    if k == "p":
        acc.add(v[1])
        if isinstance(v[2], tuple):
            for t in v[2][2]:
                syms_of(t[0], acc)
    elif k == "s":
        acc.add(v[1])
    elif k == "x" or k == "b":
        for a in v[2:]:
            syms_of(a, acc)
    elif k == "t":
        for a in v[1]:
            syms_of(a, acc)


def off_syms(o, acc):
    if isinstance(o, tuple):
        for t in o[2]:
            syms_of(t[0], acc)


def depth(v):
    if v[0] in ("x", "b"):
        return 1 + max([depth(a) for a in v[2:] if isinstance(a, tuple)] or [0])
    return 0


class Alarm(namedtuple("Alarm", "prop kind detail line")):
    pass


def field_is_rc(world, ct):
    t = strip_ptr(ct) if ct else None
    return t in world.rc


class FuncInfo:
    """per-function static facts (CFG order, liveness, loop headers)"""

    def __init__(self, mod, f):
        f.parse()
        self.f = f
        self.mod = mod
        self.order = []
        seen = set()
        stack = [(f.order[0].name, iter(f.order[0].succs))]
        seen.add(f.order[0].name)
        post = []
        onstack = {f.order[0].name}
        self.headers = set()
        self.back = defaultdict(set)
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    adv = True
                    break
                elif s in onstack:
                    self.headers.add(s)
                    self.back[s].add(n)
            if not adv:
                post.append(n)
                onstack.discard(n)
                stack.pop()
        self.rpo = {n: i for i, n in enumerate(reversed(post))}
        self.live = self._live()
        self.arith = {}
        for h in self.headers:
            s = set()
            for ph in f.blocks[h].phis:
                if self._arith_back(ph, h):
                    s.add(ph.res)
            self.arith[h] = s

    def _ops(self, i):
        out = []

        def o(v):
            if v and v[0] == "v":
                out.append(v[1])
        a = i.a
        op = i.op
        if op == "load" or op == "freeze":
            o(a[0])
        elif op == "store":
            o(a[0])
            o(a[1])
        elif op == "gep":
            o(a[1])
            for _, v in a[2]:
                o(v)
        elif op == "call":
            o(a[0])
            for _, v, _2 in a[1]:
                o(v)
        elif op == "condbr" or op == "switch" or op == "ret":
            if a[0]:
                o(a[0])
        elif op == "icmp":
            o(a[2])
            o(a[3])
        elif op == "bin":
            o(a[1])
            o(a[2])
        elif op == "cast":
            o(a[2])
        elif op == "select":
            o(a[0])
            o(a[1])
            o(a[2])
        elif op == "extractvalue":
            o(a[0])
        elif op == "insertvalue":
            o(a[0])
            o(a[2])
        elif op == "alloca":
            if a[1]:
                o(a[1])
        return out

    def _live(self):
        f = self.f
        use = {}
        dfn = {}
        phiuse = defaultdict(set)
        for b in f.order:
            u = set()
            d = set(p.res for p in b.phis)
            for i in b.ins + [b.term]:
                for v in self._ops(i):
                    if v not in d:
                        u.add(v)
                if i.res:
                    d.add(i.res)
            use[b.name] = u
            dfn[b.name] = d
            for p in b.phis:
                for v, pb in p.a:
                    if v[0] == "v":
                        phiuse[(pb, b.name)].add(v[1])
        live = {b.name: set() for b in f.order}
        ch = True
        names = sorted((b.name for b in f.order if b.name in self.rpo), key=lambda n: -self.rpo[n])
        while ch:
            ch = False
            for n in names:
                b = f.blocks[n]
                out = set()
                for s in b.succs:
                    out |= live[s]
                    out |= phiuse[(n, s)]
                new = use[n] | (out - dfn[n])
                if new != live[n]:
                    live[n] = new
                    ch = True
        for b in f.order:
            live[b.name] = live[b.name] | set(p.res for p in b.phis)
        return live

    def _arith_back(self, ph, h):
        """is a back-edge value of this phi derived by arithmetic?"""
        f = self.f
        defs = getattr(self, "_defs", None)
        if defs is None:
            defs = {}
            for b in f.order:
                for i in b.phis + b.ins:
                    if i.res:
                        defs[i.res] = i
            self._defs = defs
        seen = set()

        def go(v):
            if v[0] != "v" or v[1] in seen:
                return False
            seen.add(v[1])
            d = defs.get(v[1])
            if d is None:
                return False
            if d.op in ("bin", "gep"):
                return True
            if d.op == "phi":
                return any(go(x) for x, _ in d.a)
            if d.op == "select":
                return go(d.a[1]) or go(d.a[2])
            if d.op == "cast":
                return go(d.a[2])
            return False
        return any(go(v) for v, b in ph.a if b in self.back[h])

    def nondecr(self, ph, h):
        """all back-edge values are phi + nonnegative constant (through phis)"""
        defs = self._defs
        seen = set()

        def go(v):
            if v == ("v", ph.res):
                return True
            if v[0] != "v":
                return False
            if v[1] in seen:
                return True
            seen.add(v[1])
            d = defs.get(v[1])
            if d is None:
                return False
            if d.op == "bin" and d.a[0] == "add" and d.a[2][0] == "c" and d.a[2][1] >= 0:
                return go(d.a[1])
            if d.op == "phi":
                return all(go(x) for x, _ in d.a)
            return False
        return all(go(v) for v, b in ph.a if b in self.back[h])


class Config:
    """knowledge committed with the contracts"""

    def __init__(self):
        self.nonowning = set()      # (struct, field) slots that do not own their pointee
        self.exempt_fields = {("*", "ref"), ("*", "flags")}
        self.excluded = None        # key -> families outside the contract (committed contract assumed)
        self.known = None           # set of function keys under contract (others inlined)


DEADLINE = []
# structures with an identity of their own: reachable from objects, not part of them
INDEP = {"struct isl_ctx", "struct isl_options"}


class Exec:
    MAXSTATES = 3000
    MAXSTEPS = 60000

    def __init__(self, world, summ, cfg, key, finfo):
        self.w = world
        self.summ = summ
        self.cfg = cfg
        self.key = key
        self.finfo = finfo
        self.mod, self.f = world.fn[key]
        self.src = self.mod.src
        self.alarms = {}
        self.new = Summary()
        self.steps = 0
        self.frame = 0
        self.params = []
        self.exported = (not isinstance(key, tuple)) and key in world.decls.public
        self.new.strict = None
        self.nexits = 0
        self.inlined = set()
        self.obl = set()        # obligations generated: (property, site)
        self.curi = None

    # ------------------------------------------------------------ helpers
    def alarm(self, prop, kind, detail, line):
        self.alarms.setdefault((prop, kind, detail), line)

    def field_of(self, st, sym, off):
        """(struct, field, ctype) of slot (sym, off) or None"""
        ty = st.ps[sym].ty
        if not ty:
            return None
        c = off if isinstance(off, int) else off[1]
        if ty.startswith("struct "):
            r = self.w.field(self.src, ty[7:], c)
            if r:
                ct = r[1]
                if ct.endswith("]"):
                    ct = ct[:ct.rindex("[")].strip()
                return (ty[7:], r[0], ct)
            return None
        if ty.endswith("*"):
            return (None, "[]", ty)
        return None

    def is_rc(self, st, sym):
        return st.ps[sym].ty in self.w.rc

    def rootof(self, st, sym):
        n = 0
        while st.ps[sym].root is not None and n < 10:
            sym = st.ps[sym].root
            n += 1
        return sym

    # nullness -----------------------------------------------------------
    def set_nonnull(self, st, sym):
        p = st.ps[sym]
        if p.null is False:
            return
        st.ps[sym] = p._replace(null=False, deps=())
        st.errs.pop(sym, None)
        for d in p.deps:
            self.dep_ok(st, d)
        self.fwd_ok(st, sym)

    def fwd_ok(self, st, d):
        """total callees: argument fine => result fine"""
        for k, q in list(st.ps.items()):
            if d in q.deps and "tot" in q.flg and q.null is None:
                nd = tuple(x for x in q.deps if x != d)
                st.ps[k] = q._replace(deps=nd)
                if not nd:
                    self.set_nonnull(st, k)
        for k, q in list(st.ss.items()):
            if d in q.deps and q.err == 2 and (q.lo is None or q.lo < 0):
                nd = tuple(x for x in q.deps if x != d)
                st.ss[k] = q._replace(deps=nd)
                if not nd:
                    self.set_range(st, k, 0, None)

    def dep_ok(self, st, d):
        if d in st.ps:
            if st.ps[d].null is None:
                self.set_nonnull(st, d)
        elif d in st.ss:
            s = st.ss[d]
            if s.err and (s.lo is None or s.lo < 0):
                self.set_range(st, d, 0, None)

    def set_null(self, st, sym):
        """sym becomes known NULL"""
        p = st.ps[sym]
        if p.null is True:
            return
        st.ps[sym] = p._replace(null=True, own=0, deps=())
        self.mark_err(st, sym, p.deps, "tot" in p.flg, p)
        if p.tok is not None and p.tok in st.ps and st.ps[p.tok].own > 0:
            st.up(p.tok, own=st.ps[p.tok].own - 1)

    def mark_err(self, st, sym, deps, tot, p=None):
        if sym in st.errs:
            st.flags = st.flags | {("E", st.errs.pop(sym))}
        if p is not None and p.org[0] == "param" and len(p.org) == 2:
            st.flags = st.flags | {("N", p.org[1])}
        if tot and deps:
            unk = [d for d in deps if (d in st.ps and st.ps[d].null is None) or
                   (d in st.ss and st.ss[d].err and (st.ss[d].lo is None or st.ss[d].lo < 0))]
            if len(unk) == 1:
                d = unk[0]
                if d in st.ps:
                    self.set_null(st, d)
                else:
                    self.set_range(st, d, None, -1)
            elif unk:
                st.flags = st.flags | {("NX",)}
        # everything that depends on sym is an error too
        for k, q in list(st.ps.items()):
            if q.null is None and sym in q.deps:
                self.set_null(st, k)
        for k, q in list(st.ss.items()):
            if q.err and sym in q.deps and not (q.hi is not None and q.hi < 0):
                self.set_range(st, k, None, -1)

    def set_range(self, st, sym, lo, hi, ne=None):
        s = st.ss.get(sym)
        if s is None:
            return True
        nlo, nhi, nne = s.lo, s.hi, s.ne
        if lo is not None and (nlo is None or lo > nlo):
            nlo = lo
        if hi is not None and (nhi is None or hi < nhi):
            nhi = hi
        if ne is not None and len(nne) < 8:
            nne = nne | {ne}
        ch = True
        while ch:
            ch = False
            if nlo is not None and nlo in nne:
                nlo += 1
                ch = True
            if nhi is not None and nhi in nne:
                nhi -= 1
                ch = True
        if nlo is not None and nhi is not None and nlo > nhi:
            return False
        wasok = s.lo is not None and s.lo >= 0
        waserr = s.hi is not None and s.hi < 0
        st.ss[sym] = s._replace(lo=nlo, hi=nhi, ne=nne)
        if s.err in (1, 2):
            if not wasok and nlo is not None and nlo >= 0:
                st.errs.pop(sym, None)
                st.ss[sym] = st.ss[sym]._replace(deps=())
                for d in s.deps:
                    self.dep_ok(st, d)
                self.fwd_ok(st, sym)
            elif not waserr and nhi is not None and nhi < 0:
                st.ss[sym] = st.ss[sym]._replace(deps=())
                self.mark_err(st, sym, s.deps, s.err == 2)
        elif isinstance(s.err, tuple) and s.err[0] == "ref" and nlo == 1 and nhi == 1:
            self.ref_one(st, s.err[1])
        return True

    def ref_one(self, st, sym):
        if sym not in st.ps:
            return
        e = self.excl_if_ref1(st, sym)
        if e is not None:
            st.up(sym, excl=e)

    def excl_if_ref1(self, st, sym):
        """exclusivity condition of sym, given that its reference count is one"""
        p = st.ps[sym]
        if p.own >= 1:
            return EXCL
        if p.org[0] == "slot":
            b = self.rootof(st, p.org[1])
            return st.ps[b].excl if self.is_rc(st, b) else EXCL
        if p.org[0] == "param" and len(p.org) == 2 and not self.exported and p.excl is not None:
            return frozenset(j + 1000 if j < 1000 else j for j in p.excl)
        return p.excl

    # ranges -------------------------------------------------------------
    def rng(self, st, v):
        k = v[0]
        if k == "c":
            return v[1], v[1]
        if k == "s":
            s = st.ss.get(v[1])
            return (s.lo, s.hi) if s else (None, None)
        if k == "x":
            if v[1] == "+" and v[3][0] == "c":
                lo, hi = self.rng(st, v[2])
                c = v[3][1]
                return (None if lo is None else lo + c), (None if hi is None else hi + c)
            if v[1] == "and" and v[3][0] == "c" and v[3][1] >= 0:
                return 0, v[3][1]
            if v[1] == "+":
                a, b = self.rng(st, v[2]), self.rng(st, v[3])
                return (None if a[0] is None or b[0] is None else a[0] + b[0],
                        None if a[1] is None or b[1] is None else a[1] + b[1])
        if k == "b":
            return 0, 1
        return None, None

    def decide(self, st, b):
        """truth of comparison b or None"""
        pred, x, y = b[1], b[2], b[3]
        m = st.preds.get(b)
        if m is not None:
            return m
        if x == y:
            return pred in ("eq", "le", "ule")
        if x[0] == "p" or y[0] == "p":
            return self.decide_ptr(st, pred, x, y)
        if pred in ("eq", "lt", "le"):
            xl, xh = self.rng(st, x)
            yl, yh = self.rng(st, y)
            if pred == "eq":
                if xh is not None and yl is not None and xh < yl:
                    return False
                if xl is not None and yh is not None and xl > yh:
                    return False
                if xl is not None and xl == xh == yl == yh:
                    return True
                if y[0] == "c" and x[0] == "s" and y[1] in st.ss[x[1]].ne:
                    return False
                if x[0] == "c" and y[0] == "s" and x[1] in st.ss[y[1]].ne:
                    return False
                for q in (("b", "lt", x, y), ("b", "lt", y, x)):
                    if st.preds.get(q):
                        return False
                if st.preds.get(("b", "eq", y, x)) is not None:
                    return st.preds[("b", "eq", y, x)]
            else:
                if pred == "lt":
                    if xh is not None and yl is not None and xh < yl:
                        return True
                    if xl is not None and yh is not None and xl >= yh:
                        return False
                    if st.preds.get(("b", "lt", y, x)):
                        return False
                    if st.preds.get(("b", "le", y, x)) is not None:
                        return not st.preds[("b", "le", y, x)]
                    if st.preds.get(("b", "eq", x, y)) or st.preds.get(("b", "eq", y, x)):
                        return False
                else:
                    if xh is not None and yl is not None and xh <= yl:
                        return True
                    if xl is not None and yh is not None and xl > yh:
                        return False
                    if st.preds.get(("b", "lt", x, y)):
                        return True
                    if st.preds.get(("b", "lt", y, x)) is not None:
                        return not st.preds[("b", "lt", y, x)]
                    if st.preds.get(("b", "eq", x, y)) or st.preds.get(("b", "eq", y, x)):
                        return True
        elif pred in ("ult", "ule"):
            xl, xh = self.rng(st, x)
            yl, yh = self.rng(st, y)
            if xl is not None and xl >= 0 and yl is not None and yl >= 0:
                return self.decide(st, ("b", pred[1:], x, y))
        return None

    def decide_ptr(self, st, pred, x, y):
        if pred != "eq":
            return None
        if x[0] != "p":
            x, y = y, x
        if y == ZEROV:
            if x[2] != 0:
                return False
            n = st.ps[x[1]].null
            return None if n is None else n
        if y[0] == "p":
            if x[1] == y[1]:
                if isinstance(x[2], int) and isinstance(y[2], int):
                    return x[2] == y[2]
                return None
            px, py = st.ps[x[1]], st.ps[y[1]]
            for a, b in ((px, py), (py, px)):
                if a.null is False and b.null is True:
                    return False
                if ("fresh" in a.flg or "alloca" in a.flg) and a.null is False and b.org[0] in ("param", "slot"):
                    return False
                if "alloca" in a.flg:
                    return False
            if px.null is True and py.null is True:
                return True
            m = st.preds.get(("b", "eq", y, x))
            return m
        if y[0] in ("f", "g"):
            return None
        return None

    def refine(self, st, b, truth):
        """returns False when infeasible"""
        d = self.decide(st, b)
        if d is not None:
            return d == truth
        pred, x, y = b[1], b[2], b[3]
        if x[0] == "p" or y[0] == "p":
            if x[0] != "p":
                x, y = y, x
            if y == ZEROV and pred == "eq":
                if truth:
                    self.set_null(st, x[1])
                else:
                    self.set_nonnull(st, x[1])
                return True
            if y[0] == "p" and pred == "eq" and truth:
                nx, ny = st.ps[x[1]].null, st.ps[y[1]].null
                if nx is True:
                    self.set_null(st, y[1])
                elif ny is True:
                    self.set_null(st, x[1])
                elif nx is False:
                    self.set_nonnull(st, y[1])
                elif ny is False:
                    self.set_nonnull(st, x[1])
            st.preds[b] = truth
            return True
        if pred in ("eq", "lt", "le"):
            xs, xc = self.shift(x)
            ys, yc = self.shift(y)
            if y[0] == "c" and xs is not None:
                c = y[1] - xc
                if not self.refc(st, xs, pred, c, truth, False):
                    return False
                if x[0] == "s":
                    return True
            elif x[0] == "c" and ys is not None:
                c = x[1] - yc
                if not self.refc(st, ys, pred, c, truth, True):
                    return False
                if y[0] == "s":
                    return True
            else:
                if not self.refboth(st, pred, x, y, xs, xc, ys, yc, truth):
                    return False
        st.preds[b] = truth
        return True

    def refboth(self, st, pred, x, y, xs, xc, ys, yc, truth):
        xl, xh = self.rng(st, x)
        yl, yh = self.rng(st, y)

        def up(s, c, lo, hi):
            if s is None:
                return True
            return self.set_range(st, s, None if lo is None else lo - c, None if hi is None else hi - c)
        if pred == "eq" and truth:
            return up(xs, xc, yl, yh) and up(ys, yc, xl, xh)
        if pred == "eq":
            return True
        if pred == "lt" and truth or pred == "le" and truth:
            e = 1 if pred == "lt" else 0
            return up(xs, xc, None, None if yh is None else yh - e) and \
                up(ys, yc, None if xl is None else xl + e, None)
        e = 0 if pred == "lt" else 1
        # not (x < y): x >= y ; not (x <= y): x >= y+1
        return up(xs, xc, None if yl is None else yl + e, None) and \
            up(ys, yc, None, None if xh is None else xh - e)

    def shift(self, v):
        if v[0] == "s":
            return v[1], 0
        if v[0] == "x" and v[1] == "+" and v[2][0] == "s" and v[3][0] == "c":
            return v[2][1], v[3][1]
        return None, 0

    def refc(self, st, s, pred, c, truth, flip):
        if pred == "eq":
            if truth:
                return self.set_range(st, s, c, c)
            return self.set_range(st, s, None, None, c)
        if not flip:
            if pred == "lt":
                return self.set_range(st, s, None, c - 1) if truth else self.set_range(st, s, c, None)
            return self.set_range(st, s, None, c) if truth else self.set_range(st, s, c + 1, None)
        # c < s
        if pred == "lt":
            return self.set_range(st, s, c + 1, None) if truth else self.set_range(st, s, None, c)
        return self.set_range(st, s, c, None) if truth else self.set_range(st, s, None, c - 1)

    def after_refine(self, st):
        """reference counts that reached zero / stayed positive"""
        for sym, p in list(st.ps.items()):
            if "decr" in p.flg:
                d = [f for f in p.flg if isinstance(f, tuple) and f[0] == "rexp"]
                if not d:
                    continue
                lo, hi = self.rng(st, d[0][1])
                if hi is not None and hi <= 0:
                    st.up(sym, flg=(p.flg - {"decr", d[0], "dead"}) | {"dying"}, own=1, excl=EXCL)
                elif lo is not None and lo >= 1:
                    st.up(sym, flg=p.flg - {"decr", d[0]})

    def assume(self, st, v, truth):
        """-> list of states"""
        if v[0] == "c":
            return [st] if bool(v[1]) == truth else []
        if v[0] == "b":
            if self.refine(st, v, truth):
                self.after_refine(st)
                return [st]
            return []
        if v[0] == "not":
            return self.assume(st, v[1], not truth)
        if v[0] == "p":
            b = ("b", "eq", v, ZEROV)
            if self.refine(st, b, not truth):
                return [st]
            return []
        if v[0] in ("s", "x"):
            b = ("b", "eq", v, ZEROV)
            if self.refine(st, b, not truth):
                self.after_refine(st)
                return [st]
            return []
        return [st]

    # ------------------------------------------------------------ values
    def val(self, st, op):
        k = op[0]
        if k == "v":
            r = st.env.get((self.frame, op[1]))
            if r is None:
                raise GiveUp("undefined value " + op[1])
            return r
        if k == "c":
            return ("c", op[1])
        if k == "null":
            return ZEROV
        if k == "g":
            n = op[1]
            if n in self.mod.funcs or n in self.mod.decls:
                return ("f", n)
            return ("g", n, 0)
        if k == "undef":
            return st.news()
        if k == "zero":
            t = op[1]
            if t.k in ("struct", "lit"):
                return ("t",) + tuple(ZEROV for _ in self.mod.layout.elts(t))
            return ZEROV
        if k == "f":
            return st.news()
        if k == "cgep":
            b = self.val(st, op[2])
            return b if b[0] == "g" else st.news()
        if k == "ccast":
            return self.val(st, op[3])
        if k == "cbin":
            return st.news()
        if k == "agg":
            return ("t",) + tuple(self.val(st, v) for _, v in op[2])
        if k == "str":
            return ("g", "str", 0)
        raise GiveUp("operand %r" % (op,))

    def expr(self, st, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                     "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: x << y if 0 <= y < 64 else 0,
                     "sdiv": lambda: int(x / y) if y else 0,
                     "udiv": lambda: x // y if y else 0,
                     "srem": lambda: x - y * int(x / y) if y else 0,
                     "urem": lambda: x % y if y else 0,
                     "lshr": lambda: x >> y if 0 <= y < 64 else 0,
                     "ashr": lambda: x >> y if 0 <= y < 64 else 0}[op]()
                return ("c", r)
            except KeyError:
                return st.news()
        if op == "xor" and a[0] == "not" and b[0] == "c" and b[1] in (1, -1, True):
            return a[1]
        for v in (a, b):
            if v[0] not in ("c", "s", "x", "b"):
                return st.news()
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if op == "add":
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                if b[1] == 0:
                    return a
                if a[0] == "x" and a[1] == "+" and a[3][0] == "c":
                    return self.expr(st, "add", a[2], ("c", a[3][1] + b[1]))
            op = "+"
        if op == "xor" and a[0] == "b" and b[0] == "c" and b[1] in (1, -1, True):
            return ("not", a)
        if op in ("and", "or", "mul") and repr(a) > repr(b) and b[0] != "c":
            a, b = b, a
        if op == "and" and a[0] == "c":
            a, b = b, a
        if depth(a) + depth(b) > 5:
            return st.news()
        return ("x", op, a, b)

    def icmp(self, st, pred, a, b):
        """-> value"""
        # (zext b) compared with a constant
        for x, y in ((a, b), (b, a)):
            if x[0] in ("b", "not") and y[0] == "c":
                if pred in ("eq", "ne") and y[1] in (0, 1):
                    pos = (pred == "ne") == (y[1] == 0)
                    return x if pos else (x[1] if x[0] == "not" else ("not", x))
                return st.news()
        if a[0] in ("b", "not") or b[0] in ("b", "not"):
            return st.news()
        if a[0] == "f" or b[0] == "f" or a[0] == "g" or b[0] == "g":
            if pred in ("eq", "ne"):
                if a == ZEROV or b == ZEROV:
                    return ("c", int(pred == "ne"))
                if a[0] == b[0] and a[0] == "f":
                    return ("c", int((a == b) == (pred == "eq")))
            return st.news(lo=0, hi=1)
        if a[0] == "t" or b[0] == "t":
            return st.news(lo=0, hi=1)
        neg = False
        if pred == "ne":
            pred, neg = "eq", True
        elif pred in ("sgt", "ugt", "sge", "uge"):
            a, b = b, a
            pred = {"sgt": "slt", "ugt": "ult", "sge": "sle", "uge": "ule"}[pred]
        pred = {"slt": "lt", "sle": "le"}.get(pred, pred)
        if pred == "eq" and (a[0] == "c" and b[0] != "c"):
            a, b = b, a
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            r = {"eq": x == y, "lt": x < y, "le": x <= y,
                 "ult": (x % 2 ** 64) < (y % 2 ** 64), "ule": (x % 2 ** 64) <= (y % 2 ** 64)}[pred]
            return ("c", int(r != neg))
        if a[0] == "p" or b[0] == "p":
            if pred != "eq":
                return st.news(lo=0, hi=1)
        v = ("b", pred, a, b)
        d = self.decide(st, v)
        if d is not None:
            return ("c", int(d != neg))
        return ("not", v) if neg else v

    # ------------------------------------------------------------ memory
    def deref(self, st, sym, line):
        p = st.ps[sym]
        self.obl.add(("P2", self.curi))
        if p.null is False:
            return
        if p.null is True:
            self.alarm("P2", "null-deref", self.who(st, sym), line)
            raise Infeasible()
        o = p.org
        if o[0] == "param" and self.frame == 0 and len(o) == 2:
            i = o[1]
            if self.exported and self.params_ann[i][0] in ("take", "keep") and self.params_ann[i][1] in self.w.obj:
                self.alarm("P2", "null-deref", "param%d" % i, line)
            else:
                self.new.nn_req = self.new.nn_req | {i}
                self.nnset.add(i)
        elif o[0] == "ret":
            self.alarm("P2", "null-deref", "ret " + o[1], line)
        elif o[0] == "param":
            i = o[1]
            self.new.nn_req = self.new.nn_req | {i}
        self.set_nonnull(st, sym)

    def who(self, st, sym):
        o = st.ps[sym].org
        if o[0] == "param":
            return "param%d" % o[1]
        if o[0] == "ret":
            return "ret " + o[1]
        if o[0] == "slot":
            return "slot"
        return o[0]

    def load(self, st, ptr, ty, line):
        if ptr == ZEROV:
            self.alarm("P2", "null-deref", "const", line)
            raise Infeasible()
        if ty.k in ("lit", "struct"):
            out = []
            for i, e in enumerate(self.mod.layout.elts(ty)):
                o = self.mod.layout.offset(ty, i)
                out.append(self.load(st, self.padd(ptr, o), e, line))
            return ("t",) + tuple(out)
        if ptr[0] == "g":
            return self.fresh_of(st, ty)
        if ptr[0] != "p":
            return self.fresh_of(st, ty)
        sym, off = ptr[1], ptr[2]
        self.deref(st, sym, line)
        if "dead" in st.ps[sym].flg:
            self.alarm("P1", "use-after-give", self.who(st, sym), line)
        k = (sym, off)
        h = st.heap.get(k)
        if h is not None:
            return h
        if (sym, "Z") in st.heap and isinstance(off, int):
            v = ZEROV
        else:
            fo = self.field_of(st, sym, off)
            if ty.k == "ptr":
                t = strip_ptr(fo[2]) if fo else None
                rc = t in self.w.rc
                p = st.ps[sym]
                root = None if rc else (p.root if p.root is not None else sym)
                if "alloca" in p.flg or t in INDEP:
                    root = None
                v = st.newp(ty=t, org=("slot", sym, off), root=root)
                if fo and (fo[0], fo[1]) in self.cfg.nonnull_fields:
                    st.up(v[1], null=False)
            elif ty.k == "int":
                v = st.news()
                if fo and fo[1] == "ref" and self.is_rc(st, sym):
                    st.ss[v[1]] = st.ss[v[1]]._replace(lo=1, err=("ref", sym))
                elif ty.a == 8 or ty.a == 1:
                    pass
            else:
                v = st.news()
        st.heap[k] = v
        return v

    def fresh_of(self, st, ty):
        if ty.k == "ptr":
            return st.newp()
        if ty.k in ("lit", "struct"):
            return ("t",) + tuple(self.fresh_of(st, e) for e in self.mod.layout.elts(ty))
        return st.news()

    def padd(self, p, k):
        if p[0] == "p":
            return ("p", p[1], addoff(p[2], k))
        return p

    def check_write(self, st, sym, off, line, what=None):
        """P3: may the memory reachable from this pointer be modified?"""
        self.obl.add(("P3", self.curi))
        p = st.ps[sym]
        fo = self.field_of(st, sym, off) if what is None else None
        R = self.rootof(st, sym)
        r = st.ps[R]
        if r.ty in self.w.rc:
            if R == sym and fo:
                if ("*", fo[1]) in self.cfg.exempt_fields or (fo[0], fo[1]) in self.cfg.exempt_fields:
                    return
            if r.excl is None:
                self.alarm("P3", "shared-write", "%s.%s" % (r.ty[7:], fo[1] if fo and R == sym else "*"), line)
                st.up(R, excl=EXCL)
            elif r.excl:
                for i in r.excl:
                    self.need_excl(i, line, st)
        else:
            if r.org[0] == "param":
                if r.org[1] not in self.new.writes:
                    self.new.writes = self.new.writes | {self.conditional(st, r.org[1])}

    def conditional(self, st, i):
        """a requirement / effect on param i that only arises if some int param is (non)zero"""
        for j, a in enumerate(self.params):
            if a[0] != "s" or j in self.cand0:
                continue
            v = st.env.get((-1, "#%d" % j))
            if v is None or v[0] != "s":
                if v == ZEROV:
                    return i + 10000 * (2 * j + 2)
                if v is not None and v[0] == "c":
                    return i + 10000 * (2 * j + 1)
                continue
            q = st.ss.get(v[1])
            if q is None:
                continue
            if q.lo == 0 and q.hi == 0:
                return i + 10000 * (2 * j + 2)
            if 0 in q.ne or q.lo is not None and q.lo > 0 or q.hi is not None and q.hi < 0:
                return i + 10000 * (2 * j + 1)
        return i

    def holds_cond(self, st, codes, args):
        """the params whose (conditional) requirement may apply to this call"""
        out = set()
        for c in codes:
            if c < 10000:
                out.add(c)
                continue
            i, k = c % 10000, c // 10000
            j, zero = (k - 1) // 2, (k - 1) % 2
            lo, hi, ne = None, None, ()
            if j < len(args):
                lo, hi = self.rng(st, args[j])
                if args[j][0] == "s" and args[j][1] in st.ss:
                    ne = st.ss[args[j][1]].ne
            isz = lo == 0 and hi == 0
            nz = 0 in ne or lo is not None and lo > 0 or hi is not None and hi < 0
            if zero and nz or not zero and isz:
                continue
            out.add(i)
        return out

    def need_excl(self, i, line, st=None):
        if self.exported and self.params_ann[i % 1000][0] in ("take", "keep"):
            self.alarm("P3", "shared-write", "param%d" % (i % 1000), line)
        else:
            if st is not None and i not in self.new.excl_req:
                i = self.conditional(st, i)
            self.new.excl_req = self.new.excl_req | {i}

    def store(self, st, ptr, v, ty, line):
        if ptr == ZEROV:
            self.alarm("P2", "null-deref", "const", line)
            raise Infeasible()
        if ptr[0] == "g":
            self.alarm("P5", "global-write", ptr[1], line)
            return
        if ptr[0] != "p":
            return
        if v[0] == "t" and ty.k in ("lit", "struct"):
            for i, e in enumerate(self.mod.layout.elts(ty)):
                self.store(st, self.padd(ptr, self.mod.layout.offset(ty, i)), v[1 + i], e, line)
            return
        sym, off = ptr[1], ptr[2]
        self.deref(st, sym, line)
        p = st.ps[sym]
        if "dead" in p.flg:
            self.alarm("P1", "use-after-give", self.who(st, sym), line)
        fo = self.field_of(st, sym, off)
        alloca = "alloca" in p.flg
        if not alloca:
            self.check_write(st, sym, off, line)
        if fo and fo[1] == "ref" and fo[0] and ("struct " + fo[0]) in self.w.rc:
            self.store_ref(st, sym, off, v, line)
            return
        if v[0] == "p" and v[1] in st.errs and not alloca:
            st.errs.pop(v[1])
        if v[0] == "s" and v[1] in st.errs and not alloca:
            st.errs.pop(v[1])
        isptr = ty.k == "ptr"
        if isptr and not alloca:
            self.store_slot(st, sym, off, v, fo, line)
        # invalidate may-alias entries
        if not isinstance(off, int) or any(not isinstance(k[1], (int, str)) for k in st.heap if k[0] == sym):
            for k in list(st.heap):
                if k[0] == sym and k[1] != off and k[1] != "Z":
                    if isinstance(k[1], int) and isinstance(off, int):
                        continue
                    if isinstance(k[1], tuple) and isinstance(off, tuple) and k[1][2] == off[2] and k[1][0] == "+" and off[0] == "+":
                        continue
                    del st.heap[k]
        st.heap[(sym, off)] = v
        st.slot.pop((sym, off), None)

    def store_ref(self, st, sym, off, v, line):
        old = st.heap.get((sym, off))
        p = st.ps[sym]
        if v[0] == "c" and "fresh" in p.flg:
            st.heap[(sym, off)] = v
            return
        base = old
        d = None
        if v[0] == "x" and v[1] == "+" and v[3][0] == "c":
            if v[2] == old:
                d = v[3][1]
            elif old is not None and old[0] == "x" and old[1] == "+" and old[2] == v[2] and old[3][0] == "c":
                d = v[3][1] - old[3][1]
        elif v[0] == "c" and old and old[0] == "c":
            d = v[1] - old[1]
        elif old is not None and old[0] == "x" and old[1] == "+" and old[3][0] == "c" and v == old[2]:
            d = -old[3][1]
        elif old is not None and old[0] == "s" and v[0] == "c":
            lo, hi = self.rng(st, old)
            if lo is not None and lo == hi:
                d = v[1] - lo
        if d == 1:
            st.up(sym, own=p.own + 1, excl=None, flg=p.flg - {"dead"})
        elif d == -1:
            if p.own >= 1:
                st.up(sym, own=p.own - 1, excl=None,
                      flg=p.flg | {"decr", ("rexp", v)})
            elif p.org[0] == "slot" and st.slot.get((p.org[1], p.org[2])) != "moved":
                st.slot[(p.org[1], p.org[2])] = "moved"
                st.up(sym, flg=p.flg | {"decr", ("rexp", v)})
            else:
                self.alarm("P1", "release-unowned", self.who(st, sym), line)
        else:
            self.alarm("P1", "ref-write", self.who(st, sym), line)
        st.heap[(sym, off)] = v

    def store_slot(self, st, sym, off, v, fo, line):
        ct = fo[2] if fo else None
        t = strip_ptr(ct) if ct else None
        rc = t in self.w.rc
        own = rc and (fo[0], fo[1]) not in self.cfg.nonowning if fo else False
        p = st.ps[sym]
        if own and isinstance(off, int):
            old = st.heap.get((sym, off))
            state = st.slot.get((sym, off))
            leak = False
            if state == "moved":
                pass
            elif (sym, "Z") in st.heap and old is None:
                pass
            elif old is None:
                leak = "fresh" not in p.flg
            elif old == ZEROV:
                pass
            elif old[0] == "p":
                q = st.ps[old[1]]
                if q.null is True:
                    pass
                elif v == old:
                    pass
                elif q.org == ("slot", sym, off):
                    st.up(old[1], own=q.own + 1, org=("taken",))
                elif q.org[0] == "slot":
                    pass
                else:
                    leak = True
            if leak and v != old:
                self.alarm("P1", "overwrite-leak", "%s.%s" % (fo[0], fo[1]), line)
        if v[0] == "p":
            q = st.ps[v[1]]
            if q.own > 0 and "alloca" not in q.flg:
                st.up(v[1], own=q.own - 1, flg=q.flg - {"dead"} if q.own > 1 else q.flg | {"borrow"},
                      org=q.org if q.own > 1 else (("slot", sym, off) if q.org[0] != "param" else ("slot", sym, off)))
            elif q.org[0] == "param" and q.ty not in self.w.rc and self.frame == 0 and len(q.org) == 2:
                self.new.stores = self.new.stores | {q.org[1]}
            elif own and q.ty in self.w.rc and q.null is not True:
                if st.heap.get((sym, off)) == v:
                    pass
                elif q.tok is not None and q.tok in st.ps and st.ps[q.tok].own > 0:
                    self.consume(st, v[1], line)
                elif q.org[0] == "slot" and st.slot.get((q.org[1], q.org[2])) != "moved":
                    st.slot[(q.org[1], q.org[2])] = "moved"
                    st.up(v[1], org=("slot", sym, off))
                elif "soft" in q.flg:
                    pass
                else:
                    self.alarm("P1", "store-borrowed", "%s.%s" % (fo[0], fo[1]), line)

    # ------------------------------------------------------------ ownership
    def consume(self, st, sym, line, what="give"):
        """give away one reference to sym (if it is not NULL)"""
        self.obl.add(("P1", self.curi))
        p = st.ps[sym]
        if p.null is True:
            return
        if p.own > 0:
            n = p.own - 1
            flg = p.flg
            if n == 0 and "borrow" not in flg:
                flg = flg | {"dead"}
            st.up(sym, own=n, flg=flg, excl=None)
            return
        if "soft" in p.flg:
            st.up(sym, flg=p.flg | {"dead"})
            return
        if p.tok is not None and p.tok in st.ps and st.ps[p.tok].own > 0:
            q = st.ps[p.tok]
            st.up(p.tok, own=q.own - 1)
            st.up(sym, flg=p.flg | {"dead"}, excl=None)
            return
        if "dead" in p.flg:
            self.alarm("P1", "double-give", self.who(st, sym), line)
            return
        if p.org[0] == "slot":
            b, off = p.org[1], p.org[2]
            if st.slot.get((b, off)) == "moved":
                self.alarm("P1", "double-give", "slot", line)
                return
            if b in st.ps and st.ps[b].ty in self.w.rc and "alloca" not in st.ps[b].flg:
                if st.ps[b].excl is None:
                    self.alarm("P3", "steal", (self.field_of(st, b, off) or ("?", "?"))[1], line)
                elif st.ps[b].excl:
                    for i in st.ps[b].excl:
                        self.need_excl(i, line)
            st.slot[(b, off)] = "moved"
            st.up(sym, excl=None)
            return
        if p.org[0] == "cut":
            st.up(sym, flg=p.flg | {"dead"})
            return
        if p.org[0] in ("unk", "?"):
            return
        if p.null is None and p.org[0] == "ret" and "borrow" not in p.flg:
            return
        self.alarm("P1", "give-unowned", self.who(st, sym), line)

    def use(self, st, sym, line):
        """sym is passed as a borrowed argument"""
        self.obl.add(("P1", self.curi))
        p = st.ps[sym]
        if p.null is True:
            return
        if "dead" in p.flg:
            self.alarm("P1", "use-after-give", self.who(st, sym), line)

    def has_moved(self, st, sym):
        for (b, off), v in st.slot.items():
            if b == sym and v == "moved" and isinstance(off, int):
                return off
        return None

    def havoc(self, st, sym, seen, keep_own=True):
        """memory reachable from non-refcounted object sym may change"""
        if sym in seen:
            return
        seen.add(sym)
        al = "alloca" in st.ps[sym].flg
        for k in [k for k in st.heap if k[0] == sym]:
            v = st.heap.pop(k)
            if k[1] == "Z":
                continue
            if v[0] == "p" and v[1] in st.ps:
                q = st.ps[v[1]]
                if q.ty not in self.w.rc and (q.org[0] != "slot" or "alloca" in q.flg):
                    self.havoc(st, v[1], seen)
                if al:
                    if v[1] in st.errs and sym not in self.inout:
                        st.errs.pop(v[1])
                    inout = st.ps[sym].ty == (q.ty or "?") + " *" or sym in self.inout
                    nv = st.newp(ty=q.ty, org=("slot", sym, k[1]), root=q.root,
                                 excl=q.excl if q.own > 0 and q.excl == EXCL else None,
                                 tok=v[1] if q.own > 0 else (q.tok if q.tok else None),
                                 deps=tuple(sorted(self.errdeps(st, v))) if inout and q.null is None else (),
                                 null=True if inout and q.null is True else None,
                                 flg=frozenset() if q.own > 0 else frozenset(["soft"]))
                    if inout:
                        self.inout_new.append(nv[1])
                    st.heap[k] = nv
            elif v == ZEROV and al:
                fo = self.field_of(st, sym, k[1])
                if fo and strip_ptr(fo[2]):
                    t = strip_ptr(fo[2])
                    nv = st.newp(ty=t, org=("slot", sym, k[1]), flg=frozenset(["soft"]))
                    st.heap[k] = nv
            elif v[0] == "f":
                st.heap[k] = v
            elif v[0] == "s" and v[1] in st.errs:
                st.errs.pop(v[1])
        for k in [k for k in st.slot if k[0] == sym]:
            if st.slot[k] == "moved":
                if not al:
                    self.alarm("P1", "dangling-slot", "call", 0)
                del st.slot[k]

    # ------------------------------------------------------------ calls
    def errdeps(self, st, v):
        out = set()
        if v[0] == "p" and v[2] == 0:
            p = st.ps[v[1]]
            if p.null is None and (p.org[0] in ("param", "ret") or v[1] in st.errs or p.deps):
                out.add(v[1])
                out.update(p.deps)
        elif v[0] == "s":
            s = st.ss.get(v[1])
            if s and s.err in (1, 2) and (s.lo is None or s.lo < 0):
                out.add(v[1])
                out.update(s.deps)
        return out

    def is_err(self, st, v):
        """True definitely error, False definitely not, None unknown"""
        if v[0] == "p":
            if v[2] != 0:
                return False
            return st.ps[v[1]].null
        if v[0] == "c":
            return None
        if v[0] == "s":
            lo, hi = self.rng(st, v)
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            return None
        if v[0] in ("b", "not", "f", "g"):
            return False
        return None

    def do_free(self, st, v, line):
        if v[0] != "p":
            return
        sym = v[1]
        p = st.ps[sym]
        if p.null is True:
            return
        ty = p.ty
        if ty and ty.startswith("struct ") and "fresh" not in p.flg and p.org[0] != "slot":
            d = self.w.struct(self.src, ty[7:])
            for f in (d["f"] if d else []):
                t = strip_ptr(f["ct"]) if not f["ct"].endswith("]") else None
                if t in self.w.rc and (ty[7:], f["n"]) not in self.cfg.nonowning:
                    self.free_slot(st, sym, f["o"], "%s.%s" % (ty[7:], f["n"]), line, True)
        elif "fresh" in p.flg and ty:
            for (b, off), h in list(st.heap.items()):
                if b == sym and isinstance(off, int) and h[0] == "p":
                    fo = self.field_of(st, sym, off)
                    if fo and strip_ptr(fo[2]) in self.w.rc and (fo[0], fo[1]) not in self.cfg.nonowning:
                        self.free_slot(st, sym, off, "%s.%s" % (fo[0], fo[1]), line, False)
        for k in [k for k in st.slot if k[0] == sym]:
            del st.slot[k]
        if p.org[0] == "slot" and p.own == 0 and p.tok is None:
            # memory owned by its container (e.g. an array field)
            st.slot[(p.org[1], p.org[2])] = "freed"
            st.up(sym, flg=p.flg | {"dead"})
            return
        self.consume(st, sym, line, "free")

    def free_slot(self, st, sym, off, name, line, must):
        s = st.slot.get((sym, off))
        if s == "moved":
            return
        h = st.heap.get((sym, off))
        if h is None:
            if must and (sym, "Z") not in st.heap:
                self.alarm("P1", "field-leak", name, line)
            return
        if h == ZEROV:
            return
        if h[0] == "p":
            q = st.ps[h[1]]
            if q.null is True or "dead" in q.flg:
                return
            if q.org != ("slot", sym, off):
                return
            self.alarm("P1", "field-leak", name, line)

    def call(self, st, ins):
        """-> list of states with the result bound"""
        callee, cargs = ins.a
        line = ins.line
        args = [self.val(st, v) for _, v, _2 in cargs]
        if callee[0] == "g":
            name = callee[1]
            return self.call_named(st, ins, name, args, line)
        cv = self.val(st, callee)
        if cv[0] == "f":
            return self.call_named(st, ins, cv[1], args, line)
        ann = self.indirect_ann(ins, callee)
        if ann is None:
            for a in args:
                if a[0] == "p" and st.ps[a[1]].own > 0 and "alloca" not in st.ps[a[1]].flg and st.ps[a[1]].ty in self.w.rc:
                    raise GiveUp("indirect call without prototype")
            ann = ([(None, None, {})] * len(args), None, None, None, "")
        return self.modular(st, ins, "*indirect", ann, None, args, line)

    def indirect_ann(self, ins, callee):
        """annotations of a function pointer: trace to a parameter or a struct field"""
        if callee[0] != "v":
            return None
        defs = self.finfo._defs if hasattr(self.finfo, "_defs") else None
        if defs is None:
            self.finfo._arith_back(Ins0, None) if False else None
            defs = {}
            for b in self.f.order:
                for i in b.phis + b.ins:
                    if i.res:
                        defs[i.res] = i
            self.finfo._defs = defs
        d = defs.get(callee[1])
        rec = None
        if d is None:
            dl = self.w.decl(self.curkey)
            for (nm, ty, at), p in zip(self.f.params, dl["p"] if dl else []):
                if nm == callee[1]:
                    rec = p
        elif d.op == "load" and d.a[0][0] == "v":
            g = defs.get(d.a[0][1])
            if g is not None and g.op == "gep" and g.a[0].k == "struct":
                try:
                    off = 0
                    t = g.a[0]
                    for k, (it, iv) in enumerate(g.a[2]):
                        if k == 0:
                            continue
                        off += self.mod.layout.offset(t, iv[1])
                        t = self.mod.layout.elts(t)[iv[1]]
                    sn = g.a[0].a
                    if sn.startswith("struct."):
                        sn = sn[7:]
                    sd = self.w.struct(self.src, re.sub(r"\.\d+$", "", sn))
                    for f in (sd["f"] if sd else []):
                        if f["o"] == off and "cb" in f:
                            rec = f
                except (IRError, IndexError, TypeError):
                    rec = None
        if rec is None or "cb" not in rec:
            return None
        cbr = rec.get("cbr", "")
        return self.w.mkann(rec["cb"], rec["a"], cbr, cbr)

    INLINE = {"isl_bool_not", "isl_bool_ok", "isl_stat_non_null"}

    def call_named(self, st, ins, name, args, line):
        h = getattr(self, "sp_" + name.replace(".", "_"), None)
        if h is None and name.startswith("llvm.memcpy"):
            h = self.sp_memcpy
        elif h is None and name.startswith("llvm.memset"):
            h = self.sp_memset
        elif h is None and name.startswith("llvm."):
            return self.bind(st, ins, self.fresh_of(st, ins.ty) if ins.ty.k != "void" else None)
        if h is not None:
            return h(st, ins, args, line)
        if name.startswith("mpz_") or name.startswith("mpq_"):
            return self.mpz(st, ins, name, args, line)
        key = self.w.key_of(self.src, name)
        if key is not None and len(self.stack) < 5 and key not in self.stack:
            s = self.summ.get(key)
            if name in self.INLINE or self.trivial(key) or (self.cfg.known is not None and isinstance(key, tuple)
                                       and key not in self.cfg.known):
                return self.inline(st, ins, key, args, line)
        ann = self.w.ann(self.src, name)
        if ann is None:
            ann = ([(None, None, {})] * len(args), None, None, None, "")
        return self.modular(st, ins, name, ann, self.summ.get(key) if key else None, args, line)

    def trivial(self, key):
        """straight-line call-free accessors and casts are inlined"""
        f = self.w.fn[key][1]
        t = getattr(f, "_triv", None)
        if t is None:
            f.parse()
            t = len(f.order) == 1 and len(f.order[0].ins) <= 6 and \
                all(i.op in ("gep", "load", "cast") for i in f.order[0].ins) and \
                f.order[0].term.op == "ret" and f.ret.k == "ptr" and \
                not any(i.op == "load" for i in f.order[0].ins)
            f._triv = t
        return t

    def inline(self, st, ins, key, args, line):
        self.inlined.add(key)
        fi = self.get_finfo(key)
        save = (self.mod, self.f, self.src, self.finfo, self.frame, self.curkey)
        self.stack.append(key)
        self.mod, self.f = self.w.fn[key]
        self.src = self.mod.src
        self.finfo = fi
        self.frame = save[4] + 1
        self.curkey = key
        env0 = {k: v for k, v in st.env.items()}
        try:
            outs = self.run(st, args)
        finally:
            myframe = self.frame
            self.mod, self.f, self.src, self.finfo, self.frame, self.curkey = save
            self.stack.pop()
        res = []
        for s, v in outs:
            for k in [k for k in s.env if k[0] == myframe]:
                del s.env[k]
            res += self.bind(s, ins, v)
        return res

    def bind(self, st, ins, v):
        if ins.res is not None:
            if v is None:
                v = self.fresh_of(st, ins.ty)
            st.env[(self.frame, ins.res)] = v
        return [st]

    # special callees
    def sp_isl_handle_error(self, st, ins, args, line):
        st.flags = st.flags | {("E", "isl_die")}
        return [st]

    def malloc_like(self, st, ins, args, line, zero=False):
        v = st.newp(own=1, excl=EXCL, org=("ret", "malloc"), flg=frozenset(["fresh"]))
        if zero:
            st.heap[(v[1], "Z")] = ("c", 1)
        st.errs[v[1]] = "malloc"
        return self.bind(st, ins, v)

    def sp_isl_malloc_or_die(self, st, ins, args, line):
        return self.malloc_like(st, ins, args, line)

    def sp_malloc(self, st, ins, args, line):
        return self.malloc_like(st, ins, args, line)

    def sp_strdup(self, st, ins, args, line):
        return self.malloc_like(st, ins, args, line)

    def sp_isl_calloc_or_die(self, st, ins, args, line):
        return self.malloc_like(st, ins, args, line, True)

    def sp_calloc(self, st, ins, args, line):
        return self.malloc_like(st, ins, args, line, True)

    def realloc_like(self, st, ins, ptr, line):
        s2 = st.copy()
        out = []
        # failure: result NULL, ptr untouched
        s2.flags = s2.flags | {("E", "realloc")}
        out += self.bind(s2, ins, ZEROV)
        if ptr[0] == "p":
            p = st.ps[ptr[1]]
            if p.own > 0 or p.org[0] == "slot":
                if p.own > 0:
                    self.consume(st, ptr[1], line)
                st.up(ptr[1], flg=st.ps[ptr[1]].flg | {"dead"})
        v = st.newp(own=1, excl=EXCL, null=False, org=("ret", "realloc"), flg=frozenset(["fresh"]),
                    ty=st.ps[ptr[1]].ty if ptr[0] == "p" else None)
        if ptr[0] == "p":
            for k in [k for k in st.heap if k[0] == ptr[1]]:
                st.heap[(v[1], k[1])] = st.heap[k]
        out += self.bind(st, ins, v)
        return out

    def sp_isl_realloc_or_die(self, st, ins, args, line):
        return self.realloc_like(st, ins, args[1], line)

    def sp_realloc(self, st, ins, args, line):
        return self.realloc_like(st, ins, args[0], line)

    def sp_free(self, st, ins, args, line):
        self.do_free(st, args[0], line)
        return [st]

    def sp_abort(self, st, ins, args, line):
        return []

    def sp_exit(self, st, ins, args, line):
        return []

    def sp_memcpy(self, st, ins, args, line):
        d, s = args[0], args[1]
        if d[0] == "p":
            self.deref(st, d[1], line)
            if "alloca" not in st.ps[d[1]].flg:
                self.check_write(st, d[1], d[2], line)
            for k in [k for k in st.heap if k[0] == d[1] and (not isinstance(d[2], int) or not isinstance(k[1], int) or k[1] >= d[2])]:
                del st.heap[k]
            if s[0] == "p" and isinstance(d[2], int) and isinstance(s[2], int) and args[2][0] == "c":
                n = args[2][1]
                for k in [k for k in st.heap if k[0] == s[1] and isinstance(k[1], int) and s[2] <= k[1] < s[2] + n]:
                    st.heap[(d[1], k[1] - s[2] + d[2])] = st.heap[k]
                    h = st.heap[k]
                    if h[0] == "p" and "alloca" not in st.ps[d[1]].flg:
                        q = st.ps[h[1]]
                        if q.own > 0 and "alloca" not in q.flg:
                            st.up(h[1], own=q.own - 1, org=("slot", d[1], k[1] - s[2] + d[2]))
        if s[0] == "p":
            self.deref(st, s[1], line)
        return [st]

    def sp_memset(self, st, ins, args, line):
        d = args[0]
        if d[0] == "p":
            self.deref(st, d[1], line)
            if "alloca" not in st.ps[d[1]].flg:
                self.check_write(st, d[1], d[2], line)
            for k in [k for k in st.heap if k[0] == d[1]]:
                del st.heap[k]
            if d[2] == 0 and args[1] == ZEROV:
                st.heap[(d[1], "Z")] = ("c", 1)
        return [st]

    def mpz(self, st, ins, name, args, line):
        d = self.w.decls.get(self.src, name)
        for i, a in enumerate(args):
            if a[0] != "p":
                if a == ZEROV and d and i < len(d["p"]) and "*" in d["p"][i]["ct"] and name not in ("mpz_get_str", "mpz_export", "mpz_import"):
                    self.alarm("P2", "null-deref", "const", line)
                    raise Infeasible()
                continue
            self.deref(st, a[1], line)
            p = st.ps[a[1]]
            if "dead" in p.flg:
                self.alarm("P1", "use-after-give", self.who(st, a[1]), line)
            if "alloca" in p.flg and isinstance(a[2], int):
                k = (a[1], a[2])
                if name in ("mpz_init", "mpq_init"):
                    if st.slot.get(k) == "init":
                        self.alarm("P1", "mpz-reinit", "local", line)
                    st.slot[k] = "init"
                elif name in ("mpz_clear", "mpq_clear"):
                    if st.slot.get(k) != "init" and (a[1], "H") not in st.heap:
                        self.alarm("P1", "mpz-clear-uninit", "local", line)
                    st.slot[k] = "cleared"
                elif st.slot.get(k) != "init" and (a[1], "H") not in st.heap:
                    self.alarm("P1", "mpz-use-uninit", "local", line)
                continue
            ct = d["p"][i]["ct"] if d and i < len(d["p"]) else ""
            if "*" in ct and "const" not in ct and "gmp_randstate" not in ct:
                self.check_write(st, a[1], a[2], line, "mpz")
        if ins.ty.k == "ptr":
            if name in ("mpq_numref_fn", "mpq_denref_fn") and args[0][0] == "p":
                a = args[0]
                v = st.newp(null=False, root=self.rootof(st, a[1]), org=("mpq",))
                return self.bind(st, ins, v)
            return self.bind(st, ins, st.newp(flg=frozenset(["soft"]), org=("unk",)))
        if name in ("mpz_sgn", "mpz_cmp_si", "mpz_cmp", "mpz_cmpabs", "mpq_sgn", "mpq_cmp"):
            return self.bind(st, ins, st.news())
        return self.bind(st, ins, None if ins.ty.k == "void" else st.news())

    # ------------------------------------------------------------ modular call
    def modular(self, st, ins, name, ann, s, args, line):
        ps, ret, rty, kind, cr = ann
        w = self.w
        indirect = name == "*indirect"
        nn = s.nn_req if s else ()
        xr = self.holds_cond(st, s.excl_req, args) if s else ()
        wr = self.holds_cond(st, s.writes, args) if s else None
        strict = s.strict if s else ()
        if indirect and (ret == "give" or kind):
            strict = {i for i, (an, pt, prec) in enumerate(ps) if pt in w.obj and an in ("take", "keep")}
        known_err = False
        deps = set()
        allok = True
        argex = {}
        for i, a in enumerate(args):
            an, pt, prec = ps[i] if i < len(ps) else (None, None, {})
            if i in strict:
                e = self.is_err(st, a) if a != ZEROV else (True if an or pt else None)
                if a[0] == "c" and an is None and pt is None and a[1] < 0:
                    e = True
                if e is True:
                    known_err = True
                elif e is None and a[0] in ("p", "s"):
                    dd = self.errdeps(st, a)
                    if dd:
                        deps |= dd
                        allok = False
            if a[0] == "p":
                p = st.ps[a[1]]
                argex[i] = p.excl if p.ty in w.rc else EXCL
                argex[1000 + i] = self.excl_if_ref1(st, a[1]) if p.ty in w.rc else EXCL
                if i in nn and a[2] == 0:
                    if p.null is not False:
                        self.deref(st, a[1], line)
                if pt in w.rc and p.ty is None and "alloca" not in p.flg:
                    st.up(a[1], ty=pt)
                    p = st.ps[a[1]]
                if i in xr and p.ty in w.rc and p.null is not True:
                    if p.excl is None:
                        self.alarm("P3", "shared-arg", name, line)
                    else:
                        for j in p.excl:
                            self.need_excl(j, line, st)
                elif 1000 + i in xr and p.ty in w.rc and p.null is not True:
                    e = argex[1000 + i]
                    if e is None:
                        self.alarm("P3", "shared-arg", name, line)
                    else:
                        for j in e:
                            self.need_excl(j, line, st)
                if wr is not None and i in wr and "alloca" not in p.flg:
                    self.check_write(st, a[1], a[2], line, "call")
            elif a == ZEROV and i in nn:
                self.alarm("P2", "null-arg", name, line)
                raise Infeasible()
        # uses
        for i, a in enumerate(args):
            if a[0] != "p" or a[2] != 0:
                if a[0] == "p" and a[1] in st.ps and "dead" in st.ps[a[1]].flg:
                    self.alarm("P1", "use-after-give", self.who(st, a[1]), line)
                continue
            an, pt, prec = ps[i] if i < len(ps) else (None, None, {})
            p = st.ps[a[1]]
            if "alloca" in p.flg:
                continue
            self.use(st, a[1], line)
            if p.ty in w.rc and p.null is not True:
                o = self.has_moved(st, a[1])
                if o is not None:
                    fo = self.field_of(st, a[1], o)
                    self.alarm("P1", "dangling-slot", fo[1] if fo else "?", line)
        hv = set()
        self.inout = {a[1] for i, a in enumerate(args) if a[0] == "p" and a[2] == 0 and i < len(ps)
                      and ps[i][1] and ps[i][1].endswith("*") and ps[i][1][:-1].strip() in w.rc}
        self.inout_new = []
        for i, a in enumerate(args):
            if a[0] != "p":
                continue
            an, pt, prec = ps[i] if i < len(ps) else (None, None, {})
            p = st.ps[a[1]]
            if an == "take" and a[2] == 0 and "alloca" not in p.flg:
                self.consume(st, a[1], line)
            elif an == "give":
                # out parameter
                t = pt[:-1].strip() if pt and pt.endswith("*") else None
                if t is not None:
                    v = st.newp(own=1, ty=t, org=("ret", name), flg=frozenset(), deps=())
                    if "alloca" not in p.flg:
                        st.up(v[1], own=0, org=("slot", a[1], a[2]))
                    st.heap[(a[1], a[2])] = v
                    hv.add(a[1])
            elif "alloca" not in p.flg and p.own > 0 and an is None and (
                    (s and i in s.stores) or (s is None and not indirect and name not in EXT_NOSTORE)
                    or (indirect and p.ty not in w.rc)):
                st.up(a[1], own=p.own - 1, flg=p.flg | {"borrow"})
            elif an is None and s and i in s.stores and p.own == 0 and "alloca" not in p.flg and p.org[0] == "slot" and p.ty not in w.rc:
                st.slot.pop((p.org[1], p.org[2]), None)
            if s and i in s.shares:
                st.up(a[1], excl=None)
        for i, a in enumerate(args):
            if a[0] != "p":
                continue
            an, pt, prec = ps[i] if i < len(ps) else (None, None, {})
            p = st.ps[a[1]]
            if an == "give":
                continue
            if p.ty in w.rc and "alloca" not in p.flg:
                if i in xr or 1000 + i in xr or (an is None and s is None):
                    for k in [k for k in st.heap if k[0] == a[1]]:
                        del st.heap[k]
                continue
            if pt == "struct __mpz_struct" or (pt or "").startswith("struct __mpz_struct"):
                if "alloca" in p.flg and a[2] == 0:
                    st.heap[(a[1], "H")] = ("c", 1) if (pt or "").count("*") else ("c", 1)
                continue
            if wr is not None and i not in wr and i not in (s.stores if s else ()) and "alloca" not in p.flg:
                continue
            if pt in ("char", "struct isl_ctx"):
                continue
            if wr is not None and i not in wr and not self.has_ptrs(st, a[1]):
                continue
            self.havoc(st, a[1], hv)
        # result
        if ins.ty.k == "void":
            return [st]
        deps = {d for d in deps if (d in st.errs or (d in st.ps and st.ps[d].org[0] == "param") or d in st.ss or d in st.ps)}
        total = bool(s and s.total)
        if ins.ty.k == "ptr":
            if ret == "null":
                return self.bind(st, ins, ZEROV)
            if known_err and (ret == "give" or ret == "keep" or s is not None):
                return self.bind(st, ins, ZEROV)
            ex = None
            root = None
            if s is not None and s.ret_excl is not None:
                ex = EXCL
                for j in s.ret_excl:
                    e = argex.get(j)
                    if e is None:
                        ex = None
                        break
                    ex = ex | e
            if s is not None and rty not in w.rc:
                for j in s.ret_root:
                    if j < len(args) and args[j][0] == "p":
                        root = self.rootof(st, args[j][1])
            null = None
            flg = set()
            if total:
                if allok:
                    null = False
                else:
                    flg.add("tot")
            own = 0
            if ret == "give":
                own = 1
            elif ret is None:
                flg.add("soft")
            else:
                flg.add("borrow")
            if ret == "keep" and rty in w.rc and s is not None and s.ret_root and False:
                pass
            v = st.newp(null=null, own=own, excl=ex, ty=rty if rty not in ("void",) else None,
                        org=("ret", name), root=root, deps=tuple(sorted(deps)) if null is None else (),
                        flg=frozenset(flg))
            if null is None and not total and ret == "give":
                st.errs[v[1]] = name
                for d in deps:
                    st.errs.pop(d, None)
            return self.bind(st, ins, v)
        if kind in ("isl_bool", "isl_stat", "isl_size"):
            if known_err:
                return self.bind(st, ins, ("c", -1))
            hi = {"isl_bool": 1, "isl_stat": 0, "isl_size": None}[kind]
            lo = -1
            if total and allok:
                lo = 0
                deps = ()
            v = st.news(lo=lo, hi=hi, err=2 if total else 1, deps=tuple(sorted(deps)))
            if lo < 0 and not total:
                st.errs[v[1]] = name
                for d in deps:
                    st.errs.pop(d, None)
                for x in self.inout_new:
                    if st.ps[x].null is None:
                        st.up(x, deps=st.ps[x].deps + (v[1],))
            return self.bind(st, ins, v)
        return self.bind(st, ins, self.fresh_of(st, ins.ty))

    def has_ptrs(self, st, sym):
        return any(k[0] == sym for k in st.heap)


EXT_NOSTORE = {"strlen", "strcmp", "strncmp", "strchr", "strrchr", "printf", "fprintf", "snprintf",
               "strcpy", "qsort", "strtol", "strtoul", "atoi", "strcasecmp", "mpz_get_str"}


class Infeasible(Exception):
    pass


def _canon(st, finfo, frame, block, keepsyms, coarse):
    """garbage-collect and rename a state; returns a hashable key"""
    live = finfo.live[block]
    order = {}
    work = []

    def see(n):
        if n not in order:
            order[n] = len(order) + 1
            work.append(n)

    def visit(v):
        k = v[0]
        if k == "p":
            see(v[1])
            if isinstance(v[2], tuple):
                for t in v[2][2]:
                    visit(t[0])
        elif k == "s":
            see(v[1])
        elif k == "x" or k == "b":
            visit(v[2])
            visit(v[3])
        elif k == "not":
            visit(v[1])
        elif k == "t":
            for a in v[1:]:
                visit(a)

    env = {}
    for k in sorted(st.env):
        if k[0] < frame or k[1] in live:
            env[k] = st.env[k]
            visit(st.env[k])
    for s in keepsyms:
        see(s)
    byb = defaultdict(list)
    for k in st.heap:
        byb[k[0]].append(k)
    slb = defaultdict(list)
    for k, v in st.slot.items():
        slb[k[0]].append(k)

    dep = {}

    def closure():
        pend = []
        while work:
            n = work.pop()
            p = st.ps.get(n)
            if p is not None:
                if p.tok is not None:
                    see(p.tok)
                if p.org[0] == "slot":
                    b = st.ps.get(p.org[1])
                    if p.org[1] not in order and b is not None and b.org[0] in ("slot", "cut") and (
                            "dead" in b.flg or dep.get(n, 0) > (0 if coarse else 5)):
                        st.ps[n] = p = p._replace(org=("cut",))
                    else:
                        dep.setdefault(p.org[1], dep.get(n, 0) + 1)
                        see(p.org[1])
                    if p.org[0] == "cut" and p.root is not None and dep.get(n, 0) > 5:
                        r = p.root
                        for _ in range(20):
                            q = st.ps.get(r)
                            if q is None or q.root is None:
                                break
                            r = q.root
                        st.ps[n] = p = p._replace(root=r)
                if p.root is not None:
                    if p.root not in order:
                        dep.setdefault(p.root, dep.get(n, 0) + 1)
                    if dep.get(n, 0) > 12 and p.root not in order:
                        st.ps[n] = p = p._replace(root=None)
                    else:
                        see(p.root)
                for f in p.flg:
                    if isinstance(f, tuple):
                        visit(f[1])
                hk = byb.get(n, ())
                if "dead" in p.flg and p.null is False and p.own == 0:
                    hk = ()
                if coarse > 1 and "alloca" not in p.flg and p.org[0] != "param" and p.own == 0:
                    hk = [k for k in hk if st.slot.get(k) is not None]
                if len(hk) > 12 and not (p.ty or "").startswith("struct "):
                    hk = ()
                for k in hk:
                    pend.append(k)
            else:
                s = st.ss.get(n)
                if s is not None and isinstance(s.err, tuple):
                    see(s.err[1])
            if not work:
                # heap entries whose offset symbols are all known
                rest = []
                for k in sorted(pend, key=repr):
                    acc = set()
                    off_syms(k[1], acc)
                    if all(a in order for a in acc):
                        v = st.heap[k]
                        if coarse and v[0] not in ("p", "f"):
                            continue
                        kept.add(k)
                        visit(v)
                    else:
                        rest.append(k)
                pend[:] = rest
        return

    kept = set()
    closure()
    # unfinished business: owned symbols, unresolved errors
    # (one representative per kind and origin of otherwise unreachable symbols)
    orphans = set()
    for n in sorted(st.ps):
        p = st.ps[n]
        if n not in order and ((p.own > 0 and p.null is not True) or n in st.errs):
            o = (p.ty, p.org if p.org[0] != "slot" else "slot", p.own, p.null, st.errs.get(n))
            if o in orphans:
                continue
            orphans.add(o)
            see(n)
            closure()
    for n in sorted(st.errs):
        if n not in order and n not in st.ps:
            if st.errs[n] in orphans:
                continue
            orphans.add(st.errs[n])
            see(n)
            closure()
    for k in sorted(st.slot, key=repr):
        if k[0] not in order and st.slot[k] in ("moved", "init") and k[0] in st.ps:
            see(k[0])
            closure()
    # dependencies only to interesting symbols
    errs = st.errs
    odeps = {}
    for n in list(order):
        q = st.ps.get(n) or st.ss.get(n)
        if q is None:
            continue
        nd = []
        for d in q.deps:
            if d not in order:
                pd = st.ps.get(d)
                if pd is not None and pd.own == 0 and "dead" in pd.flg and pd.org[0] == "ret" and not pd.deps:
                    o = (pd.ty, pd.org, pd.null, errs.get(d))
                    d = odeps.setdefault(o, d)
            if d not in nd:
                nd.append(d)
        if len(nd) < len(q.deps):
            q = q._replace(deps=tuple(nd))
            if n in st.ps:
                st.ps[n] = q
            else:
                st.ss[n] = q
        for d in q.deps:
            if d in order:
                continue
            pd = st.ps.get(d)
            if d in errs or (pd is not None and pd.org[0] == "param" and pd.null is None):
                see(d)
    closure()
    return order, env, kept


def rename(v, m):
    k = v[0]
    if k == "p":
        if isinstance(v[2], tuple):
            return ("p", m[v[1]], (v[2][0], v[2][1], tuple((rename(t[0], m), t[1]) for t in v[2][2])))
        return ("p", m[v[1]], v[2])
    if k == "s":
        return ("s", m[v[1]])
    if k in ("x", "b"):
        return (k, v[1], rename(v[2], m), rename(v[3], m))
    if k == "not":
        return ("not", rename(v[1], m))
    if k == "t":
        return ("t",) + tuple(rename(a, m) for a in v[1:])
    return v


def roff(o, m):
    if isinstance(o, tuple):
        return (o[0], o[1], tuple((rename(t[0], m), t[1]) for t in o[2]))
    return o


def canonicalise(st, finfo, frame, block, keepsyms, coarse=False):
    m, env, kept = _canon(st, finfo, frame, block, keepsyms, coarse)
    n = St()
    n.env = {k: rename(v, m) for k, v in env.items()}
    n.n = len(m)
    n.flags = st.flags
    for s, i in m.items():
        p = st.ps.get(s)
        if p is not None:
            org = p.org
            if org[0] == "slot":
                if org[1] in m:
                    try:
                        org = ("slot", m[org[1]], roff(org[2], m))
                    except KeyError:
                        org = ("slot", m[org[1]], ("?", 0, ()))
                else:
                    org = ("unk",)
            flg = p.flg
            if any(isinstance(f, tuple) for f in flg):
                flg = frozenset((f[0], rename(f[1], m)) if isinstance(f, tuple) else f for f in flg)
            n.ps[i] = PS(p.null, p.own, p.excl, p.ty, org, m.get(p.root) if p.root else None,
                         tuple(sorted(m[d] for d in p.deps if d in m)),
                         m.get(p.tok) if p.tok else None, flg)
        else:
            q = st.ss.get(s)
            if q is None:
                continue
            if coarse and not q.err:
                q = NS
            err = q.err
            if isinstance(err, tuple):
                err = ("ref", m[err[1]]) if err[1] in m else 0
            n.ss[i] = SS(q.lo, q.hi, q.ne, tuple(sorted(m[d] for d in q.deps if d in m)), err)
    for k in kept:
        n.heap[(m[k[0]], roff(k[1], m))] = rename(st.heap[k], m)
    for k, v in st.slot.items():
        if k[0] in m:
            try:
                n.slot[(m[k[0]], roff(k[1], m))] = v
            except KeyError:
                pass
    if not coarse:
        for b, t in st.preds.items():
            acc = set()
            syms_of(b, acc)
            if all(a in m for a in acc):
                n.preds[rename(b, m)] = t
    for s, d in st.errs.items():
        if s in m:
            n.errs[m[s]] = d
    key = (frozenset(n.env.items()), frozenset(n.ps.items()), frozenset(n.ss.items()),
           frozenset(n.heap.items()), frozenset(n.slot.items()), frozenset(n.preds.items()),
           frozenset(n.errs.items()), n.flags)
    return n, key


class Exec2(Exec):
    def get_finfo(self, key):
        mod, f = self.w.fn[key]
        fi = getattr(f, "_finfo", None)
        if fi is None:
            fi = FuncInfo(mod, f)
            f._finfo = fi
        return fi

    def run(self, st, args):
        """execute the current function from st; -> [(state, return value)]"""
        f, fi, frame = self.f, self.finfo, self.frame
        for (nm, ty, at), a in zip(f.params, args):
            st.env[(frame, nm)] = a
        pending = {f.order[0].name: [st]}
        seen = defaultdict(set)
        outs = []
        top = frame == 0
        while pending:
            b = min(pending, key=lambda n: fi.rpo[n])
            states = pending.pop(b)
            blk = f.blocks[b]
            multi = len(blk.preds) > 1 or b in fi.headers
            if not multi:
                todo = states
            else:
                todo = []
                for s in states:
                    ks = [sy for sy in self.paramsyms if sy in s.ps] if True else []
                    nb = len(seen[b])
                    coarse = (nb > 120 or self.steps > 15000 and nb > 10) + (nb > 200 or self.steps > 30000 and nb > 20)
                    if nb > 60:
                        for k, v in s.heap.items():
                            if v[0] == "p" and v[2] != 0 and isinstance(v[2], int) and not (
                                    s.ps[v[1]].ty or "").startswith("struct "):
                                s.heap[k] = ("p", v[1], ("?", 0, ()))
                    self.steps += 20 + len(s.ps) + len(s.heap)
                    s2, key = canonicalise(s, fi, frame, b, (), coarse)
                    if key in seen[b]:
                        continue
                    seen[b].add(key)
                    if len(seen[b]) > self.MAXSTATES:
                        raise GiveUp("too many states")
                    todo.append(s2)
            for s in todo:
                for s2, nb in self.block(s, blk, outs):
                    r = self.edge(s2, blk, nb)
                    if r is not None:
                        pending.setdefault(nb, []).append(r)
        return outs

    def edge(self, st, blk, nb):
        f, fi, frame = self.f, self.finfo, self.frame
        tgt = f.blocks[nb]
        if not tgt.phis:
            return st
        new = {}
        for ph in tgt.phis:
            for v, pb in ph.a:
                if pb == blk.name:
                    x = self.val(st, v)
                    if nb in fi.headers and ph.res in fi.arith[nb]:
                        x = self.widen(st, ph, nb, x, blk.name in fi.back[nb])
                    new[(frame, ph.res)] = x
                    break
        st.env.update(new)
        return st

    def widen(self, st, ph, nb, x, isback):
        if x[0] in ("c", "s", "x", "b") and not (ph.ty.k == "ptr"):
            lo = None
            if self.finfo.nondecr(ph, nb):
                if isback:
                    o = st.env.get((self.frame, ph.res))
                    lo = self.rng(st, o)[0] if o is not None else None
                else:
                    lo = self.rng(st, x)[0]
            if isback and x[0] == "s" and st.ss[x[1]].err:
                return x
            if x[0] == "c" and not self.finfo.nondecr(ph, nb):
                return x if abs(x[1]) <= 1 else st.news()
            return st.news(lo=lo)
        if x[0] == "p":
            if isback or True:
                return ("p", x[1], x[2] if x[2] == 0 and not isback else ("?", 0, ()))
        return x

    def block(self, st, blk, outs):
        """-> [(state, successor)]"""
        res = []
        stack = [(st, 0)]
        ins = blk.ins
        n = len(ins)
        while stack:
            s, i = stack.pop()
            dead = False
            while i < n:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise GiveUp("too many steps")
                if DEADLINE and self.steps % 64 == 0 and time.time() > DEADLINE[0]:
                    raise GiveUp("time")
                self.curi = (self.curkey, blk.name, i)
                try:
                    r = self.step(s, ins[i])
                except Infeasible:
                    dead = True
                    break
                i += 1
                if r is None:
                    continue
                if not r:
                    dead = True
                    break
                for x in r[1:]:
                    stack.append((x, i))
                s = r[0]
            if dead:
                continue
            t = blk.term
            if t.op == "br":
                res.append((s, t.a[0]))
            elif t.op == "condbr":
                c = self.val(s, t.a[0])
                if c[0] == "c":
                    res.append((s, t.a[1] if c[1] else t.a[2]))
                else:
                    s2 = s.copy()
                    for x in self.assume(s, c, True):
                        res.append((x, t.a[1]))
                    for x in self.assume(s2, c, False):
                        res.append((x, t.a[2]))
            elif t.op == "switch":
                c = self.val(s, t.a[0])
                if c[0] == "c":
                    for k, l in t.a[2]:
                        if k == c[1]:
                            res.append((s, l))
                            break
                    else:
                        res.append((s, t.a[1]))
                else:
                    d = s
                    okd = True
                    for k, l in t.a[2]:
                        x = d.copy()
                        b = ("b", "eq", c, ("c", k))
                        for y in self.assume(x, b, True):
                            res.append((y, l))
                        if not self.assume(d, b, False):
                            okd = False
                            break
                    if okd:
                        res.append((d, t.a[1]))
            elif t.op == "ret":
                v = self.val(s, t.a[0]) if t.a[0] is not None else None
                self.leave(s, v)
                outs.append((s, v))
            elif t.op == "unreachable":
                pass
        return res

    def step(self, st, i):
        op = i.op
        env = st.env
        fr = self.frame
        if op == "load":
            env[(fr, i.res)] = self.load(st, self.val(st, i.a[0]), i.ty, i.line)
        elif op == "store":
            v = self.val(st, i.a[0])
            if v[0] == "t":
                ty = i.a[0][1] if i.a[0][0] == "zero" else None
                p = self.val(st, i.a[1])
                if ty is None:
                    off = 0
                    for x in v[1:]:
                        self.store(st, self.padd(p, off), x, Ty("ptr") if x[0] == "p" else Ty("int", 64), i.line)
                        off += 8
                else:
                    self.store(st, p, v, ty, i.line)
            else:
                pt = Ty("ptr") if v[0] in ("p", "f", "g") else Ty("int", 32)
                if v == ZEROV and i.a[0][0] in ("null", "v"):
                    pt = Ty("ptr")
                self.store(st, self.val(st, i.a[1]), v, pt, i.line)
        elif op == "gep":
            env[(fr, i.res)] = self.gep(st, i)
        elif op == "call":
            return self.call(st, i)
        elif op == "icmp":
            pred, ty, a, b = i.a
            env[(fr, i.res)] = self.icmp(st, pred, self.val(st, a), self.val(st, b))
        elif op == "bin":
            o, a, b, fl = i.a
            a, b = self.val(st, a), self.val(st, b)
            if o == "xor" and i.ty.k == "int" and i.ty.a == 1 and a[0] in ("s", "x") and b[0] == "c" and b[1]:
                env[(fr, i.res)] = self.icmp(st, "eq", a, ZEROV)
            else:
                env[(fr, i.res)] = self.expr(st, o, a, b)
        elif op == "cast":
            o, sty, v = i.a
            x = self.val(st, v)
            if o in ("ptrtoint", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                x = st.news()
            elif o == "inttoptr":
                x = st.newp()
            elif o == "trunc" and x[0] not in ("c", "b", "not"):
                if i.ty.a == 1:
                    x = self.icmp(st, "ne", x, ZEROV) if x[0] in ("s", "x") else x
            elif o == "trunc" and x[0] == "c":
                m = 1 << i.ty.a
                y = x[1] % m
                x = ("c", y - m if i.ty.a > 1 and y >= m // 2 else y)
            elif o == "sext" and x[0] in ("b", "not"):
                x = st.news(lo=-1, hi=0)
            env[(fr, i.res)] = x
        elif op == "alloca":
            v = st.newp(null=False, excl=EXCL, org=("alloca",), flg=frozenset(["alloca", fr]),
                        ty=self.ctype_of(i.a[0]))
            env[(fr, i.res)] = v
        elif op == "select":
            c = self.val(st, i.a[0])
            if c[0] == "c":
                env[(fr, i.res)] = self.val(st, i.a[1] if c[1] else i.a[2])
            else:
                s2 = st.copy()
                out = []
                for x in self.assume(st, c, True):
                    x.env[(fr, i.res)] = self.val(x, i.a[1])
                    out.append(x)
                for x in self.assume(s2, c, False):
                    x.env[(fr, i.res)] = self.val(x, i.a[2])
                    out.append(x)
                return out
        elif op == "extractvalue":
            v = self.val(st, i.a[0])
            env[(fr, i.res)] = v[1 + i.a[1][0]] if v[0] == "t" else self.fresh_of(st, Ty("int", 64))
        elif op == "insertvalue":
            v = self.val(st, i.a[0])
            e = self.val(st, i.a[2])
            if v[0] != "t":
                v = ("t",) + tuple(ZEROV for _ in self.mod.layout.elts(i.ty))
            l = list(v)
            l[1 + i.a[3][0]] = e
            env[(fr, i.res)] = tuple(l)
        elif op == "float":
            env[(fr, i.res)] = st.news()
        elif op == "freeze":
            env[(fr, i.res)] = self.val(st, i.a[0])
        else:
            raise GiveUp("op " + op)
        return None

    def ctype_of(self, t):
        if t.k == "struct":
            n = t.a
            if n.startswith("struct."):
                return "struct " + re.sub(r"\.\d+$", "", n[7:])
        if t.k == "arr":
            return self.ctype_of(t.b)
        return None

    def gep(self, st, i):
        ety, base, idx = i.a
        b = self.val(st, base)
        if b[0] == "g":
            return b
        if b == ZEROV:
            k = 0
            for it, iv in idx:
                pass
            return ZEROV if all(iv[0] == "c" and iv[1] == 0 for _, iv in idx) else ("c", 8)
        if b[0] != "p":
            return st.newp()
        sym, off = b[1], b[2]
        t = ety
        lay = self.mod.layout
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                sz = lay.size(t)
            elif t.k == "arr":
                t = t.b
                sz = lay.size(t)
            else:
                c = iv[1]
                if k == 1 and off == 0 or (k == 1 and st.ps[sym].ty is None):
                    n = self.ctype_of(t)
                    if n and st.ps[sym].ty is None and isinstance(off, int) and off == 0:
                        st.up(sym, ty=n)
                off = addoff(off, lay.offset(t, c))
                t = lay.elts(t)[c]
                continue
            v = self.val(st, iv)
            if v[0] == "c":
                off = addoff(off, v[1] * sz)
            elif v[0] in ("s", "x"):
                # split constant part
                if v[0] == "x" and v[1] == "+" and v[3][0] == "c":
                    off = addoff(off, v[3][1] * sz)
                    v = v[2]
                off = addoff(off, 0, (v, sz))
            else:
                off = ("?", 0, ())
        return ("p", sym, off)

    # ------------------------------------------------------------ exit
    def leave(self, st, v):
        """checks when a frame returns"""
        fr = self.frame
        for (b, off), s in list(st.slot.items()):
            if b in st.ps and "alloca" in st.ps[b].flg and fr in st.ps[b].flg:
                if s == "init":
                    self.alarm("P1", "mpz-leak", "local", 0)
                del st.slot[(b, off)]
        if fr == 0:
            self.exit(st, v)

    def exit(self, st, v):
        self.nexits += 1
        self.curi = (self.key, "exit")
        self.obl.add(("P1", self.curi))
        ann = self.fnann
        ps, ret, rty, kind, cr = ann
        w = self.w
        # classification of the result for the error contracts
        errtype = "ptr" if (cr or "").endswith("*") else (kind if kind else None)
        err = None
        rdeps = set()
        if errtype:
            if errtype == "ptr":
                if v == ZEROV:
                    err = True
                elif v[0] == "p":
                    err = self.is_err(st, v)
                elif v[0] in ("f", "g"):
                    err = False
            else:
                if v[0] == "c":
                    err = v[1] < 0
                else:
                    err = self.is_err(st, v)
            if err is None:
                rdeps = self.errdeps(st, v)
        isnull = ret == "null"
        rroot = None
        # P4: errors of callees reach the result
        if errtype and not isnull:
            self.obl.add(("P4", self.curi))
            for s, d in list(st.errs.items()):
                self.obl.add(("P4", self.curi, d))
                if err is True or s in rdeps:
                    continue
                if s in st.ps and st.ps[s].null is True:
                    continue
                self.alarm("P4", "unchecked", d, 0)
            if err is not True:
                for fl in st.flags:
                    if fl[0] == "E":
                        if err is None:
                            # result may or may not be an error
                            self.alarm("P4", "swallowed", fl[1], 0)
                        else:
                            self.alarm("P4", "swallowed", fl[1], 0)
        # strictness in the parameters
        if errtype and not isnull:
            for i, a in enumerate(self.params):
                if i not in self.cand:
                    continue
                known = None
                if a[0] == "p":
                    known = True if ("N", i) in st.flags else None
                    if known is None:
                        sym = self.psym(st, i)
                        if sym is None:
                            continue
                        q = st.ps[sym]
                        if q.null is False:
                            continue
                        known = True if q.null is True else None
                else:
                    sym = self.psym(st, i)
                    if sym is None:
                        continue
                    q = st.ss.get(sym)
                    if q is None or (q.lo is not None and q.lo >= 0):
                        continue
                    known = True if q.hi is not None and q.hi < 0 else None
                if self.exported:
                    self.obl.add(("P2", self.curi, i))
                if err is True:
                    continue
                if err is None and known is None and sym in rdeps:
                    continue
                self.cand.discard(i)
                if self.exported and a[0] == "p" and ps[i][0] in ("take", "keep") and ps[i][1] in w.obj:
                    self.alarm("P2", "null-not-error", "param%d" % i, 0)
        elif not isnull:
            self.cand.clear()
        # totality
        if errtype and not isnull and self.new.total:
            anyn = any(f[0] in ("N", "NX") for f in st.flags)
            for i, a in enumerate(self.params):
                if i in self.cand0:
                    sym = self.psym(st, i)
                    if sym is None:
                        continue
                    if a[0] == "p" and st.ps[sym].null is True:
                        anyn = True
                    if a[0] == "s" and st.ss[sym].hi is not None and st.ss[sym].hi < 0:
                        anyn = True
            if err is True and not anyn:
                self.new.total = False
            elif err is None:
                if v[0] == "p":
                    sy = v[1]
                    if sy in st.errs or any(d in st.errs for d in st.ps[sy].deps):
                        self.new.total = False
                    elif st.ps[sy].org[0] not in ("param", "slot", "taken") and "tot" not in st.ps[sy].flg:
                        self.new.total = False
                elif v[0] == "s":
                    sy = v[1]
                    if sy in st.errs or any(d in st.errs for d in st.ss[sy].deps):
                        self.new.total = False
                    elif st.ss[sy].err != 2:
                        self.new.total = False
                else:
                    lo, hi = self.rng(st, v)
                    if lo is None or lo < 0:
                        self.new.total = False
        elif not errtype:
            self.new.total = False
        # exclusivity / provenance of the result
        if errtype == "ptr" and v[0] == "p" and st.ps[v[1]].null is not True:
            q = st.ps[v[1]]
            if q.excl is None:
                self.new.ret_excl = None
            elif self.new.ret_excl is not None:
                self.new.ret_excl = self.new.ret_excl | q.excl
            r = self.rootof(st, v[1])
            if st.ps[r].org[0] == "param" and len(st.ps[r].org) == 2:
                self.new.ret_root = self.new.ret_root | {st.ps[r].org[1]}
        # ownership
        if v is not None and v[0] == "p" and (cr or "").endswith("*"):
            q = st.ps[v[1]]
            if ret == "give" or (ret is None and (q.own > 0)):
                if ret == "give" and isnull is False:
                    self.consume(st, v[1], 0, "return")
                elif q.own > 0:
                    self.consume(st, v[1], 0, "return")
            elif ret == "null" and q.null is not True:
                self.alarm("P1", "null-return", "", 0)
            if ret != "give" and "dead" in st.ps[v[1]].flg and q.own == 0 and ret != None:
                self.alarm("P1", "returns-released", self.who(st, v[1]), 0)
        for n, p in st.ps.items():
            if p.own > 0 and p.null is not True and "alloca" not in p.flg:
                self.alarm("P1", "leak", self.who(st, n), 0)
            if p.org[0] == "param" and len(p.org) == 2:
                i = p.org[1]
                if ps[i][0] == "keep" and p.own < 0:
                    self.alarm("P1", "release-unowned", "param%d" % i, 0)
                if "soft" in p.flg and "dead" in p.flg:
                    self.new.stores = self.new.stores | {i}
                if ps[i][0] in ("keep", None) and p.excl is None and p.ty in w.rc:
                    self.new.shares = self.new.shares | {i}
        for (b, off), s in st.slot.items():
            if s != "moved" or b not in st.ps or not isinstance(off, int):
                continue
            p = st.ps[b]
            if "alloca" in p.flg or "dead" in p.flg or p.null is True:
                continue
            if p.ty in w.rc and p.org[0] == "param" and ps[p.org[1]][0] == "take" and v is not None and v[0] == "p" and v[1] == b:
                pass
            fo = self.field_of(st, b, off)
            if fo and strip_ptr(fo[2]) in w.rc:
                self.alarm("P1", "dangling-slot", "%s.%s" % (fo[0], fo[1]), 0)

    def psym(self, st, i):
        s = self.psyms.get(i)
        for n, p in st.ps.items():
            if p.org == ("param", i):
                return n
        v = st.env.get((-1, "#%d" % i))
        if v is not None and v[0] in ("p", "s"):
            return v[1]
        return None

    def analyse(self):
        self.curkey = self.key
        self.stack = [self.key]
        self.nnset = set()
        d = self.w.decl(self.key)
        if d is None:
            raise GiveUp("no prototype")
        self.fnann = self.w.mkann(d["p"], d["a"], d["cr"], d["r"])
        self.params_ann = self.fnann[0]
        if len(self.f.params) != len(self.params_ann):
            raise GiveUp("prototype mismatch (struct passed by value)")
        st = St()
        args = []
        self.cand = set()
        self.psyms = {}
        for i, ((nm, ty, at), (an, pt, prec)) in enumerate(zip(self.f.params, self.params_ann)):
            if ty.k == "ptr":
                if "cb" in prec:
                    v = ("f", "*param")
                    args.append(v)
                    continue
                flg = set()
                own = 0
                if an == "take":
                    own = 1
                elif an == "keep":
                    flg.add("borrow")
                else:
                    flg.add("soft")
                if "byval" in at or "sret" in at:
                    v = st.newp(null=False, excl=EXCL, ty=pt, org=("param", i), flg=frozenset(["soft"]))
                else:
                    v = st.newp(own=own, excl=frozenset([i]), ty=pt if pt != "void" else None,
                                org=("param", i), flg=frozenset(flg))
                if pt in self.w.obj:
                    self.cand.add(i)
                self.psyms[i] = v[1]
            elif ty.k == "int":
                t = prec.get("t", "")
                if t in ("isl_bool", "isl_stat", "isl_size"):
                    v = st.news(lo=-1, err=1)
                    self.cand.add(i)
                    self.psyms[i] = v[1]
                else:
                    v = st.news(lo=0 if "unsigned" in prec.get("ct", "") else None)
            else:
                v = self.fresh_of(st, ty)
            args.append(v)
            st.env[(-1, "#%d" % i)] = v
        self.cand0 = set(self.cand)
        self.params = args
        self.paramsyms = []
        self.finfo = self.get_finfo(self.key)
        if not hasattr(self.finfo, "_defs"):
            defs = {}
            for b in self.f.order:
                for i in b.phis + b.ins:
                    if i.res:
                        defs[i.res] = i
            self.finfo._defs = defs
        self.run(st, args)
        self.new.strict = frozenset(self.cand) - self.new.nn_req
        if not self.nexits:
            self.new.total = False
        return self.new, self.alarms
