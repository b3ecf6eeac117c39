"""C05: frame condition "no function assigns to static storage".

Every function gets the contract `assigns` = memory reachable from its
arguments and from fresh memory; static storage is not in any frame.  The
obligation of each store / call is that the address does not point into a
mutable global.  Values derived from a global address are tracked through
geps, casts, phis, selects, returns and parameters (contracts `writes`,
`escapes`, `returns` per parameter, least fixpoint over the call graph).  An
address that escapes into memory protects the structure type of the global:
no function may store to a field of such a structure unless it shows the
structure to be a local one (strict aliasing assumption).
"""
import re

# external functions: parameters they write through / keep
EXT_READ = """free fprintf strcmp strlen strdup snprintf mp_get_memory_functions strncmp strtol strchr printf
malloc ffs strtoul strrchr strcasecmp fgetc fflush exit atoi abort calloc __errno_location __ctype_b_loc fputs fputc
fwrite putchar puts getc ungetc memcmp isspace toupper tolower assert __assert_fail feof fread putc strncasecmp
strstr strspn strcspn atol __ctype_tolower_loc __ctype_toupper_loc vfprintf sprintf vsnprintf""".split()
EXT_WRITE = {"snprintf": {0}, "sprintf": {0}, "vsnprintf": {0}, "strcpy": {0}, "strncpy": {0}, "strcat": {0},
             "qsort": {0}, "memcpy": {0}, "memmove": {0}, "memset": {0}, "realloc": {0}, "free": {0},
             "mp_get_memory_functions": {0, 1, 2}, "fread": {0}, "strtol": {1}, "strtoul": {1}}
STATEFUL = set("""strtok rand srand random srandom drand48 lrand48 srand48 setlocale setenv putenv unsetenv localtime
gmtime asctime ctime strerror getenv_s tmpnam ttyname hsearch hcreate signal atexit mp_set_memory_functions
chdir umask alarm setitimer getopt on_exit mktemp lgamma strsignal readdir gethostbyname srand48 seed48
dlopen pthread_create fork setbuf setvbuf freopen""".split())


# objects of static storage duration with a negative reference count (never written: "ref < 0" guard)
REFSTATIC = {"struct.isl_id"}


def grefs(text):
    """globals mentioned in an initialiser"""
    return [m.strip('"') for m in re.findall(r'@("[^"]*"|[-\w.$]+)', text)]


class P5:
    def __init__(self, w):
        self.w = w
        self.glob = {}          # id -> (src, name)
        self.kind = {}          # (src,name) -> id or None
        for src, m in w.mods.items():
            for n, g in m.globals.items():
                if g["external"]:
                    continue
                gid = (src, n) if g["internal"] else n
                if not g["const"]:
                    self.glob[gid] = (src, n)
        self.defs = {}
        for src, m in w.mods.items():
            for n, g in m.globals.items():
                if not g["external"] and not g["internal"]:
                    self.defs[n] = src
        self.constglob = {}
        for src, m in w.mods.items():
            for n, g in m.globals.items():
                if not g["external"] and g["const"]:
                    self.constglob[(src, n) if g["internal"] else n] = (src, n)
        self.external_mutable = set()
        self.types = {}
        for gid, (src, n) in self.glob.items():
            t = w.mods[src].globals[n]["text"]
            self.types[gid] = self.tyname(t)
        self.contains = {}
        for gid, (src, n) in list(self.glob.items()) + list(self.constglob.items()):
            t = w.mods[src].globals[n]["text"]
            self.contains[gid] = set(x for x in (self.gid(src, r) for r in grefs(t)) if x is not None)
        self.wr = {}            # fn key -> set of params written
        self.esc = {}           # fn key -> set of params escaping
        self.rets = {}          # fn key -> set of ("p",i) / ("g",gid,cond)
        self.protected = {}     # struct name -> global
        self.viol = {}
        self.obl = 0
        self.fail = []
        self.escaped = set()
        self.loaded = set()

    @staticmethod
    def tyname(t):
        if t.startswith("<"):
            t = t[1:]
        try:
            from ir import P, tokenize
            ty = P(tokenize(t)).type()
        except Exception:
            return t.split()[0]
        names = []

        def walk(x):
            if x.k == "struct":
                names.append(x.a)
            elif x.k == "arr":
                walk(x.b)
            elif x.k == "lit":
                for y in x.a:
                    walk(y)
        walk(ty)
        names = [n for n in names if not re.match(r"(struct|union)\.anon", n)]
        return "%" + ",".join(sorted(set(names))) if names else repr(ty)

    def gid(self, src, n):
        m = self.w.mods[src]
        g = m.globals.get(n)
        if g is None:
            return None
        if g["internal"]:
            return (src, n)
        if g["external"]:
            return n if n in self.glob or n in self.constglob else None
        return n

    # ------------------------------------------------ per function
    @staticmethod
    def succs(t):
        if t.op == "br":
            return [t.a[0]]
        if t.op == "condbr":
            return [t.a[1], t.a[2]]
        if t.op == "switch":
            return [t.a[1]] + [l for _, l in t.a[2]]
        return []

    def dominators(self, f):
        if hasattr(f, "_dom"):
            return f._dom
        succ = {b.name: self.succs(b.term) for b in f.order}
        entry = f.order[0].name
        reach, st = {entry}, [entry]
        while st:
            for n in succ[st.pop()]:
                if n not in reach:
                    reach.add(n)
                    st.append(n)
        f._reach = reach
        f._rpreds = {n: [p for p in f.blocks[n].preds if p in reach] for n in reach}
        names = [b.name for b in f.order if b.name in reach]
        dom = {n: set(names) for n in names}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in f.order[1:]:
                if b.name not in reach:
                    continue
                ps = [dom[p] for p in f._rpreds[b.name]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b.name}
                if nd != dom[b.name]:
                    dom[b.name] = nd
                    ch = True
        f._dom = dom
        return dom

    def edge_facts(self, f):
        """block -> list of (icmp instruction, truth) known to hold in it"""
        if hasattr(f, "_ef"):
            return f._ef
        dom = self.dominators(f)
        defs = {}
        for b in f.order:
            for i in b.phis + b.ins:
                if i.res:
                    defs[i.res] = i
        out = {b.name: [] for b in f.order}
        for b in f.order:
            t = b.term
            if t.op != "condbr" or t.a[1] == t.a[2] or b.name not in f._reach:
                continue
            c = t.a[0]
            if c[0] != "v":
                continue
            for truth, tgt in ((True, t.a[1]), (False, t.a[2])):
                if len(f._rpreds[tgt]) != 1:
                    continue
                for n, ds in dom.items():
                    if tgt in ds:
                        out[n].append((defs.get(c[1]), truth))
        f._ef = (out, defs)
        return f._ef

    def analyse(self, key):
        w = self.w
        mod, f = w.fn[key]
        f.parse()
        src = mod.src
        facts, defs = self.edge_facts(f)
        pt = {}                 # value -> frozenset of roots
        pidx = {n: i for i, (n, ty, at) in enumerate(f.params) if n is not None}
        for n, i in pidx.items():
            pt[n] = frozenset([("p", i)])
        if f.variadic is None:
            pass

        def val(op):
            k = op[0]
            if k == "v":
                return pt.get(op[1], frozenset())
            if k == "g":
                g = self.gid(src, op[1])
                if g is not None:
                    return frozenset([("g", g)])
                return frozenset()
            if k == "cgep":
                return val(op[2])
            if k == "ccast":
                return val(op[3])
            return frozenset()

        def loadthrough(roots):
            out = set()
            for r in roots:
                if r[0] == "g":
                    for c in self.contains.get(r[1], ()):
                        out.add(("g", c))
                elif r[0] == "a":
                    out |= amem.get(r[1], set())
            return out

        amem = {}
        changed = True
        it = 0
        while changed and it < 30:
            it += 1
            changed = False
            for b in f.order:
                for i in b.phis + b.ins:
                    new = None
                    if i.op == "gep":
                        new = val(i.a[1])
                    elif i.op == "cast":
                        new = val(i.a[1]) if len(i.a) == 2 else val(i.a[2])
                    elif i.op == "freeze":
                        new = val(i.a[0])
                    elif i.op == "phi":
                        new = frozenset().union(*[val(v) for v, _ in i.a]) if i.a else frozenset()
                    elif i.op == "select":
                        new = val(i.a[1]) | val(i.a[2])
                    elif i.op == "alloca":
                        new = frozenset([("a", i.res)])
                    elif i.op == "load" and i.ty.k != "ptr":
                        for r in val(i.a[0]):
                            if r[0] == "g":
                                self.loaded.add(r[1])
                    elif i.op == "load" and i.ty.k in ("ptr",):
                        new = frozenset(loadthrough(val(i.a[0])))
                        r0 = self.refine_null(f, b, facts, defs, pidx, i, src)
                        if r0:
                            new = frozenset(("gc", r[1], r0) if r[0] == "g" else r for r in new)
                    elif i.op == "store":
                        rs = frozenset(r for r in val(i.a[0]) if not self.typed(r))
                        if rs:
                            for r in val(i.a[1]):
                                if r[0] == "a":
                                    s = amem.setdefault(r[1], set())
                                    if not rs <= s:
                                        s |= rs
                                        changed = True
                    elif i.op == "call":
                        new = self.call_ret(key, src, i, val)
                        cal, args = i.a
                        if cal[0] == "g" and cal[1].startswith("llvm.memcpy"):
                            tmp = set(r for r in loadthrough(val(args[1][1])) if not self.typed(r))
                            for r in val(args[0][1]):
                                if r[0] == "a" and tmp:
                                    s = amem.setdefault(r[1], set())
                                    if not tmp <= s:
                                        s |= tmp
                                        changed = True
                    if new and i.res and not new <= pt.get(i.res, frozenset()):
                        pt[i.res] = pt.get(i.res, frozenset()) | new
                        changed = True
        # drop facts "v != none"
        wr, esc, rets = set(), set(), set()

        def known_ne(b, op, gid):
            """in block b, op is known to differ from the address held in / of gid"""
            for c, truth in facts[b.name]:
                if c is None or c.op != "icmp":
                    continue
                pred, ty, x, y = c.a
                if not ((pred == "ne" and truth) or (pred == "eq" and not truth)):
                    continue
                for p, q in ((x, y), (y, x)):
                    if self.same(f, defs, p, op) and gid in [r[1] for r in val(q) if r[0] == "g"]:
                        return True
            return False

        def live(b, op):
            res = set()
            for r in val(op):
                if r[0] == "gc":
                    continue_ = False
                    # conditional: only if parameter r[2] is zero here
                    res.add(r)
                elif r[0] == "g":
                    if r[1] in self.constglob:
                        continue
                    if not known_ne(b, self.base(defs, op), r[1]):
                        res.add(r)
                else:
                    res.add(r)
            return res

        def bad(kind, g, line, what=""):
            self.viol.setdefault((key, kind, self.gname(g), what), line)

        self.nobl = 0
        for b in f.order:
            if b.name not in f._reach:
                continue
            for i in b.ins:
                if i.op == "store":
                    self.nobl += 1
                    if self.guarded(f, b, facts, defs, self.base(defs, i.a[1])):
                        continue
                    for r in live(b, i.a[1]):
                        if r[0] == "g":
                            bad("assigns-global", r[1], i.line)
                        elif r[0] == "gc":
                            if not self.param_nonzero(f, b, facts, defs, pidx, r[2]):
                                bad("assigns-global", r[1], i.line)
                        elif r[0] == "p":
                            wr.add(r[1])
                    for r in live(b, i.a[0]):
                        dst = [x for x in val(i.a[1])]
                        if all(x[0] == "a" for x in dst) and dst and not self.typed(r):
                            continue
                        if r[0] == "g":
                            self.escape(key, r[1], i.line)
                        elif r[0] == "p":
                            esc.add(r[1])
                    # stores into protected structure types
                    self.typed_store(key, f, b, defs, i, val, facts)
                elif i.op == "call":
                    self.call_eff(key, src, f, b, i, live, wr, esc, bad, facts, defs, pidx, val)
            t = b.term
            if t.op == "ret" and t.a[0] is not None and f.ret.k == "ptr":
                for r in live(b, t.a[0]):
                    if r[0] in ("p", "g", "gc"):
                        rets.add(r)
            elif t.op == "ret" and t.a[0] is not None:
                for r in live(b, t.a[0]):
                    if r[0] == "g":
                        self.escape(key, r[1], t.line)
        return wr, esc, rets, self.nobl

    def base(self, defs, op):
        while op[0] == "v" and op[1] in defs and defs[op[1]].op in ("gep", "cast"):
            d = defs[op[1]]
            op = d.a[1] if d.op == "gep" or len(d.a) == 2 else d.a[2]
        return op

    def same(self, f, defs, p, q):
        return p == q

    def refine_null(self, f, b, facts, defs, pidx, ins, src):
        """a load of the "none" entry on a path where an int parameter is zero -> that parameter + 1"""
        for c, truth in facts[b.name]:
            if c is None or c.op != "icmp":
                continue
            pred, ty, x, y = c.a
            if ty.k == "int" and y[0] == "c" and y[1] == 0 and x[0] == "v" and x[1] in pidx:
                if (pred == "ne" and not truth) or (pred == "eq" and truth):
                    return pidx[x[1]] + 1
        return None

    def param_nonzero(self, f, b, facts, defs, pidx, j):
        for c, truth in facts[b.name]:
            if c is None or c.op != "icmp":
                continue
            pred, ty, x, y = c.a
            if ty.k == "int" and y[0] == "c" and y[1] == 0 and x[0] == "v" and pidx.get(x[1]) == j - 1:
                if (pred == "ne" and truth) or (pred == "eq" and not truth):
                    return True
        return False

    def call_ret(self, key, src, i, val):
        cal, args = i.a
        if i.ty.k != "ptr":
            return None
        if cal[0] == "g":
            k = self.w.key_of(src, cal[1])
            if k is None:
                if cal[1] in ("strchr", "strrchr", "strstr", "realloc", "strcpy"):
                    return val(args[0][1])
                return None
            out = set()
            for r in self.rets.get(k, ()):
                if r[0] == "p" and r[1] < len(args):
                    out |= val(args[r[1]][1])
                elif r[0] == "g":
                    out.add(r)
                elif r[0] == "gc":
                    a = args[r[2] - 1][1]
                    if a[0] == "c":
                        if a[1] == 0:
                            out.add(("g", r[1]))
                    else:
                        mod, f = self.w.fn[key]
                        j = None
                        for q, (n, ty, at) in enumerate(f.params):
                            if a == ("v", n):
                                j = q
                        if j is not None:
                            out.add(("gc", r[1], j + 1))
                        else:
                            out.add(("g", r[1]))
            return frozenset(out)
        return None

    def call_eff(self, key, src, f, b, i, live, wr, esc, bad, facts, defs, pidx, val):
        cal, args = i.a
        name = cal[1] if cal[0] == "g" else None
        k = self.w.key_of(src, name) if name else None
        base = name
        if name and name.startswith("llvm."):
            m = re.match(r"llvm\.(memcpy|memmove|memset)", name)
            if not m:
                return
            base = m.group(1)
        if name and k is None and base in STATEFUL:
            self.viol.setdefault((key, "stateful-call", base, ""), i.line)
        for j, (ty, a, at) in enumerate(args):
            if ty.k != "ptr":
                continue
            rs = live(b, a)
            if not rs:
                continue
            self.nobl += 1
            if self.guarded(f, b, facts, defs, self.base(defs, a)):
                continue
            w_, e_ = False, False
            if k is not None:
                w_, e_ = j in self.wr.get(k, ()), j in self.esc.get(k, ())
                nm = name
                if self.w.fn[k][1].variadic and j >= len(self.w.fn[k][1].params):
                    w_ = False
            elif name:
                w_ = j in EXT_WRITE.get(base, ()) or (
                    base not in EXT_READ and base not in EXT_WRITE and not base.startswith("mp"))
                if base.startswith("mp") and j == 0:
                    w_ = not re.match(r"mpz_(cmp|sgn|fits|size|get|out|inp|even|odd|divis|export|sizein|tstbit|popc)", base)
                e_ = False
                nm = base
            else:
                w_, e_ = False, True
                nm = "*indirect"
            for r in rs:
                if r[0] == "gc":
                    if w_ and not self.param_nonzero(f, b, facts, defs, pidx, r[2]):
                        bad("assigns-global", r[1], i.line, nm)
                elif r[0] == "g":
                    if w_:
                        bad("assigns-global", r[1], i.line, nm)
                    if e_:
                        self.escape(key, r[1], i.line)
                elif r[0] == "p":
                    if w_:
                        wr.add(r[1])
                    if e_:
                        esc.add(r[1])

    def typed(self, r):
        return r[0] in ("g", "gc") and r[1] in self.types and self.types[r[1]].startswith("%")

    def guarded(self, f, b, facts, defs, base):
        """the object has a non-negative reference count here (static objects have -1)"""
        for c, truth in facts[b.name]:
            if c is None or c.op != "icmp":
                continue
            pred, ty, x, y = c.a
            if not (y[0] == "c" and ((pred == "slt" and y[1] == 0 and not truth) or
                                     (pred == "sge" and y[1] == 0 and truth) or
                                     (pred == "sgt" and y[1] in (-1, 0) and truth) or
                                     (pred == "sle" and y[1] == -1 and not truth))):
                continue
            if x[0] == "v" and x[1] in defs and defs[x[1]].op == "load" and self.base(defs, defs[x[1]].a[0]) == base:
                g = defs[x[1]].a[0]
                d = defs.get(g[1]) if g[0] == "v" else None
                if d is None or (d.op == "gep" and d.a[0].k == "struct" and d.a[0].a in REFSTATIC and
                                 all(v[0] == "c" and v[1] == 0 for _, v in d.a[2])):
                    return True
        return False

    def gname(self, g):
        return g if isinstance(g, str) else "%s:%s" % g

    def escape(self, key, g, line):
        if g in self.constglob:
            for c in self.contains.get(g, ()):
                if c in self.glob:
                    self.escape(key, c, line)
            return
        if g in self.escaped:
            return
        t = self.types[g]
        if t.startswith("%"):
            for n in t[1:].split(","):
                if n not in self.protected:
                    self.protected[n] = (g, key, line)
                    self.dirty = True
        elif t == "i8" and g not in self.loaded:
            pass                # used for its address only
        else:
            self.viol.setdefault((key, "global-escapes", self.gname(g), ""), line)
        self.escaped.add(g)
        for c in self.contains.get(g, ()):
            if c in self.glob:
                self.escape(key, c, line)

    def typed_store(self, key, f, b, defs, i, val, facts):
        op = i.a[1]
        while op[0] == "v" and op[1] in defs and defs[op[1]].op in ("gep", "cast"):
            d = defs[op[1]]
            if d.op == "gep":
                ety = d.a[0]
                if ety.k == "struct" and ety.a in self.protected and len(d.a[2]) > 1 and not (
                        ety.a in REFSTATIC and d.a[2][1][1][1] != 0):
                    rs = val(d.a[1])
                    if rs and all(x[0] == "a" for x in rs):
                        return
                    b0 = self.base(defs, d.a[1])
                    if b0[0] == "v" and b0[1] in defs and defs[b0[1]].op == "call":
                        c = defs[b0[1]].a[0]
                        if c[0] == "g" and re.search(r"alloc", c[1]):
                            return
                    if self.guarded(f, b, facts, defs, b0):
                        return
                    self.tstores[(key, ety.a)] = i.line
                op = d.a[1]
            else:
                op = d.a[1] if len(d.a) == 2 else d.a[2]

    def run(self):
        keys = sorted(self.w.fn, key=str)
        callers = {}
        for k in keys:
            mod, f = self.w.fn[k]
            f.parse()
            for b in f.order:
                for i in b.ins:
                    if i.op == "call" and i.a[0][0] == "g":
                        c = self.w.key_of(mod.src, i.a[0][1])
                        if c is not None:
                            callers.setdefault(c, set()).add(k)
        nob = {}
        for outer in range(6):
            self.dirty = False
            self.tstores = {}
            self.escaped = set()
            todo = keys
            while todo:
                nxt = set()
                for k in todo:
                    try:
                        wr, esc, rets, n = self.analyse(k)
                    except Exception as e:
                        self.fail.append((k, repr(e)))
                        continue
                    nob[k] = n
                    if wr != self.wr.get(k, set()) or esc != self.esc.get(k, set()) or rets != self.rets.get(k, set()):
                        self.wr[k] = self.wr.get(k, set()) | wr
                        self.esc[k] = self.esc.get(k, set()) | esc
                        self.rets[k] = self.rets.get(k, set()) | rets
                        nxt |= callers.get(k, set())
                todo = sorted(nxt, key=str)
            if not self.dirty:
                break
        for (k, t), l in self.tstores.items():
            self.viol.setdefault((k, "assigns-protected", t, ""), l)
        self.obl = sum(nob.values())
        self.nob = nob
        return self
