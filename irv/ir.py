"""Parser for the textual LLVM IR that clang-18 emits for /repo's sources.

Only the subset that occurs is accepted; anything else raises IRError, which
the drivers turn into an "unsupported function" entry (never into a verdict).
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    # k: int(a=bits) ptr void double struct(a=name) arr(a=n,b=elt) lit(a=tuple)

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "struct":
            return "%" + self.a
        if self.k == "arr":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "lit":
            return "{%s}" % ",".join(map(repr, self.a))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
I1, I8, I16, I32, I64 = (Ty("int", n) for n in (1, 8, 16, 32, 64))
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

# ---------------------------------------------------------------- tokens
TOK = re.compile(
    r'\s*(?:(c"(?:[^"])*")|([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|("[^"]*")|'
    r"(-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)|([A-Za-z_][\w.]*)|(!\d+|!\w+|#\d+)|(\.\.\.|[\[\]{}()<>,=*:!|]))"
)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            if s[pos:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: %r" % s[pos:pos + 40])
        pos = m.end()
        out.append(m.group(m.lastindex))
    return out


PARAM_ATTRS = {
    "noundef", "nonnull", "nocapture", "readonly", "writeonly", "signext",
    "zeroext", "noalias", "returned", "immarg", "readnone", "inreg", "nofree",
    "allocptr", "writable",
}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next() if self.i < len(self.t) else None
        if x != v:
            raise IRError("expected %r got %r in %r" % (v, x, " ".join(self.t[:40])))

    def type(self):
        t = self.next()
        if t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "double":
            r = Ty("double")
        elif t == "float":
            r = Ty("float")
        elif t == "x86_fp80":
            r = Ty("fp80")
        elif t == "metadata":
            r = Ty("metadata")
        elif t == "label":
            r = Ty("label")
        elif t[0] == "i" and t[1:].isdigit():
            n = int(t[1:])
            r = _ints.get(n) or Ty("int", n)
        elif t[0] == "%":
            r = Ty("struct", t[1:].strip('"'))
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("arr", n, e)
        elif t == "{":
            els = []
            if not self.accept("}"):
                while True:
                    els.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            r = Ty("lit", tuple(els))
        elif t == "<":
            if self.peek() == "{":
                r = self.type()
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = Ty("vec", n, e)
        else:
            raise IRError("type %r" % t)
        while True:
            if self.peek() == "*":
                raise IRError("typed pointer")
            if self.peek() == "(":
                # function type in a vararg call
                self.next()
                depth = 1
                while depth:
                    x = self.next()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                return r
            return r

    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
                out[t] = True
            elif t in ("align", ):
                self.next()
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif t in ("byval", "sret", "dereferenceable", "dereferenceable_or_null",
                       "elementtype", "captures"):
                self.next()
                self.expect("(")
                if t in ("byval", "sret", "elementtype"):
                    out[t] = self.type()
                else:
                    self.next()
                self.expect(")")
            else:
                return out

    def value(self, ty):
        """parse a value of the given type -> operand tuple"""
        t = self.next()
        if t[0] == "%":
            return ("v", t[1:].strip('"'))
        if t[0] == "@":
            return ("g", t[1:].strip('"'))
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef", ty)
        if t == "true":
            return ("c", 1, ty)
        if t == "false":
            return ("c", 0, ty)
        if t == "zeroinitializer":
            return ("zero", ty)
        if t == "getelementptr":
            self.accept("inbounds")
            self.expect("(")
            ety = self.type()
            self.expect(",")
            bt = self.type()
            base = self.value(bt)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("cgep", ety, base, idx)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            return ("ccast", t, st, v, dt)
        if t in ("sub", "add"):
            while self.peek() in ("nsw", "nuw"):
                self.next()
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect(",")
            st2 = self.type()
            v2 = self.value(st2)
            self.expect(")")
            return ("cbin", t, v, v2, st)
        if t == "{" or t == "[":
            close = "}" if t == "{" else "]"
            vals = []
            if not self.accept(close):
                while True:
                    vt = self.type()
                    vals.append((vt, self.value(vt)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", ty, vals)
        if t[:2] == 'c"':
            return ("str", t[2:-1])
        if t.startswith("0x") or "." in t:
            return ("f", t)
        if t.lstrip("-").isdigit():
            return ("c", int(t), ty)
        if t == "metadata":
            raise IRError("metadata value")
        raise IRError("value %r" % t)


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "fn")

    def __init__(self, op, res, ty, a, line):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line

    def __repr__(self):
        return "%s = %s %r %r" % (self.res, self.op, self.ty, self.a)


class Block:
    __slots__ = ("name", "phis", "ins", "term", "preds", "succs")

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None
        self.preds = []
        self.succs = []


class Func:
    def __init__(self, mod, name, ret, params, internal, variadic, line):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.params = params      # list of (name, Ty, attrs)
        self.internal = internal
        self.variadic = variadic
        self.body = None          # raw lines
        self.blocks = None        # dict name->Block
        self.order = None
        self.line = line

    def parse(self):
        if self.blocks is not None:
            return self
        blocks = {}
        order = []
        cur = None
        lines = self.body
        i = 0
        n = len(lines)
        dbg = self.mod.dbgline
        while i < n:
            l = lines[i]
            i += 1
            if not l or l.isspace():
                continue
            if l[0] != " ":
                m = re.match(r'("?[-\w.$]+"?):', l)
                if not m:
                    raise IRError("label " + l)
                cur = Block(m.group(1).strip('"'))
                blocks[cur.name] = cur
                order.append(cur)
                continue
            if cur is None:
                cur = Block("entry")
                blocks[cur.name] = cur
                order.append(cur)
            if "switch " in l and l.rstrip().endswith("["):
                while not lines[i].lstrip().startswith("]"):
                    l += " " + lines[i].strip()
                    i += 1
                l += lines[i].strip()
                i += 1
            line = 0
            k = l.find(", !")
            if k >= 0:
                m = re.search(r"!dbg !(\d+)", l)
                if m:
                    line = dbg.get(int(m.group(1)), 0)
                l = l[:k]
            if "call void @llvm.dbg" in l or "@llvm.lifetime" in l:
                continue
            ins = parse_ins(l, line)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            elif ins.op in ("br", "condbr", "switch", "ret", "unreachable"):
                cur.term = ins
                if ins.op == "br":
                    cur.succs = [ins.a[0]]
                elif ins.op == "condbr":
                    cur.succs = [ins.a[1], ins.a[2]]
                elif ins.op == "switch":
                    cur.succs = [ins.a[1]] + [x[1] for x in ins.a[2]]
            else:
                cur.ins.append(ins)
        for b in order:
            for s in b.succs:
                if b.name not in blocks[s].preds:
                    blocks[s].preds.append(b.name)
        self.blocks = blocks
        self.order = order
        self.body = None
        return self


ICMP = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"}
BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or",
          "xor", "shl", "lshr", "ashr"}
CASTS = {"sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast",
         "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}


def parse_ins(l, line):
    p = P(tokenize(l))
    res = None
    if p.peek() and p.peek()[0] == "%" and p.peek(1) == "=":
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op == "alloca":
        ty = p.type()
        cnt = None
        if p.accept(","):
            if p.peek() != "align":
                ct = p.type()
                cnt = p.value(ct)
        return Ins("alloca", res, PTR, (ty, cnt), line)
    if op == "load":
        ty = p.type()
        p.expect(",")
        p.type()
        a = p.value(PTR)
        return Ins("load", res, ty, (a,), line)
    if op == "store":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.type()
        a = p.value(PTR)
        return Ins("store", None, ty, (v, a), line)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        ety = p.type()
        p.expect(",")
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append((it, p.value(it)))
        return Ins("gep", res, PTR, (ety, base, idx), line)
    if op == "call":
        while p.peek() in ("fastcc", "ccc", "nnan", "fast"):
            p.next()
        p.attrs()
        ty = p.type()
        callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                at_attr = p.attrs()
                if at.k == "metadata":
                    return None
                args.append((at, p.value(at), at_attr))
                if p.accept(")"):
                    break
                p.expect(",")
        return Ins("call", res, ty, (callee, args), line)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Ins("br", None, VOID, (p.next()[1:].strip('"'),), line)
        ty = p.type()
        c = p.value(ty)
        p.expect(",")
        p.expect("label")
        t = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        f = p.next()[1:].strip('"')
        return Ins("condbr", None, VOID, (c, t, f), line)
    if op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.expect("label")
        d = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()[1:].strip('"')))
        return Ins("switch", None, ty, (v, d, cases), line)
    if op == "ret":
        ty = p.type()
        if ty.k == "void":
            return Ins("ret", None, VOID, (None,), line)
        return Ins("ret", None, ty, (p.value(ty),), line)
    if op == "unreachable":
        return Ins("unreachable", None, VOID, (), line)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.next()[1:].strip('"')
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        return Ins("phi", res, ty, inc, line)
    if op == "icmp":
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins("icmp", res, I1, (pred, ty, a, b), line)
    if op in BINOPS:
        fl = set()
        while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
            fl.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins("bin", res, ty, (op, a, b, fl), line)
    if op in CASTS:
        while p.peek() in ("nneg",):
            p.next()
        st = p.type()
        v = p.value(st)
        p.expect("to")
        dt = p.type()
        return Ins("cast", res, dt, (op, st, v), line)
    if op == "select":
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        p.type()
        b = p.value(ty)
        return Ins("select", res, ty, (c, a, b), line)
    if op == "extractvalue":
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Ins("extractvalue", res, ty, (v, idx), line)
    if op == "insertvalue":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Ins("insertvalue", res, ty, (v, et, e, idx), line)
    if op in ("fdiv", "fmul", "fadd", "fsub", "fneg", "fcmp"):
        return Ins("float", res, Ty("double"), (op,), line)
    if op == "freeze":
        ty = p.type()
        return Ins("freeze", res, ty, (p.value(ty),), line)
    raise IRError("op %r in %r" % (op, l))


class Module:
    def __init__(self, path, src=None):
        self.path = path
        self.src = src or path
        self.structs = {}     # name -> list of Ty (or None opaque)
        self.funcs = {}
        self.decls = {}
        self.globals = {}     # name -> dict(const, ty, internal, init-text)
        self.dbgline = {}
        self._parse(open(path).read())

    def _parse(self, text):
        lines = text.split("\n")
        n = len(lines)
        i = 0
        hdr = re.compile(r"define\s+(.*)$")
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", text, re.M):
            self.dbgline[int(m.group(1))] = int(m.group(2))
        splines = {}
        for m in re.finditer(r"^!(\d+) = distinct !DISubprogram\(name: \"[^\"]*\".*?line: (\d+)", text, re.M):
            splines[int(m.group(1))] = int(m.group(2))
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            c = l[0]
            if c == "%" and " = type " in l:
                name, rest = l.split(" = type ", 1)
                name = name[1:].strip('"')
                if rest.strip() == "opaque":
                    self.structs[name] = None
                else:
                    p = P(tokenize(rest))
                    t = p.type()
                    self.structs[name] = list(t.a)
            elif c == "@":
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                if not m:
                    continue
                nm = m.group(1).strip('"')
                rest = m.group(2)
                mm = re.match(r"((?:\w+(?:\(\w+\))? )*?)(global|constant|alias)\b(.*)$", rest)
                if not mm:
                    continue
                self.globals[nm] = dict(
                    kind=mm.group(2),
                    const=mm.group(2) == "constant",
                    external=bool(re.search(r"\bexternal\b", mm.group(1))),
                    internal=bool(re.search(r"\b(internal|private)\b", mm.group(1))),
                    text=mm.group(3).strip())
            elif l.startswith("define "):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self._header(l)
                m = re.search(r"!dbg !(\d+)", l)
                if m:
                    f.line = splines.get(int(m.group(1)), 0)
                f.body = body
                self.funcs[f.name] = f
            elif l.startswith("declare "):
                f = self._header(l)
                self.decls[f.name] = f

    def _header(self, l):
        m = re.match(r"(define|declare)\s+((?:[a-z_]+ )*?)(?=(?:noundef |signext |zeroext |noalias |nonnull )*(?:ptr|void|i\d+|double|float|x86_fp80|%|\{|\[))(.*)$", l)
        if not m:
            raise IRError("header " + l)
        link = m.group(2)
        rest = m.group(3)
        k = rest.find("{", rest.rfind(")"))
        p = P(tokenize(rest[:rest.rfind(")") + 1]))
        p.attrs()
        ret = p.type_noparen() if hasattr(p, "type_noparen") else self._rtype(p)
        name = p.next()
        assert name[0] == "@", l
        p.expect("(")
        params = []
        variadic = False
        if not p.accept(")"):
            while True:
                if p.peek() == "...":
                    p.next()
                    variadic = True
                    p.expect(")")
                    break
                ty = p.type()
                at = p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == "%":
                    nm = p.next()[1:].strip('"')
                params.append((nm, ty, at))
                if p.accept(")"):
                    break
                p.expect(",")
        return Func(self, name[1:].strip('"'), ret, params,
                    "internal" in link.split() or "linkonce" in link, variadic, 0)

    @staticmethod
    def _rtype(p):
        return p.type()


# ---------------------------------------------------------------- layout
class Layout:
    """sizes and offsets for x86-64"""

    def __init__(self, structs):
        self.structs = structs
        self._c = {}

    def size_align(self, t):
        if t.k == "int":
            n = 1 if t.a <= 8 else t.a // 8
            return n, n
        if t.k in ("ptr", "double"):
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k == "fp80":
            return 16, 16
        if t.k == "arr":
            s, a = self.size_align(t.b)
            return s * t.a, a
        if t.k == "struct":
            key = t.a
            if key in self._c:
                return self._c[key][:2]
            els = self.structs.get(t.a)
            if els is None:
                raise IRError("opaque struct " + t.a)
            r = self._lay(els)
            self._c[key] = r
            return r[:2]
        if t.k == "lit":
            return self._lay(list(t.a))[:2]
        raise IRError("size of %r" % t)

    def _lay(self, els):
        off = 0
        al = 1
        offs = []
        for e in els:
            s, a = self.size_align(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return off, al, offs

    def size(self, t):
        return self.size_align(t)[0]

    def offset(self, t, i):
        if t.k == "struct":
            self.size_align(t)
            return self._c[t.a][2][i]
        if t.k == "lit":
            return self._lay(list(t.a))[2][i]
        raise IRError("offset")

    def elts(self, t):
        if t.k == "struct":
            return self.structs[t.a]
        return list(t.a)
