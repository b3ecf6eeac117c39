"""C09: lists (every instance of isl_list_templ.c)"""
from contract import contract, List, KList, El, Ctx, Int, UInt, CallBack, User, forall, imp
from term import If, And, Or, Not, Implies, Iff, eq, ne, isz

P = "C09"
POS = [-1, 0, 1, 2, 3, 4]
UPOS = [0, 1, 2, 3, 4, (1 << 32) - 1]

# element type -> file
INST = dict(aff="isl_aff.c", pw_aff="isl_aff.c", pw_multi_aff="isl_aff.c", union_pw_aff="isl_aff.c", union_pw_multi_aff="isl_aff.c",
            ast_expr="isl_ast.c", ast_node="isl_ast.c", ast_graft="isl_ast_graft.c", constraint="isl_constraint.c",
            pw_qpolynomial_fold="isl_fold.c", id="isl_id.c", basic_map="isl_map_list.c", map="isl_map_list.c",
            union_map="isl_map_list.c", qpolynomial="isl_polynomial.c", pw_qpolynomial="isl_polynomial.c",
            schedule_tree="isl_schedule_tree.c", basic_set="isl_set_list.c", set="isl_set_list.c", union_set="isl_set_list.c",
            val="isl_val.c")


def is_list(r, n, f):
    if r is None:
        yield "result exists", False
        return
    yield "length", eq(r.n, n)
    yield "elements", forall(0, n, lambda j: eq(r[j], f(j)))


def partial(c, ok, n, f):
    if c.ret is None:
        yield "rejected only outside of the domain", Not(ok)
        return
    yield "rejected outside of the domain", ok
    yield "length", Implies(ok, eq(c.ret.n, n))
    yield "elements", imp(ok, forall(0, n, lambda j: eq(c.ret[j], f(j)))) if isz(ok) or ok else True


def instance(el):
    L = "isl_%s_list_" % el
    RL, RE = "list:" + el, "el:" + el
    n = 1500 if el == "val" else 200

    def fun(name, params, ret, **kw):
        return contract(name, P, params, ret, src=INST[el], cases=n, **kw)

    def KL(nm):
        return KList(nm, el=el)

    def TL(nm):
        return List(nm, el=el)

    def E(nm):
        return El(nm, el=el)

    @fun(L + "alloc", [Ctx("ctx"), Int("n", pool=[-3, -1, 0, 1, 2, 7])], RL)
    def _(c):
        if c.ret is None:
            yield "rejected only outside of the domain", c.n < 0
            return
        yield "rejected outside of the domain", c.n >= 0
        yield "length", eq(c.ret.n, 0)

    for nm in ("copy", "dup"):
        @fun(L + nm, [KL("list")], RL)
        def _(c):
            yield from is_list(c.ret, c.list.n, lambda j: c.list[j])

    @fun(L + "cow", [TL("list")], RL)
    def _(c):
        yield from is_list(c.ret, c.list.n, lambda j: c.list[j])

    @fun(L + "add", [TL("list"), E("el")], RL)
    def _(c):
        yield from is_list(c.ret, c.list.n + 1, lambda j: If(j < c.list.n, c.list[j], c.el))

    @fun(L + "drop", [TL("list"), UInt("first", pool=UPOS), UInt("n", pool=UPOS)], RL)
    def _(c):
        yield from partial(c, c.first + c.n <= c.list.n, c.list.n - c.n, lambda j: c.list[If(j < c.first, j, j + c.n)])

    @fun(L + "clear", [TL("list")], RL)
    def _(c):
        yield from is_list(c.ret, 0, lambda j: 0)

    @fun(L + "insert", [TL("list"), UInt("pos"), E("el")], RL)
    def _(c):
        yield from partial(c, c.pos <= c.list.n, c.list.n + 1,
                           lambda j: If(j < c.pos, c.list[j], If(eq(j, c.pos), c.el, c.list[j - 1])))

    for nm in ("isl_%s_list_size" % el, "isl_%s_list_n_%s" % (el, el)):
        @fun(nm, [KL("list")], "size")
        def _(c):
            yield "length", eq(c.ret, c.list.n)

    for nm in (L + "get_at", L + "get_" + el):
        @fun(nm, [KL("list"), Int("index", pool=POS)], RE)
        def _(c):
            ok = And(c.index >= 0, c.index < c.list.n)
            if c.ret is None:
                yield "rejected only outside of the domain", Not(ok)
                return
            yield "rejected outside of the domain", ok
            yield "element", eq(c.ret, c.list[c.index])

    @fun(L + "set_" + el, [TL("list"), Int("index", pool=POS), E("el")], RL)
    def _(c):
        yield from partial(c, And(c.index >= 0, c.index < c.list.n), c.list.n,
                           lambda j: If(eq(j, c.index), c.el, c.list[j]))

    @fun(L + "swap", [TL("list"), UInt("pos1"), UInt("pos2")], RL)
    def _(c):
        yield from partial(c, Or(eq(c.pos1, c.pos2), And(c.pos1 < c.list.n, c.pos2 < c.list.n)), c.list.n,
                           lambda j: c.list[If(eq(j, c.pos1), c.pos2, If(eq(j, c.pos2), c.pos1, j))])

    @fun(L + "reverse", [TL("list")], RL)
    def _(c):
        yield from is_list(c.ret, c.list.n, lambda j: c.list[c.list.n - 1 - j])

    for nm in (L + "from_" + el, "isl_%s_to_list" % el):
        @fun(nm, [E("el")], RL)
        def _(c):
            yield from is_list(c.ret, 1, lambda j: c.el)

    @fun(L + "concat", [TL("list1"), TL("list2")], RL, alias=[("list1", "list2")])
    def _(c):
        m = c.list1.n
        yield from is_list(c.ret, m + c.list2.n, lambda j: If(j < m, c.list1[j], c.list2[j - m]))

    @fun(L + "foreach", [KL("list"), CallBack("fn", res="stat", el=el), User("user")], "stat")
    def _(c):
        k = c.out("fn")
        yield "visits a prefix in order", forall(0, k.n, lambda j: eq(k[j], c.list[j]))
        yield "at most all elements", k.n <= c.list.n
        yield "succeeds after all elements", Iff(eq(c.ret, 0), And(eq(k.n, c.list.n), Or(eq(k.n, 0), eq(c.fn[k.n - 1], 0))))
        yield "error", Or(eq(c.ret, 0), eq(c.ret, -1))
        yield "continues only after success", forall(0, k.n - 1, lambda j: eq(c.fn[j], 0))
        yield "stops only after failure", Implies(ne(c.ret, 0), And(k.n > 0, eq(c.fn[k.n - 1], -1)))

    @fun(L + "every", [KL("list"), CallBack("test", res="bool", el=el), User("user")], "bool")
    def _(c):
        k = c.out("test")
        yield "visits a prefix in order", forall(0, k.n, lambda j: eq(k[j], c.list[j]))
        yield "at most all elements", k.n <= c.list.n
        yield "continues only after true", forall(0, k.n - 1, lambda j: eq(c.test[j], 1))
        yield "true after all elements", Implies(eq(c.ret, 1), And(eq(k.n, c.list.n), Or(eq(k.n, 0), eq(c.test[k.n - 1], 1))))
        yield "otherwise the last answer", Implies(ne(c.ret, 1), And(k.n > 0, eq(c.test[k.n - 1], c.ret)))

    @fun(L + "map", [TL("list"), CallBack("fn", res="el", el=el), User("user")], RL)
    def _(c):
        k = c.out("fn")
        yield "every element is mapped", eq(k.n, c.list.n)
        yield "in order", forall(0, c.list.n, lambda j: eq(k[j], c.list[j]))
        yield from is_list(c.ret, c.list.n, lambda j: c.fn[j])


    @fun(L + "sort", [TL("list"), CallBack("cmp", res="cmp", el=el), User("user")], RL, bounded_only=True)
    def _(c):
        if c.ret is None:
            yield "result exists", False
            return
        rank = lambda x: c.cmp[x - 1]
        yield "sorted", all(rank(c.ret[j]) <= rank(c.ret[j + 1]) for j in range(c.ret.n - 1))
        yield "same elements, equal ones in their order", list(c.ret.l) == sorted(c.list.l, key=rank)

    def genscc(rng):
        return dict(list=[rng.choice((0, 1, 3))] + rng.sample(range(1, 6), rng.randint(0, 5)))

    @fun(L + "foreach_scc", [KL("list"), CallBack("follows", res="follows", el=el), User("u1"),
                             CallBack("fn", res="scc", el=el), User("u2")], "stat", bounded_only=True, gen=genscc)
    def _(c):
        l, rel, calls = list(c.list.l), c.follows, c.out("fn").l
        reach = {(a, b): a == b or bool(rel[a][b]) for a in l for b in l}
        for k in l:
            for a in l:
                for b in l:
                    reach[a, b] = reach[a, b] or reach[a, k] and reach[k, b]
        seen = []
        for i, s in enumerate(calls):
            yield "a whole component", len(s) > 0 and sorted(s) == sorted(x for x in l if reach[x, s[0]] and reach[s[0], x])
            seen += s
            yield "after all components it follows", all(y in seen for y in l if reach[s[0], y])
            yield "continues only after success", i == len(calls) - 1 or c.fn[i] == 0
        yield "every element once", len(set(seen)) == len(seen)
        good = len(seen) == len(l) and (not calls or c.fn[len(calls) - 1] == 0)
        yield "succeeds exactly after all components", (c.ret == 0) == good


for _el in INST:
    instance(_el)
