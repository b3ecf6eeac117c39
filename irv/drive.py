"""Round-based contract verification of all functions (engine B)."""
import os
import sys
import time
import json
import multiprocessing as mp
import own

W = None
CFG = None
SUMM = {}


def optimistic(w, key):
    d = w.decl(key)
    s = own.Summary()
    if d is None:
        s.total = False
        s.ret_excl = None
        return s
    ps, ret, rty, kind, cr = w.mkann(d["p"], d["a"], d["cr"], d["r"])
    if (cr or "").endswith("*") and ret != "null" or kind:
        st = set()
        for i, (an, pt, p) in enumerate(ps):
            if pt in w.obj or p.get("t") in ("isl_bool", "isl_stat", "isl_size"):
                st.add(i)
        s.strict = frozenset(st)
    else:
        s.total = False
    return s


def pessimistic(w, key):
    s = own.Summary()
    s.total = False
    s.ret_excl = None
    d = w.decl(key)
    if d:
        s.writes = frozenset(range(len(d["p"])))
    return s


def callees(w, key):
    mod, f = w.fn[key]
    f.parse()
    out = set()
    for b in f.order:
        for i in b.ins:
            if i.op == "call" and i.a[0][0] == "g":
                k = w.key_of(mod.src, i.a[0][1])
                if k is not None:
                    out.add(k)
    return out


BASE = None


def giveup(key):
    """out of the verifier's reach in this run: the committed contract is assumed"""
    if BASE and key in BASE:
        return BASE[key]
    return pessimistic(W, key)


def _one(key):
    t = time.time()
    e = own.Exec2(W, SUMM, CFG, key, None)
    own.DEADLINE[:] = [t + 60]
    try:
        s, al = e.analyse()
        ob = {}
        for o in e.obl:
            ob[o[0]] = ob.get(o[0], 0) + 1
        return key, s, dict(al), None, e.steps, e.nexits, time.time() - t, sorted(map(str, e.inlined)), ob
    except own.GiveUp as ex:
        return key, giveup(key), {}, str(ex), e.steps, e.nexits, time.time() - t, [], {}
    except RecursionError as ex:
        return key, giveup(key), {}, "recursion", e.steps, e.nexits, time.time() - t, [], {}
    except Exception as ex:
        if os.environ.get("OWNDEBUG"):
            import traceback
            traceback.print_exc()
            print("IN", key)
        return key, giveup(key), {}, "internal: %r" % ex, e.steps, e.nexits, time.time() - t, [], {}


def _chunk(keys):
    return [_one(k) for k in keys]


def _calls(keys):
    return [(k, callees(W, k)) for k in keys]


def pmap(fn, items, n=8, size=40):
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    ctx = mp.get_context("fork")
    with ctx.Pool(n) as p:
        for r in p.imap_unordered(fn, chunks):
            for x in r:
                yield x


def solve(w, cfg, init=None, log=None, maxrounds=25, fresh=False):
    """-> {key: result}; every function verified against the final contracts"""
    global W, CFG, SUMM, BASE
    W, CFG, BASE = w, cfg, init
    keys = sorted(w.fn, key=str)
    SUMM = {}
    for k in keys:
        SUMM[k] = init[k] if init and not fresh and k in init else optimistic(w, k)
    calls = dict(pmap(_calls, keys, size=200))
    callers = {}
    for k, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    todo = list(keys)
    res = {}
    rnd = 0
    while todo:
        rnd += 1
        t = time.time()
        changed = set()
        new = {}
        for r in pmap(_chunk, todo):
            k = r[0]
            res[k] = r
            ns = r[1]
            old = SUMM[k]
            if init is not None and not fresh and k in init:
                ns = assume_excluded(k, init[k], ns, cfg)
            if rnd > 8:
                ns = weaken(old, ns)
            elif init is None or rnd > 1:
                ns = weaken(old, ns)
            if ns.key() != old.key():
                new[k] = ns
                changed.add(k)
        SUMM.update(new)
        if log:
            log("round %d: %d functions, %d contracts changed, %.1fs" % (rnd, len(todo), len(changed), time.time() - t))
        nxt = set()
        for k in changed:
            nxt |= callers.get(k, set())
            # inlined helpers: callers of callers
            if isinstance(k, tuple) and cfg.known is not None and k not in cfg.known:
                for c in callers.get(k, ()):
                    nxt |= callers.get(c, set())
        todo = sorted(nxt, key=str)
        if rnd >= maxrounds:
            break
    return res, SUMM


def assume_excluded(k, c, n, cfg):
    """a function whose obligations of a family are outside the contract is
    assumed to satisfy the committed contract in that respect"""
    x = cfg.excluded.get(k) if cfg.excluded else None
    if not x:
        return n
    s = weaken(n, n)
    if "P2" in x or "P4" in x:
        s.nn_req = n.nn_req & c.nn_req
        s.strict = n.strict | c.strict
        s.total = n.total or c.total
    if "P3" in x:
        s.excl_req = n.excl_req & c.excl_req
        s.writes = n.writes & c.writes
        if n.ret_excl is None or c.ret_excl is not None and not n.ret_excl <= c.ret_excl:
            s.ret_excl = c.ret_excl
        s.shares = n.shares & c.shares
        s.stores = n.stores & c.stores
        s.ret_root = n.ret_root & c.ret_root
    return s


def weaken(a, b):
    """meet of two summaries (a previous, b newly inferred)"""
    s = own.Summary()
    s.nn_req = a.nn_req | b.nn_req
    s.excl_req = a.excl_req | b.excl_req
    s.writes = a.writes | b.writes
    s.strict = a.strict & b.strict
    s.total = a.total and b.total
    s.ret_excl = None if a.ret_excl is None or b.ret_excl is None else a.ret_excl | b.ret_excl
    s.shares = a.shares | b.shares
    s.stores = a.stores | b.stores
    s.ret_root = a.ret_root | b.ret_root
    return s
