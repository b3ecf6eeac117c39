"""C05: no function assigns to static storage (see p5.py)."""
import p5
import check_own
import lower
import own

ASSUME = [
    "strict aliasing: memory of a structure type is only written through that structure type "
    "(used for globals whose address is stored in memory: vtables, option descriptors)",
    "external functions write only through the parameters documented for them",
    "isl_id_set_free_user is not called on a static identifier (negative reference count)",
]


def check(prop, tier, seed, out, log):
    w = check_own.world(out)
    p = p5.P5(w).run()
    viol = []
    known = check_own.load_table()
    if p.viol:
        # helpers that have no contract of their own are inlined
        helpers = {}
        for k in w.fn:
            if isinstance(k, tuple) and k not in known:
                helpers.setdefault(k[0], set()).add(k[1])
        if helpers:
            log("inlining %d helpers without contract" % sum(map(len, helpers.values())))
            w2 = check_own.world(out, helpers)
            q = p5.P5(w2).run()
            if not q.fail:
                w, p = w2, q
    for (k, kind, g, what), line in p.viol.items():
        src = k[0] if isinstance(k, tuple) else w.fn[k][0].src
        name = k[1] if isinstance(k, tuple) else k
        txt = {"assigns-global": "assigns clause violated: may write static variable %s" % g,
               "global-escapes": "address of mutable static variable %s escapes" % g,
               "assigns-protected": "may write a static object of type %s" % g,
               "stateful-call": "calls %s, which keeps process-wide state" % g}[kind]
        if what:
            txt += " (through %s)" % what
        viol.append(dict(id="%s/%s/%s" % (check_own.kstr(k), kind, g),
                         text="%s:%s %s: %s" % (src, line or "?", name, txt)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": p.obl, "discharged": p.obl - len(viol),
              "checker_cmd": "check.py C05 " + tier,
              "backend": "irv/p5.py: frame contracts (assigns, escapes, returns) per function, fixpoint over the call graph",
              "functions_under_contract": len(p.nob), "functions_failed": [str(x) for x in p.fail],
              "mutable_static_variables": sorted(p.gname(g) for g in p.glob),
              "protected_types": sorted(p.protected),
              "trusted_base": check_own.ASSUME[:2] + ASSUME},
          "assumptions": ASSUME}
    return viol, ev
