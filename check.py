#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

exit 0: every obligation of the functions under contract was discharged
exit 1: VIOLATION line(s); the replay file names the failed obligations
"""
import os
import sys
import json
import shutil
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(VERIF, "irv"), os.path.join(VERIF, "frontend")]
sys.setrecursionlimit(5000)


def log(s):
    print(s, flush=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for d in json.load(open(p))["findings"]:
            if d["property"] == prop:
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = tempfile.mkdtemp(prefix="islverif.")
    t0 = time.time()
    try:
        import lower
        if prop in ("C01", "C02", "C03", "C04"):
            import check_own as mod
        elif prop == "C05":
            import check_p5 as mod
        elif prop in ("C10", "C16"):
            import check_cb as mod
        else:
            import check_fun as mod
        viol, ev = mod.check(prop, tier, seed, out, log)
    except Exception as e:
        # no verdict: the tree could not be analysed (does not compile, tool failure)
        traceback.print_exc()
        log("NO-VERDICT property=%s: %s" % (prop, str(e)[:300]))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
              "coverage": {"obligations": 0, "discharged": 0, "checker_cmd": " ".join(sys.argv),
                           "trusted_base": [], "explanation": "no verdict: %r" % (e,)},
              "wall_s": round(time.time() - t0, 1), "violations": 0}
        viol = []
    finally:
        shutil.rmtree(out, ignore_errors=True)
    known = known_findings(prop)
    rest = []
    for v in viol:
        for d in known:
            if d["match"] == v["id"]:
                log("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
                break
        else:
            rest.append(v)
    # listed findings are reported even when their function is outside the contract
    seen = set(v["id"] for v in viol)
    for d in known:
        if d["match"] not in seen:
            log("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    ev["violations"] = len(rest)
    ev["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d obligations, %d discharged, %d violations, %.0fs" % (
        prop, tier, ev["coverage"].get("obligations", ev["coverage"].get("obligations_bounded")),
        ev["coverage"].get("discharged", ev["coverage"].get("discharged_bounded")), len(rest), ev["wall_s"]))
    if rest:
        rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % prop)
        with open(rp, "w") as f:
            for v in rest:
                f.write("FAILED OBLIGATION %s\n%s\n\n" % (v["id"], v["text"]))
        concrete = any(v.get("input") for v in rest)
        for v in rest[:20]:
            log("failed: " + v["text"].split("\n")[0])
        log("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if concrete else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
