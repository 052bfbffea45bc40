#!/usr/bin/env python3
"""usage: check.py <property id> [--tier quick|thorough] | --setup
Decides one property from /repo's current source. Exit 0: holds; 1: VIOLATION; 2: the analysis cannot answer."""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("LV_EVID", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from lvrules import extract as X
from lvrules.core import Ctx
from lvrules.registry import REG, ALL_TUS


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                body = l[len("known: property=%s " % prop):]
                key, _, what = body.partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        X.prepare()
        print("setup: extractor and configuration ready in", X.CACHE)
        return 0
    r = REG[a.prop]
    t0 = time.time()
    ctx = Ctx(a.prop)
    from lvrules.program import Program
    try:
        mod = importlib.import_module("lvrules." + r["module"])
        pats = ALL_TUS if a.tier == "thorough" else r["tus"]
        P = Program(pats, r.get("witness", ()))
        ctx.tier = a.tier
        getattr(mod, r["func"])(P, ctx)
        for kind, mn in r.get("need", {}).items():
            ctx.need(kind, mn)
    except X.AnalysisBroken as e:
        if not ctx.viol:
            print("ANALYSIS-BROKEN property=%s %s" % (a.prop, e))
            return 2
        print("note: %s" % e)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a.prop)
        return 2
    known = load_known(a.prop)
    kinds = {}
    for k, w, d, ok in ctx.obl:
        c = kinds.setdefault(k, [0, 0])
        c[0] += 1
        c[1] += ok
    new = []
    for key, where, msg in ctx.viol:
        kf = next((x for x in known if x[0] == key), None)
        if kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, kf[1], where))
        else:
            new.append((key, where, msg))
    seen = {}
    for k, w, d, ok in ctx.obl:
        seen.setdefault(k, [])
        if len(seen[k]) < 6:
            seen[k].append("%s: %s" % (w.split(" <- ")[0], d))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis, nothing is executed: " + r["rule"],
            "rule": r["rule"],
            "translation_units": len(P.units), "functions_analysed": len(P.fns) + len(P.lam),
            "obligations": len(ctx.obl), "discharged": sum(1 for o in ctx.obl if o[3]),
            "by_kind": {k: {"instances": v[0], "discharged": v[1]} for k, v in sorted(kinds.items())},
            "samples": seen, "stats": ctx.stats, "notes": ctx.notes[:40],
        },
        "assumptions": r.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("property %s (%s): %d obligations, %d discharged, %d translation units, %.1f s" % (a.prop, a.tier, len(ctx.obl), ev["coverage"]["discharged"], len(P.units), ev["wall_s"]))
    for k, v in sorted(kinds.items()):
        print("  %-24s %4d instances, %4d discharged" % (k, v[0], v[1]))
    if a.v:
        for o in ctx.obl:
            print("    ", o)
    if new:
        rp = os.path.join(EVID, a.prop + ".violations.txt")
        with open(rp, "w") as f:
            for key, where, msg in new:
                f.write("%s\n    at %s\n    key %s\n" % (msg, where, key))
        for key, where, msg in new:
            print("VIOLATION property=%s replay=%s %s at %s" % (a.prop, rp, msg, where))
            if a.v:
                print("   key:", key)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
