"""Evidence of one run: what was analysed, by which rule, and what remained open."""
import json
import os

RULE = ("Each scenario fixes the shape of a call (option combination, number of sites, arity of containers) and leaves tensor "
        "entries, batch sizes, bond, feature and output dimensions symbolic.  The source of torchmps is interpreted over symbolic "
        "tensors, splitting on every branch whose condition is not determined; per path every obligation compares the canonical "
        "term of the result with the reference term of the property, or inspects the recorded effects (writes to caller-owned "
        "tensors or parameters, random draws, casts and device or dtype mixing) and registered parameters.  An obligation fails "
        "only if a valuation of the symbols that satisfies the path conditions gives the two terms different values, or a definite "
        "effect or exception is found; an obligation that the domain cannot express is undecided, never an alarm.")


def write(ev, a, results, ok, und, viol, shown, funcs, dt):
    scs = []
    for r in results:
        mine = sorted({o for p, o in r["ok"] if p == a.prop})
        opn = sorted({o + ": " + m[:200] for p, o, m in r["und"] if p == a.prop})
        scs.append({"scenario": r["name"], "paths": r["paths"], "paths_skipped": r["skipped"], "held": mine, "undecided": opn, "seconds": r["time"]})
    obl = {(n, o) for n, o, p in ok} | {(u[0], u[1]) for u in und if u[3] == a.prop} | {(v[1], v[2]) for v in viol}
    ob_ok = {(n, o) for n, o, p in ok} - {(u[0], u[1]) for u in und} - {(v[1], v[2]) for v in viol}
    doc = {
        "property": a.prop,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": RULE,
            "rule": RULE,
            "obligations": len(obl),
            "discharged": len(ob_ok),
            "undecided": len({(u[0], u[1]) for u in und}),
            "violations": len(viol),
            "known_findings": sorted(shown),
            "paths_analysed": sum(r["paths"] for r in results),
            "calls_interpreted": sum(r["calls"] for r in results),
            "functions_analysed": funcs,
            "samples": scs,
        },
        "wall_s": round(dt, 2),
    }
    if viol:
        doc["coverage"]["violation_sites"] = [{"scenario": v[1], "obligation": v[2], "where": str(v[4]), "what": v[3][:600]} for v in viol]
    with open(os.path.join(ev, a.prop + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1)
