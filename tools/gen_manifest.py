"""Author-time helper: writes MANIFEST.json (run by hand, not by any check)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "abstract interpretation of the source over symbolic tensors (value numbering, effect and shape analysis)"
NA = {
    "C26": "Convergence of training and the bond dimensions it finds depend on data, optimiser and run-time values; not a property of the source that a static analysis can decide.",
}
NOTES = {
    "C01": "log probabilities and normaliser of both probabilistic models",
    "C02": "matrix-sequence contraction and slice selection, 1 to 9 matrices",
    "C03": "rescaling factors in the three rescaled contraction paths",
    "C04": "slim, parallel and default evaluation of all models",
    "C05": "all label sites and chain lengths up to 6, paths, feature maps, adaptive states",
    "C06": "open and periodic chains of MPS and TI_MPS",
    "C07": "all pairs of contractables and reductions of up to 6 members",
    "C08": "merging and unmerging of chains of up to 6 inputs, odd and even offsets, all label sites",
    "C09": "registered parameters across merge changes",
    "C10": "merge schedule, carried counts and bond bookkeeping",
    "C11": "svd_flex for all axis specifications used, cutoff and max_D combinations",
    "C12": "batch-axis labels through every evaluation scenario",
    "C13": "TI_MPS evaluation, padding and embedding",
    "C14": "device and dtype labels through every evaluation, merge and unmerge",
    "C15": "registered parameters and gradient paths",
    "C16": "writes to caller-owned storage",
    "C17": "random draws, global and instance state; re-evaluation after other batches and instances",
    "C18": "constructor and call options",
    "C19": "malformed inputs of every public entry point",
    "C20": "Gram matrices and embedding functions",
    "C21": "batch helpers",
    "C22": "data helpers",
    "C23": "initialisers",
    "C24": "homogeneity degrees, in the cores, of all intermediate results of the rescaled contractions (chains of 6 and 9 sites; 17 in the thorough tier)",
    "C25": "state saved and restored by name into a fresh model",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 -m sa.check {i}",
        "thorough_cmd": f"python3 -m sa.check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH,
        "level": "other",
        "level_note": f"Static decision for {NOTES[i]}. Covers all values of tensor entries and symbolic sizes (batch, bond, feature, output) for every "
                      "enumerated call shape (option combination, chain length, container arity); trusts the transfer functions of the torch "
                      "operations in sa/torchlib.py and that chain lengths beyond the enumerated ones behave alike. What the domain cannot express "
                      "is reported as undecided in the evidence.",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks are one program, sa/check.py, which reads /repo's current source with the Python standard library only; "
                    "torchmps is never imported or executed."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
