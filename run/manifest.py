"""Writes MANIFEST.json: python3 run/manifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
    "C15": "Sizes are proved to be the documented formulas structurally over uninterpreted float operations; their numeric values are compared concretely (bounded).",
    "C16": "Estimates are proved to be the documented formula structurally over uninterpreted float operations; numeric values, symmetry and self-estimate are also compared concretely (bounded).",
    "C22": "Construction, unit choice, comparison and filter sizes are proved; printing and hashing of sizes are compared concretely (bounded).",
    "C13": "Slice, vector, string and owned-string keys are covered through the AsRef and Hash contracts; integer keys (macro generated) are compared concretely (bounded).",
}
checks = []
for i in ids:
    if i in conf.PROPS:
        c = {"property": i, "technique": "contracts on the extracted source, discharged by Verus; concrete replay and witness search on the compiled code",
             "level": "proof",
             "level_note": "Contracts and lemmas of all functions named in the evidence are discharged on each run from the current source; a function the extraction cannot carry over is "
                           "decided by the bounded comparison for that run and the evidence then says exploration. " + NOTE.get(i, "")}
        if conf.PROPS[i][1]:
            c["theorems"] = conf.PROPS[i][1]
    elif i in conf.BOUNDED:
        c = {"property": i, "technique": "bounded stand-in: random scenarios on the built artefact against the reference model", "level": "exploration",
             "level_note": "Bounded, not a proof."}
    else:
        continue
    c["quick_cmd"] = "python3 run/check.py %s quick" % i
    c["thorough_cmd"] = "python3 run/check.py %s thorough" % i
    c["evidence_file"] = "evidence/%s.json" % i
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 run/check.py setup",
     "hooks": {"guard": "none", "enable": "nothing to enable: the contracts live in /verif/spec and are joined with the source of /repo at each run", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": "C23", "reason": "a statistical statement about random keys and the quality of a hash function; no pre- and postcondition over single executions states it, so no verification condition decides it"}],
     "notes": "See DESIGN.md. Known and fixed defects: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
