"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "harness", "props", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": "TLA+ specification checked with TLC; TLC trace validation of recorded runs of the code",
            "level": "model_checking",
            "level_note": "TLC exhausts the bounded model M_%s (invariants tie the two readings of the property together and "
                          "generate scenarios); the real code is run on those scenarios and on generated inputs and TLC judges "
                          "every recorded result against the specification T_%s. Bounded by the inputs driven; trusts the "
                          "recording harness and TLC." % (i, i)})
    else:
        na.append({"property": i, "reason": "check under construction"})
for c in checks:
    if c["property"] == "C33":
        c["technique"] = "TLA+ specification checked with TLC; TLC trace validation of sampled runs against the moments proved on the model"
        c["level"] = "exploration"
        c["level_note"] = ("TLC grows finite designs (closed orbits, stabilizer states, urn histories) and shows that their averages are the "
                           "moments of the invariant distributions; thousands of draws from the real code are recorded and TLC accumulates "
                           "their moments and judges every sample mean at six standard deviations. A statistical verdict: only the low moments "
                           "and deviations above a few per cent are seen; assumes the random generators.")
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every property is observed through public calls."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
