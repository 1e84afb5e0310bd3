#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the modules in props/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C13": "stateful model-based generation (Hypothesis): operation histories against a fresh object",
    "C22": "property-based testing (Hypothesis) with exact region checks and statistical goodness-of-fit oracles",
    "C23": "property-based testing (Hypothesis) with exact laws and statistical goodness-of-fit oracles",
    "C24": "property-based testing (Hypothesis) with exact laws and statistical goodness-of-fit oracles",
    "C26": "property-based testing (Hypothesis): metamorphic purity relation over all public callables",
}
ENUM = "property-based testing: exhaustive enumeration of small resolutions plus Hypothesis at large ones, against healpy"
for k in ("C17", "C18"):
    TECH[k] = ENUM
DEFAULT = "property-based testing (Hypothesis) against an independent reference model"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "technique": TECH.get(p["id"], DEFAULT),
            "level": "exploration",
            "level_note": "Generated-input search over the domain stated in DESIGN.md, seeded by VERIF_SEED; "
                          "shows no violation among the generated cases (counted in the evidence), not absence. "
                          "Trusts numpy, healpy and the oracle in props/%s.py." % p["id"].lower(),
        })
    else:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of /repo's working tree; the Fortran is built "
              "out of tree, in a scratch folder, by the checks that need it."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
