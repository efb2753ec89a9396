"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(R, "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"/opt/venv/bin/python check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the current Python source + SMT (z3): every assertion decided over all inputs within the stated bounds, counterexamples replayed on the unmodified package",
            level="model_checking",
            level_note="Bounded: exact real arithmetic, structural sizes bounded as the evidence file's coverage.bounds states, numeric values unbounded. Trusts z3, the models of numpy/scipy in vlib (checked against the real libraries on concrete inputs in every run) and the reference formulas in vlib/spec.py.",
        ))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, scipy; sys.path.insert(0, '/repo'); import conjugate\"",
               checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
