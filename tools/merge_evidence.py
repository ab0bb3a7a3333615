"""Adds the coverage of a first run (checked arithmetic) to the evidence of a second (wrapping)."""
import json
import sys

first, second = sys.argv[1], sys.argv[2]
a, b = json.load(open(first)), json.load(open(second))
ca, cb = a["coverage"], b["coverage"]
for k in ("evaluations", "nontrivial", "distinct_nontrivial", "fixed_cases", "saved_regressions_replayed"):
    ca[k] = ca.get(k, 0) + cb.get(k, 0)
for k, n in cb["classes"].items():
    ca["classes"][k] = ca["classes"].get(k, 0) + n
ca["samples"] = (ca["samples"] + cb["samples"])[:8]
ca["arithmetic"] = "checked, then wrapping with another seed"
a["wall_s"] += b["wall_s"]
a["violations"] += b["violations"]
json.dump(a, open(second, "w"), indent=2)
