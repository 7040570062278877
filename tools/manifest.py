"""writes MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt6sa import checks
checks.load()
AI = "abstract interpretation of MIR"
TECH = {
    "K02": "call graph analysis (no cycle)", "G01": "type check of a build configuration, crate graph and signature comparison",
    "G02": "inventory of unsafe operations, abstract interpretation of the bytes converted",
}
NA = {
    "N01": "that digits and value agree for every integer needs arithmetic over powers of ten in a loop, which the linear facts of this analysis cannot express; a test on sampled values would not be static analysis",
    "N02": "injectivity of an encoding relates two executions with different inputs; no analysis here compares two runs over unbounded values (that the digit tables are injective is part of I03)",
    "N03": "fairness between connections depends on the scheduler of the async runtime and on traffic, which no sound static argument over this source bounds",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out, na = [], []
for p in props:
    i = p["id"]
    if i in checks._reg:
        f = checks._reg[i]
        out.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                    "evidence_file": "evidence/%s.json" % i,
                    "technique": getattr(f, "technique", None) or TECH.get(i) or AI,
                    "level": "other", "level_note": " ".join((f.__doc__ or p["title"]).split())})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": out, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "claimed;", [x["property"] for x in na])
