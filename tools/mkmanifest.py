"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import claims
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
  if p in claims.CLAIMS:
    c = claims.CLAIMS[p]
    checks.append(dict(property=p, quick_cmd=f"bash check.sh {p}",
                       thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p}",
                       evidence_file=f"evidence/{p}.json", technique=c["technique"],
                       level=c["level"], level_note=c["note"]))
na = [dict(property=p, reason=claims.NOT_APPLICABLE.get(p, "No check built yet."))
      for p in props if p not in claims.CLAIMS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the checks use the public interface only. /repo commits are fixes; see KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
