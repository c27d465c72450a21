import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts.registry import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
checks = [dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
               technique=PROPS[i].get("technique", "contract-based deductive verification (own VC generator pyvc over the real source, z3/cvc5), executable contracts as bounded replay"),
               level=PROPS[i].get("level", "proof"), level_note=PROPS[i].get("note", ""), **({"theorems": PROPS[i]["theorems"]} if "theorems" in PROPS[i] else {})) for i in ids if i in PROPS]
na = [dict(property=i, reason=NA.get(i, "contracts for this property are not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3\"", checks=checks, not_applicable=na,
               notes="Deductive verifier: /verif/pyvc generates verification conditions from /repo's current source on every run; contracts in /verif/contracts. No hooks in /repo."),
          open(H + "/MANIFEST.json", "w"), indent=1)
