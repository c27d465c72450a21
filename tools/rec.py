"""rec.py PROP WHAT: record the last /repo commit as a fixed finding"""
import json, subprocess, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
h = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h"], capture_output=True, text=True).stdout.strip()
d = json.load(open(p))
d["findings"].append(dict(property=sys.argv[1], key=h, what="fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]), status="fixed"))
open(p, "w").write('{"findings": [\n ' + ",\n ".join(json.dumps(f) for f in d["findings"]) + "\n]}\n")
