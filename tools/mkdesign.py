"""Writes DESIGN.md from tools/DESIGN.tmpl, the registry, the contracts and the planted bugs."""
import glob, importlib, json, os, sys, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, "/repo")
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
from contracts.registry import PROPS
from pyvc import engine


def wrap(s, ind=""):
    return "\n".join(textwrap.wrap(s, 140, initial_indent=ind, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False))


out = []
for line in open(H + "/properties.jsonl"):
    d = json.loads(line)
    p = PROPS.get(d["id"])
    if not p:
        continue
    out.append("### %s %s (level: %s)" % (d["id"], d["title"], p["level"]))
    out.append(wrap(p["note"]))
    for m in p["modules"]:
        mod = importlib.import_module("contracts." + m)
        names = []
        for v in vars(mod).values():
            t = getattr(getattr(v, "cls", None), "target", None)
            if isinstance(v, engine.Contract) and t is not None and v.globs.get("__name__") == mod.__name__ and isinstance(t, str) and not getattr(v.cls, "trusted", False) and not getattr(v.cls, "bounded_only", False):
                names.append(t.replace("latex2json.", "").replace("contracts.", "harness "))
        if names:
            out.append(wrap("Contracts (`contracts/%s.py`, %d): " % (m, len(names)) + ", ".join(names)))
    if p["bounded"]:
        out.append("Bounded driver: " + ", ".join("`bounded/%s.py`" % x for x in p["bounded"]))
    out.append("")
seeds = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
s = open(H + "/tools/DESIGN.tmpl").read().replace("@PROPS@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds))
open(H + "/DESIGN.md", "w").write(s)
