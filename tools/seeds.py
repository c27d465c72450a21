"""Planted bugs: each is confirmed in a scratch copy (tests pass, demo fails with / passes without) and written to seeded/<id>/.
usage: python3 tools/seeds.py [--check] [id…]    (--check: also run the property's quick check against each, via VERIF_REPO)"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, env=ENV, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **k)


def build(s, check):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(SH)
    os.chmod(p, 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        a = sh(["bash", p], r)
        for f, old, new in s["edits"]:
            q = os.path.join(r, f)
            t = open(q).read()
            n = t.count(old)
            if n != s.get("count", 1):
                return "edit matches %d times in %s" % (n, f)
            open(q, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], r).stdout)
        b = sh(["bash", p], r)
        if a.returncode != 0:
            return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:]
        if b.returncode == 0:
            return "demo passes with the change"
        env = dict(ENV, PYTHONPATH=r)
        x = os.path.join(w, "junit.xml")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "--basetemp=" + w + "/tmp",
                "-o", "junit_family=xunit2", "--junitxml=" + x], r, env)
        sh(["/usr/bin/python3", "/opt/vp/results.py", w + "/o.json", "junit:" + x], r)
        o = set(json.load(open(w + "/o.json"))["passed"])
        miss = [k for k in json.load(open("/opt/vp/BASELINE.json"))["stable"] if k not in o]
        if miss:
            return "breaks tests: %s" % miss[:3]
        res = "ok (demo: %s)" % (b.stdout + b.stderr).strip().split("\n")[-1][:150]
        if check:
            c = sh(["python3-vt", "check.py", s["property"], "quick"], HERE, dict(ENV, VERIF_REPO=r, VERIF_SEED="1"))
            v = [l for l in c.stdout.split("\n") if "VIOLATION" in l]
            res += "  CHECK rc=%d %s" % (c.returncode, ("nfi" if v and v[0].endswith("found") else "concrete") if v else "MISSED")
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("seedlist", os.path.join(HERE, "tools", "seedlist.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not args or any(s["id"].startswith(a) for a in args)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2 if "--check" in sys.argv else 4) as ex:
        for s, r in zip(todo, ex.map(lambda s: build(s, "--check" in sys.argv), todo)):
            print(s["id"], r, flush=True)


main()
