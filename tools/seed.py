"""Plant a bug: python3 tools/seed.py SPEC.py  (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo)."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main(path, tests=True):
    s = runpy.run_path(path)
    wt = f"/tmp/seedwt_{s['id']}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"cp -a /repo {wt}", "/")
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(wt, "metrics_layer/core", f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", wt).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", wt)
        print(s["id"], "demo clean:", a.returncode, "patched:", b.returncode)
        if a.returncode != 0:
            print(a.stdout[-800:], a.stderr[-1500:])
        if b.returncode == 0:
            print("NOT DETECTED BY DEMO", b.stdout[-500:])
        print("   ", (b.stdout + b.stderr).strip().splitlines()[-1:])
        if tests:
            t = open("/opt/vp/test.sh").read().replace("/repo", wt)
            open(f"/tmp/test_{s['id']}.sh", "w").write(t)
            sh(f"bash /tmp/test_{s['id']}.sh /tmp/out_{s['id']}.json", "/")
            out = json.load(open(f"/tmp/out_{s['id']}.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(out.get("passed", out if isinstance(out, list) else []))
            stable = base.get("passed") or base.get("stable") or base
            lost = [x for x in stable if x not in passed]
            print("    tests lost:", len(lost), lost[:5])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main(sys.argv[1], "--no-tests" not in sys.argv)
