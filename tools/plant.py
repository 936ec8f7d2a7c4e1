"""Plants bugs: tools/plant.py DEFS.py [ID ...]

DEFS.py holds BUGS = {id: dict(prop, edits=[(file, old, new)], needs, breaks, demo, util=True|False)}.  For every bug: makes
the patch in a scratch worktree, checks that it compiles, passes the stable tests, that the demonstration fails with it
and passes without it, then stores it under seeded/<id>/.  With CHECKS=1 also runs the property's check against it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def stable_ok(tree):
    out = os.path.join(tree, "junit-plant.xml")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
            "--junitxml=" + out, "col_gen_estimator", "doc/index.rst", "doc/user_guide.rst", "doc/api.rst"], tree, dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    import xml.etree.ElementTree as E
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = {f"{c.get('classname')}::{c.get('name')}" for c in E.parse(out).iter("testcase")
          if c.find("failure") is None and c.find("error") is None and c.find("skipped") is None}
    os.unlink(out)
    return sorted(base - ok)


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    for i in ids:
        b = m.BUGS[i]
        base = tempfile.mkdtemp(prefix="plant-")
        tree = os.path.join(base, "repo")
        sh(["git", "-C", "/repo", "worktree", "add", "--detach", tree, "HEAD"], "/")
        try:
            msg = one(i, b, m, tree)
        finally:
            sh(["git", "-C", "/repo", "worktree", "remove", "--force", tree], "/")
            shutil.rmtree(base, ignore_errors=True)
        print(f"{i:28s} {b['prop']} {msg}", flush=True)


def one(i, b, m, tree):
    d = os.path.join(VERIF, "seeded", i)
    stage = os.path.join(os.path.dirname(tree), "stage")
    os.makedirs(stage)
    open(os.path.join(stage, "demo.sh"), "w").write(
        '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py" > /dev/null\n')
    os.chmod(os.path.join(stage, "demo.sh"), 0o755)
    open(os.path.join(stage, "demo.py"), "w").write((m.UTIL if b.get("util", True) else "") + b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(stage, "meta.json"), "w"), indent=1)
    r = sh(["sh", os.path.join(stage, "demo.sh")], tree, timeout=300)
    if r.returncode:
        return "DEMO FAILS UNPATCHED: " + r.stderr[-1500:]
    for f, old, new in b["edits"]:
        p = os.path.join(tree, "col_gen_estimator", f)
        s = open(p).read()
        if s.count(old) < 1:
            return f"EDIT NOT FOUND: {old!r}"
        n = b.get("count", 1)
        s = s.replace(old, new, n)
        open(p, "w").write(s)
    open(os.path.join(stage, "patch.diff"), "w").write(sh(["git", "diff"], tree).stdout)
    bad = stable_ok(tree)
    if bad:
        return f"TESTS FAIL: {bad[:5]}"
    r = sh(["sh", os.path.join(stage, "demo.sh")], tree, timeout=300)
    if r.returncode == 0:
        return "DEMO PASSES WITH THE BUG"
    why = r.stderr.strip().splitlines()[-1:] or [""]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(stage, d)
    msg = f"planted ({why[0][:90]})"
    for c in (os.environ.get("CHECKS", "") and [b["prop"]] + b.get("also", [])):
        r = sh([os.path.join(VERIF, "check"), c, "quick"], VERIF, dict(os.environ, VERIF_REPO=tree, DST_EVIDENCE="0"), timeout=900)
        v = [x for x in r.stdout.splitlines() if " run " in x][:1]
        msg += f"\n    {c}: exit {r.returncode} {v[0][:220] if v else r.stderr[-300:]}"
    return msg


if __name__ == "__main__":
    main()
