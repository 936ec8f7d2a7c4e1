"""Runs checks against the planted bugs: tools/seeded.py [ID ...]  (ALL=1: every check, not only the bug's property)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    d = os.path.join(VERIF, "seeded")
    for i in sys.argv[1:] or sorted(os.listdir(d)):
        meta = json.load(open(os.path.join(d, i, "meta.json")))
        base = tempfile.mkdtemp(prefix="seeded-")
        tree = os.path.join(base, "repo")
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "-C", tree, "apply", os.path.join(d, i, "patch.diff")], check=True)
        checks = [meta["property"]] if not os.environ.get("ALL") else ["C%02d" % k for k in range(1, 19)]
        for c in checks:
            r = subprocess.run([os.path.join(VERIF, "check"), c, "quick"], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=tree, DST_EVIDENCE="0"))
            why = [x for x in r.stdout.splitlines() if c + " run" in x] or r.stdout.splitlines()[-1:] + r.stderr.splitlines()[-1:]
            print(f"{i:36s} {c} exit {r.returncode} {why[0][:170] if why else ''}", flush=True)
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
