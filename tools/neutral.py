"""Runs checks against edits that change no behaviour (neutral/*.diff): tools/neutral.py [DIFF ...]

CHECKS="C01 C02": only these.  DIV=3: a third of the quick runs.  PAR=2: two at a time.  Everything must be quiet (exit 0).
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from mutate import QUICK  # noqa: E402


def one(i, checks, div, workers):
    base = tempfile.mkdtemp(prefix="neutral-")
    tree = os.path.join(base, "repo")
    bad = []
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "-C", tree, "apply", os.path.join(VERIF, "neutral", i + ".diff")], check=True)
        for c in checks:
            env = dict(os.environ, VERIF_REPO=tree, DST_EVIDENCE="0", DST_WORKERS=str(workers))
            if c in QUICK and div > 1:
                env["DST_RUNS"] = str(QUICK[c] // div)
            r = subprocess.run([os.path.join(VERIF, "check"), c, "quick"], cwd=VERIF, capture_output=True, text=True, env=env)
            if r.returncode:
                why = [x for x in r.stdout.splitlines() if c + " run" in x] or r.stdout.splitlines()[-1:] + r.stderr.splitlines()[-1:]
                bad.append(f"{c} exit {r.returncode} {why[0][:300] if why else ''}")
    finally:
        shutil.rmtree(base)
    return i, bad


def main():
    ids = sys.argv[1:] or sorted(f[:-5] for f in os.listdir(os.path.join(VERIF, "neutral")) if f.endswith(".diff"))
    checks = os.environ.get("CHECKS", "").split() or ["C%02d" % k for k in range(1, 21)]
    par = int(os.environ.get("PAR", "1"))
    with cf.ThreadPoolExecutor(par) as ex:
        for i, bad in ex.map(lambda i: one(i, checks, int(os.environ.get("DIV", "1")), max(1, 8 // par)), ids):
            print(f"{i:24s} {'; '.join(bad) or 'quiet'}", flush=True)


if __name__ == "__main__":
    main()
