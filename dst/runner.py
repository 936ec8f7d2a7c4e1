"""Runs one check: seeded search over scenarios in parallel worker processes, minimisation, replay files, evidence."""
import collections
import copy
import faulthandler
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
RUN_LIMIT = float(os.environ.get("DST_RUN_LIMIT", "100"))        # real seconds before a run is suspected to hang


def load(check):
    return importlib.import_module("dst.checks." + check.lower())


# ---------------------------------------------------------------- one run

def run_scenario(mod, sc, keep_log=False):
    from . import core, seams
    import numpy as np
    seams.install()
    seams.fresh()
    np.random.seed(12345)
    out = {"violation": None, "harness": None}
    sim = core.Sim(sc, step_limit=getattr(mod, "STEP_LIMIT", 200000))
    sim.keep_log = keep_log
    try:
        with sim, seams.quiet():
            mod.execute(sim, sc)
        if sim.soft:
            known = [k["kind"] for k in known_findings(mod.ID)]
            out["violation"] = sorted(sim.soft, key=lambda v: v[0] in known)[0]
    except core.Violation as v:
        out["violation"] = [v.kind, str(v.detail)[:3000]]
    except core.StepLimit as e:
        out["violation"] = ["no_progress", str(e)]
    except core.HarnessError as e:
        out["harness"] = traceback.format_exc()[-4000:]
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        pk = os.path.realpath(seams.REPO) + os.sep
        inpkg = [f for f in tb if os.path.realpath(f.filename).startswith(pk)]
        last_h = max([i for i, f in enumerate(tb) if f.filename.startswith(VERIF)] or [-1])
        last_p = max([i for i, f in enumerate(tb) if os.path.realpath(f.filename).startswith(pk)] or [-1])
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        seam_last = last_h > last_p and any(s in tb[last_h].filename for s in ("solvers.py", "seams.py", "threads.py"))
        if inpkg and (last_p > last_h or seam_last):
            f = tb[last_p]
            out["violation"] = ["exception:" + type(e).__name__, txt]
        else:
            out["harness"] = txt
    finally:
        core.Sim.current = None
    out.update(digest=sim.digest(), steps=sim.nsteps, log=sim.nlog, fired=sim.fired, probes=sim.probes,
               simtime=sim.now - sim.start, states=len(sim.states), stub=sim.stub_calls,
               stateset=sorted(sim.states)[:400], tail=sim.tail[-25:] if out["violation"] else None)
    if keep_log:
        out["full_log"] = sim.full_log
    return out


def worker_main():
    """Reads JSON jobs on stdin, answers on stdout (one line each)."""
    check = sys.argv[2]
    faulthandler.register(signal.SIGUSR1, file=os.fdopen(os.dup(2), "w"), all_threads=False)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    mod = load(check)
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        job = json.loads(line)
        if "scenario" in job:
            sc = job["scenario"]
        else:
            sc = make(mod, job["seed"], job["i"], job["tier"])
        t = time.monotonic()
        r = run_scenario(mod, sc, job.get("log", False))
        r["wall"] = time.monotonic() - t
        r["i"] = job.get("i")
        if r["violation"] or r["harness"]:
            r["scenario"] = sc
        real_out.write(json.dumps(r, default=str) + "\n")
        real_out.flush()


def make(mod, seed, i, tier):
    from .core import lrng
    sc = mod.generate(lrng(mod.ID, seed, i), i, tier)
    sc["check"] = mod.ID
    return json.loads(json.dumps(sc))


class Worker:
    def __init__(self, check, hashseed="0"):
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONPATH=VERIF)
        self.stacks = tempfile.TemporaryFile("w+")
        self.p = subprocess.Popen([PY, "-m", "dst.runner", "worker", check], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.stacks, text=True, cwd=VERIF, env=env)

    def ask(self, job, limit=None):
        """Returns the answer, or None when the run hung or the process died."""
        box = {}

        def rd():
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                box["l"] = self.p.stdout.readline()
            except (OSError, ValueError):
                box["l"] = ""
        th = threading.Thread(target=rd, daemon=True)
        th.start()
        th.join(limit or RUN_LIMIT)
        if th.is_alive():
            stuck = self.in_solver(th)
            self.kill()
            th.join(5)
            return {"hang": True, "stuck": stuck}
        if not box.get("l"):
            self.kill()
            return {"died": True}
        return json.loads(box["l"])

    def in_solver(self, th):
        """Is the process inside one call of a solver that does not return (nothing the library could do about)?"""
        tops = []
        for _ in range(5):
            try:
                self.stacks.seek(0)
                self.stacks.truncate()
                self.p.send_signal(signal.SIGUSR1)
                time.sleep(1.0)
                self.stacks.seek(0)
                lines = [x for x in self.stacks.read().splitlines() if x.strip().startswith("File ")]
                tops.append(lines[0] if lines else "")
            except Exception:
                return False
        return len(set(tops)) == 1 and any(q in tops[0] for q in ("/ortools/", "/scipy/"))

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def fresh(check, sc, prelude=(), log=False, hashseed="0"):
    w = Worker(check, hashseed)
    try:
        for p in prelude:
            r = w.ask({"scenario": p})
            if r.get("hang") or r.get("died"):
                return r
        return w.ask({"scenario": sc, "log": log})
    finally:
        w.kill()


def vkind(r):
    if r is None:
        return None
    if r.get("hang"):
        return "solver_stuck" if r.get("stuck") else "hang"
    if r.get("died"):
        return "crash"
    return r["violation"][0] if r["violation"] else None


# ---------------------------------------------------------------- minimisation

def list_cuts(n):
    k = n
    while k >= 1:
        for a in range(0, n, k):
            yield a, min(n, a + k)
        k //= 2


def generic_shrinks(sc):
    fs = sc.get("faults")
    if fs:
        for a, b in list_cuts(len(fs)):
            c = dict(sc)
            c["faults"] = fs[:a] + fs[b:]
            yield c


def minimise(check, mod, sc, kind, budget=75.0):
    t0 = time.monotonic()
    w = Worker(check)
    tried = 0
    seen = set()
    progress = True
    lim = 30
    try:
        while progress and time.monotonic() - t0 < budget:
            progress = False
            gens = [generic_shrinks(sc)]
            if hasattr(mod, "shrink"):
                gens.append(mod.shrink(copy.deepcopy(sc)))
            for g in gens:
                for cand in g:
                    if time.monotonic() - t0 > budget:
                        break
                    key = json.dumps(cand, sort_keys=True)
                    if key in seen:
                        continue
                    seen.add(key)
                    tried += 1
                    r = w.ask({"scenario": cand}, limit=lim)
                    if r.get("hang") or r.get("died"):
                        w = Worker(check)
                    if vkind(r) == kind:
                        sc = cand
                        progress = True
                        break
                if progress:
                    break
    finally:
        w.kill()
    return sc, tried


# ---------------------------------------------------------------- the check

def known_findings(check):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == check]


def main():
    check = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    mod = load(check)
    nruns = mod.RUNS[tier]
    if os.environ.get("DST_RUNS"):
        nruns = int(os.environ["DST_RUNS"])
    cap = float(os.environ.get("DST_CAP", "400" if tier == "quick" else "5400"))
    W = int(os.environ.get("DST_WORKERS", "8"))
    t0 = time.monotonic()
    stop = threading.Event()
    results, viols, errs, stuck = [], [], [], []
    lock = threading.Lock()

    def drive(wi):
        w = Worker(check)
        hist = []
        for i in range(wi, nruns, W):
            if stop.is_set() or time.monotonic() - t0 > cap:
                break
            r = w.ask({"seed": seed, "tier": tier, "i": i})
            if r.get("stuck"):
                with lock:
                    stuck.append(i)
                    if len(stuck) > 5:
                        stop.set()
                w, hist = Worker(check), []
                continue
            if r.get("hang") or r.get("died"):
                with lock:
                    viols.append((i, r, list(hist)))
                w = Worker(check)
                hist = []
                stop.set()
                continue
            with lock:
                results.append(r)
                if r["harness"]:
                    errs.append((i, r))
                    if len(errs) > 20:
                        stop.set()
                if r["violation"]:
                    if not is_known(check, mod, r):
                        viols.append((i, r, list(hist)))
                        stop.set()
            hist.append(i)
        w.kill()
    ths = [threading.Thread(target=drive, args=(k,)) for k in range(W)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    explore = time.monotonic() - t0
    known = [r for r in results if r["violation"] and is_known(check, mod, r)]
    status = 0
    for k in known_findings(check):
        n = sum(1 for r in known if r["violation"][0] == k["kind"])
        print(f"KNOWN-FINDING: property={check} {k['what']} (seen in {n} runs)")
    replay = None
    if viols:
        viols.sort(key=lambda v: v[0])
        for i, r, hist in viols[:4]:
            replay = report(check, mod, seed, tier, i, r, hist)
            if replay:
                print(f"VIOLATION property={check} replay={replay}")
                status = 1
                break
        if status == 0:
            print("suspected violation did not reproduce in a fresh process", file=sys.stderr)
            for i, r, hist in viols[:3]:
                print(json.dumps(r)[:3000], file=sys.stderr)
            status = 2
    elif len(stuck) > 5:
        print(f"a solver did not return in runs {stuck}", file=sys.stderr)
        status = 2
    elif errs:
        for i, r in errs[:3]:
            print(f"harness error in run {i}:\n{r['harness']}", file=sys.stderr)
        status = 2
    if stuck:
        print(f"undecided: a solver call did not return in runs {stuck}")
    evidence(check, mod, tier, seed, results, known, explore, time.monotonic() - t0, 1 if status == 1 else 0, replay)
    n = len(results)
    print(f"{check} {tier} seed={seed}: {n} runs in {explore:.1f}s, "
          f"{len(set(r['digest'] for r in results))} distinct, exit {status}")
    sys.stdout.flush()
    os._exit(status)


def is_known(check, mod, r):
    for k in known_findings(check):
        if k["kind"] == r["violation"][0]:
            return True
    return False


def report(check, mod, seed, tier, i, r, hist):
    """Confirm in a fresh process, minimise, write the replay file, verify it."""
    sc = r.get("scenario") or make(mod, seed, i, tier)
    kind = vkind(r)
    prelude = []
    f = fresh(check, sc)
    if vkind(f) != kind:
        pre = [make(mod, seed, h, tier) for h in hist]
        f = fresh(check, sc, pre)
        if vkind(f) != kind:
            if vkind(f) is None:
                return None
            kind = vkind(f)
        # keep only what is needed of the process history
        t0 = time.monotonic()
        k = 1
        while k < len(pre) and time.monotonic() - t0 < 60:
            if vkind(fresh(check, sc, pre[-k:])) == kind:
                pre = pre[-k:]
                break
            k *= 2
        prelude = pre
    small, tried = sc, 0
    if not prelude and kind not in ("hang",):
        small, tried = minimise(check, mod, sc, kind)
        f2 = fresh(check, small, log=True)
        if vkind(f2) != kind:
            small = sc
    f1 = fresh(check, small, prelude)
    f2 = fresh(check, small, prelude, hashseed="7")
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check}-{seed}-{i}.json")
    json.dump({"property": check, "seed": seed, "tier": tier, "run": i, "kind": kind,
               "detail": (f1.get("violation") or [None, "hang"])[1], "digest": f1.get("digest"),
               "same_digest_twice": f1.get("digest") == f2.get("digest"),
               "minimisation_runs": tried, "faults_fired": f1.get("fired"), "prelude": prelude,
               "scenario": small, "event_tail": f1.get("tail"),
               "replay_cmd": f"{PY} -m dst.runner replay {path}"}, open(path, "w"), indent=1, default=str)
    print(f"{check} run {i}: {kind}: {str((f1.get('violation') or [0, 'hang'])[1])[:1500]}")
    return path


def replay_main():
    rp = json.load(open(sys.argv[2]))
    f = fresh(rp["property"], rp["scenario"], rp.get("prelude") or ())
    k = vkind(f)
    same = k == rp["kind"] and f.get("digest") == rp["digest"]
    print(f"replay: kind={k} digest={f.get('digest')} same={same}")
    if f.get("violation"):
        print(f["violation"][1])
    if k == rp["kind"]:
        print(f"VIOLATION property={rp['property']} replay={sys.argv[2]}")
        sys.exit(1)
    sys.exit(0)


def evidence(check, mod, tier, seed, results, known, explore, wall, nviol, replay):
    fired, probes, stub = collections.Counter(), collections.Counter(), collections.Counter()
    states = set()
    for r in results:
        fired.update(r["fired"])
        probes.update(r["probes"])
        stub.update(r["stub"])
        states.update(r["stateset"])
    n = len(results)
    dig = collections.Counter(r["digest"] for r in results)
    nontriv = len(set(r["digest"] for r in results if r["log"] >= getattr(mod, "MIN_LOG", 3)
                      and (r["fired"] or r["probes"].get("nontrivial"))))
    sample = []
    for i in (0, 1, nruns_mid(n)):
        try:
            s = make(mod, seed, i, tier)
            sample.append(json.loads(json.dumps(s)) if len(json.dumps(s)) < 6000 else
                          {"truncated": json.dumps(s)[:3000]})
        except Exception:
            pass
    ev = {"property": check, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": n, "distinct_nontrivial": nontriv, "rule": mod.RULE, "samples": sample,
              "runs_per_hour": round(n / explore * 3600) if explore else 0,
              "seeds_per_hour": round(n / explore * 3600) if explore else 0,
              "simulated_seconds": round(sum(r["simtime"] for r in results), 3),
              "simulated_steps": sum(r["steps"] for r in results),
              "fault_kinds_fired": dict(sorted(fired.items())),
              "runs_with_a_fault": sum(1 for r in results if r["fired"]),
              "probes": dict(sorted(probes.items())),
              "distinct_event_logs": len(dig),
              "distinct_states": len(states),
              "distinct_states_measure": "distinct (site, status, objective, model size / stream length or loop "
                                         "state) tuples seen at the seams, at most 400 per run",
              "component_calls": dict(sorted(stub.items())),
              "real_components": getattr(mod, "REAL_COMPONENTS", "whole library under /repo; OR-Tools solvers (single-threaded); scikit-learn; numpy"),
              "stubbed_components": getattr(mod, "STUBS", "clocks, random module, solver answers where a fault fired, CP-SAT solution delivery"),
              "known_findings_seen": dict(collections.Counter(r["violation"][0] for r in known)),
          },
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
              "sampling: a clean batch is evidence for the explored scenarios, not a proof"],
          "wall_s": round(wall, 2), "violations": nviol}
    if replay:
        ev["coverage"]["replay"] = replay
    if os.environ.get("DST_EVIDENCE") == "0":
        return
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", check + ".json"), "w"), indent=1)


def nruns_mid(n):
    return max(2, n // 2)


def determinism_main():
    """determinism CHECK N: every scenario several times, across processes, worker counts and hash seeds; logs must be equal."""
    check, n = sys.argv[2], int(sys.argv[3])
    mod = load(check)
    seeds = [int(s) for s in (sys.argv[4] if len(sys.argv) > 4 else "1").split(",")]
    table = {}
    bad = []
    lock = threading.Lock()

    def drive(hs, idx):
        w = Worker(check, hs)
        for s, i in idx:
            r = w.ask({"seed": s, "tier": "quick", "i": i})
            d = (r.get("digest"), vkind(r))
            with lock:
                o = table.setdefault((s, i), d)
                if o != d:
                    bad.append((s, i, o, d))
        w.kill()
    jobs = [(s, i) for s in seeds for i in range(n)]
    for hs, nw in (("0", 8), ("0", 3), ("1", 5), ("31337", 8)):
        order = list(jobs) if hs != "1" else list(reversed(jobs))
        ths = [threading.Thread(target=drive, args=(hs, order[k::nw])) for k in range(nw)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    print(f"determinism {check}: {len(jobs)} scenarios x 4 passes, {len(bad)} divergences", bad[:3])
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    if sys.argv[1] == "worker":
        worker_main()
    elif sys.argv[1] == "replay":
        replay_main()
    elif sys.argv[1] == "determinism":
        determinism_main()
    else:
        main()
