"""Collects tree problems whose LP over all paths has a fractional optimum: dst/fractional.json (about 2% of random ones)."""
import json
import os
import random
import sys
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def work(seed):
    from dst import dtree
    rng = random.Random(seed)
    out = []
    for _ in range(250):
        sc = dtree.gen_problem(rng, depths=(2, 2, 3), nmax=rng.choice([8, 15, 25]), cmax=rng.choice([2, 3, 4]))
        if rng.random() < 0.7:
            dtree.frustrate(rng, sc)
        elif sc["depth"] == 3 and len(sc["X"]) > 15:
            continue
        z = dtree.lp_all(dtree.Desc(sc), True)
        if abs(z - round(z)) > 1e-6:
            out.append({k: sc[k] for k in ("depth", "X", "y", "splits", "cand", "dtype")})
    return out


if __name__ == "__main__":
    seen, res = set(), []
    with Pool(8) as p:
        for o in p.imap(work, range(300)):
            for q in o:
                k = json.dumps([q["X"], q["y"], q["cand"]])
                if k not in seen:
                    seen.add(k)
                    res.append(q)
    with open(os.path.join(VERIF, "dst", "fractional.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(q) for q in res[:300]) + "\n]\n")
    print(len(res))
