"""Mutation campaign: tools/mutate.py OUT.jsonl [--file NAME] [--max N] [--par P] [--div D] [--seed S]

Makes small one-place changes of the library's sources, keeps those that compile and pass the stable tests, and runs the
checks (with 1/D of their quick runs) against each until one reports a violation.  The survivors are what to look at:
either the change breaks no property, or a check is missing something.  Works in scratch copies; /repo is not touched.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import stable_ok  # noqa: E402

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "/repo/col_gen_estimator"
QUICK = {"C01": 12000, "C02": 12000, "C03": 12000, "C04": 12000, "C05": 12000, "C06": 1200, "C07": 1500, "C08": 700,
         "C09": 3000, "C10": 3000, "C11": 3000, "C12": 1500, "C13": 1500, "C14": 1500, "C15": 1500, "C16": 1200, "C17": 3000,
         "C18": 3000}
CHECKS = {"_col_gen_classifier.py": "C03 C02 C01 C04 C05 C17 C06 C07 C10 C13 C18",
          "_bdr_classifier.py": "C10 C09 C11 C07 C17 C06 C08 C03",
          "_dtree_classifier.py": "C14 C16 C13 C12 C15 C17 C08 C07 C06 C03",
          "_parameter_tuner.py": "C18 C17 C06 C07"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def off(src_lines, node, end=False):
    line, col = (node.end_lineno, node.end_col_offset) if end else (node.lineno, node.col_offset)
    return sum(len(x) for x in src_lines[:line - 1]) + col


def mutants(name):
    src = open(os.path.join(LIB, name)).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []

    def rep(a, b, text, what, line):
        out.append((line, what, src[:a] + text + src[b:]))

    def span(n):
        return off(lines, n), off(lines, n, True)

    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(tree):
        up = n
        skip = False
        while up in parents:
            up = parents[up]
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id == "print":
                skip = True
            if isinstance(up, (ast.FunctionDef,)) and up.name in ("print_path", "_more_tags", "print_vars"):
                skip = True
            if isinstance(up, ast.Assert):
                skip = True
        if skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = off(lines, n.left, True), off(lines, n.comparators[0])
            new = CMP[type(n.ops[0])]
            rep(a, b, f" {new} ", f"cmp {src[a:b].strip()} -> {new}", n.lineno)
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[src[a:b].strip().strip("()").strip()] if src[a:b].strip() in ("<", "<=", ">", ">=") else None
                if flip:
                    rep(a, b, f" {flip} ", f"cmp {src[a:b].strip()} -> {flip}", n.lineno)
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                rep(a, b, str(not v), f"const {v} -> {not v}", n.lineno)
            elif isinstance(v, (int, float)):
                for w in ({0: [1], 1: [0, 2], 2: [1, 3], -1: [0], 1e-6: [1e-2, -1e-2], 0.5: [0.0], 100: [3]}.get(v, [v + 1, v * 10])):
                    rep(a, b, repr(w), f"const {v} -> {w}", n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = off(lines, n.values[0], True), off(lines, n.values[1])
            t = src[a:b]
            new = t.replace("and", "or") if isinstance(n.op, ast.And) else t.replace("or", "and")
            rep(a, b, new, f"bool {t.split()[0] if t.split() else t} swapped", n.lineno)
            for v in n.values:                     # drop one operand
                a, b = span(v)
                rep(a, b, "True" if isinstance(n.op, ast.And) else "False", "operand dropped: " + src[a:b][:50], n.lineno)
        elif isinstance(n, ast.UnaryOp):
            a, b = span(n)
            c, d = span(n.operand)
            if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                rep(a, b, "(" + src[c:d] + ")", "unary minus dropped", n.lineno)
            elif isinstance(n.op, ast.Not):
                rep(a, b, "(" + src[c:d] + ")", "not dropped", n.lineno)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = off(lines, n.left, True), off(lines, n.right)
            t = src[a:b]
            if isinstance(n.op, ast.Add) and "+" in t and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                if not any(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in ast.walk(n)):
                    rep(a, b, t.replace("+", "-"), "+ -> -", n.lineno)
            elif isinstance(n.op, ast.Sub) and "-" in t:
                rep(a, b, t.replace("-", "+"), "- -> +", n.lineno)
            elif isinstance(n.op, ast.Mult) and "*" in t and isinstance(n.left, (ast.Name, ast.Subscript, ast.Attribute)):
                rep(a, b, t.replace("*", "+"), "* -> +", n.lineno)
        elif isinstance(n, ast.AugAssign):
            a, b = off(lines, n.target, True), off(lines, n.value)
            t = src[a:b]
            rep(a, b, t.replace("+=", "-=") if "+=" in t else t.replace("-=", "+="), f"{t.strip()} swapped", n.lineno)
            rep(a, b, " = ", f"{t.strip()} -> =", n.lineno)
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            rep(a, b, "break" if isinstance(n, ast.Continue) else "continue", "continue/break swapped", n.lineno)
            rep(a, b, "pass", "continue/break -> pass", n.lineno)
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            rep(a, b, "True", "if True: " + src[a:b][:60], n.lineno)
            rep(a, b, "False", "if False: " + src[a:b][:60], n.lineno)
        elif isinstance(n, ast.For):
            a, b = span(n.iter)
            rep(a, b, "list(" + src[a:b] + ")[1:]", "loop skips first", n.lineno)
            rep(a, b, "list(" + src[a:b] + ")[:-1]", "loop skips last", n.lineno)
            rep(a, b, "list(" + src[a:b] + ")[::-1]", "loop reversed", n.lineno)
        if isinstance(n, ast.Attribute) and ("left" in n.attr or "right" in n.attr):
            a, b = off(lines, n.value, True), off(lines, n, True)
            w = n.attr.replace("left", "@").replace("right", "left").replace("@", "right")
            rep(a, b, "." + w, f"{n.attr} -> {w}", n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            a, b = span(n)
            c, d = span(n.func.value)
            rep(a, b, src[c:d], "copy dropped", n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "copy":
            a, b = span(n)
            c, d = span(n.args[0])
            rep(a, b, src[c:d], "copy dropped", n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Expr) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print":
                continue
            a, b = span(n)
            rep(a, b, "pass", "deleted: " + " ".join(src[a:b].split())[:70], n.lineno)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            a, b = span(n)
            rep(a, b, "return None", "return None", n.lineno)
    good = []
    for line, what, s in out:
        try:
            compile(s, name, "exec")
        except SyntaxError:
            continue
        good.append((name, line, what, s))
    return good


def run_one(m, div, workers):
    name, line, what, s = m
    base = tempfile.mkdtemp(prefix="mut-")
    tree = os.path.join(base, "repo")
    res = {"file": name, "line": line, "what": what}
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        open(os.path.join(tree, "col_gen_estimator", name), "w").write(s)
        try:
            miss = stable_ok(tree)
        except Exception as e:                                     # noqa: BLE001
            miss = ["test run: " + type(e).__name__]
        if miss:
            res["end"] = "tests"
            return res
        res["end"] = "survived"
        for c in CHECKS[name].split():
            env = dict(os.environ, VERIF_REPO=tree, DST_EVIDENCE="0", DST_RUNS=str(QUICK[c] // div), DST_WORKERS=str(workers))
            try:
                r = subprocess.run([os.path.join(VERIF, "check"), c, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.setdefault("odd", []).append(c + " timeout")
                continue
            if r.returncode == 1:
                res["end"] = c
                res["why"] = next((x for x in r.stdout.splitlines() if "VIOLATION" not in x and x.strip()), "")[:160]
                return res
            if r.returncode != 0:
                res.setdefault("odd", []).append(c + f" exit {r.returncode}: " + (r.stderr.strip().splitlines() or [""])[-1][:120])
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    opt = dict(zip(args[::2], args[1::2]))
    files = [opt["--file"]] if "--file" in opt else list(CHECKS)
    ms = [m for f in files for m in mutants(f)]
    random.Random(int(opt.get("--seed", "1"))).shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(out))}
    ms = [m for m in ms if m[:3] not in done][:int(opt.get("--max", "100000"))]
    print(len(ms), "mutants", flush=True)
    par, div = int(opt.get("--par", "4")), int(opt.get("--div", "4"))
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda m: run_one(m, div, max(1, 8 // par)), ms):
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
