"""How much of a function do the deductive contracts pin down?

  mutate.py CONTRACT [-f module:function]... [-j N] [-n MAX]

Applies small changes to the functions of a contract, one at a time, in a scratch
copy of the package, and asks whether the obligations (proof and bounded cases; the
run-time checks are left out) are still all discharged.  Changes that survive are
listed: equivalent code, or something the contract does not say.
Not one of the checks; a measure of the contracts.
"""
import argparse
import ast
import copy
import glob
import importlib
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.And: [ast.Or], ast.Or: [ast.And], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def noise(n):
    s = ast.unparse(n)
    return "logger." in s or "jit_print" in s or s.startswith(("print(", "'", '"', "raise "))


def sites(fn):
    """(description, change) for one function node; change(node at the same position of a copy)"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.FunctionDef)) and noise(n):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.JoinedStr, ast.arguments)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip |= {id(x) for x in ast.walk(n.msg)}
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in SWAP.get(type(op), []):
                    yield k, f"{type(op).__name__}->{new.__name__}", lambda m, j=j, new=new: m.ops.__setitem__(j, new())
        elif isinstance(n, (ast.BinOp, ast.BoolOp, ast.AugAssign)):
            for new in SWAP.get(type(n.op), []):
                yield k, f"{type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new())
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield k, "flip constant", lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, (int, float)):
                yield k, "constant + 1", lambda m: setattr(m, "value", m.value + 1)
                if n.value not in (0, 1):
                    yield k, "constant - 1", lambda m: setattr(m, "value", m.value - 1)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield k, "drop minus", lambda m: setattr(m, "op", ast.UAdd())
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield k, "negate condition", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, ast.Call) and not noise(n):
            for j in range(len(n.args) - 1):
                if ast.unparse(n.args[j]) != ast.unparse(n.args[j + 1]) and not any(isinstance(x, ast.Starred) for x in n.args):
                    def sw(m, j=j):
                        m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    yield k, f"swap arguments {j},{j + 1}", sw
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Return)) and n is not fn:
            yield k, "delete statement", "delete"


def mutants(src, qual):
    tree = ast.parse(src)
    parts = qual.split(".")

    def find(t):
        cur = t
        for p in parts:
            cur = next((x for x in ast.walk(cur) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == p), None)
            if cur is None:
                return None
        return cur

    fn = find(tree)
    if not isinstance(fn, ast.FunctionDef):
        return
    for k, what, change in list(sites(fn)):
        t = copy.deepcopy(tree)
        f = find(t)
        node = list(ast.walk(f))[k]
        line = getattr(node, "lineno", f.lineno)
        text = ast.unparse(node).split("\n")[0][:90]
        if change == "delete":
            for p in ast.walk(f):
                for field in ("body", "orelse", "finalbody"):
                    b = getattr(p, field, None)
                    if isinstance(b, list) and node in b:
                        b[b.index(node)] = ast.copy_location(ast.Pass(), node)
        else:
            change(node)
        ast.fix_missing_locations(t)
        yield f"{qual}:{line} {what}: {text}", ast.unparse(t)


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "contracts", "*.py"))):
        nm = os.path.basename(f)[:-3]
        if nm != "__init__":
            importlib.import_module("contracts." + nm)


def decide(c, repo, limit):
    from pyvc import contract as pc

    t0 = time.time()
    left = lambda: max(2.0, limit - (time.time() - t0))
    notes = []
    if c.inputs:
        r = pc.prove(c, c.inputs, "", True, c.timeout, min(c.wall, left()), c.max_paths, repo)
        st = r.status
        if st == "proved" and not r.vacuous:
            return "survived", "proof"
        why = (r.failures or r.unknowns or [(None, None)])[0][0]
        notes.append(f"proof {st}: {why.name if why is not None else r.unsupported[:1]}")
        if st == "refuted" and not c.bounded:
            return "caught", notes[-1]
    und = False
    for lab, f in c.bounded or []:
        r = pc.prove(c, f, lab, False, c.timeout, min(c.bounded_wall or 60, left()), c.max_paths, repo)
        if r.status == "refuted":
            return "caught", f"bounded: {r.failures[0][0].name}"
        und = und or r.status != "proved" or r.vacuous
        if r.status != "proved":
            notes.append(f"{lab[:40]}: {r.status} {str(r.unsupported[:1])[:120]}")
    if und or not c.bounded:
        return "undecided", "; ".join(notes)[:300]
    if notes and "inv" not in notes[0]:
        return "caught-unbounded", notes[0]
    return "survived", "bounded; " + "; ".join(notes)[:200]


def work(job):
    name, fq, what, text, limit = job
    from pyvc import contract as pc

    d = tempfile.mkdtemp(prefix="verif_mut_")
    try:
        shutil.copytree(os.path.join(REPO, "building3d"), os.path.join(d, "building3d"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "resources"))
        mod = fq.split(":")[0].replace(".", "/")
        p = os.path.join(d, mod + ".py")
        if not os.path.exists(p):
            p = os.path.join(d, mod, "__init__.py")
        with open(p, "w") as f:
            f.write(text)
        try:
            return what, *decide(pc.REGISTRY[name], d, limit)
        except Exception as e:
            return what, "undecided", f"{type(e).__name__}: {e}"[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("contract")
    ap.add_argument("-f", action="append", default=[])
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-t", type=float, default=60)
    a = ap.parse_args()
    load()
    from pyvc import contract as pc

    c = pc.REGISTRY[a.contract]
    jobs = []
    for fq in a.f or c.functions or [c.fq]:
        mod, q = fq.split(":")
        p = os.path.join(REPO, mod.replace(".", "/"))
        p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        for what, text in mutants(open(p).read(), q):
            jobs.append((a.contract, fq, what, text, a.t))
    if a.n and len(jobs) > a.n:
        jobs = jobs[:: max(1, len(jobs) // a.n)]
    count = {}
    with mp.Pool(a.j) as pool:
        for what, res, why in pool.imap(work, jobs):
            count[res] = count.get(res, 0) + 1
            if res in ("survived", "undecided"):
                print(f"{res:10} {what}   [{why}]", flush=True)
    print(a.contract, count)


if __name__ == "__main__":
    main()
