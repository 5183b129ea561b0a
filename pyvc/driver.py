"""Runs the contracts of a property, decides, writes evidence."""
from __future__ import annotations

import base64
import glob
import importlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np


def load_contracts(here):
    from . import contract as C

    if here not in sys.path:
        sys.path.insert(0, here)
    for f in sorted(glob.glob(os.path.join(here, "contracts", "*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return C.REGISTRY


def show(v, depth=0):
    """JSON-able rendering of an input"""
    if isinstance(v, np.ndarray):
        return {"array": v.tolist(), "dtype": str(v.dtype)} if v.size <= 400 else {"array": f"shape {v.shape}"}
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)) and depth < 6:
        return [show(x, depth + 1) for x in v]
    if isinstance(v, dict) and depth < 6:
        return {str(k): show(x, depth + 1) for k, x in v.items()}
    return repr(v)[:300]


# --------------------------------------------------------------------------- one contract
def run_contract(name, seed, tier):
    """executed in a worker process"""
    from . import contract as C
    from . import solver

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    ct = C.REGISTRY[name]
    res = {
        "contract": name,
        "functions": ct.functions,
        "status": "unknown",
        "obligations": 0,
        "discharged": 0,
        "bounded_obligations": 0,
        "bounded_discharged": 0,
        "backends": {},
        "solver_s": 0.0,
        "paths": 0,
        "runtime_checked": 0,
        "runtime_skipped": 0,
        "notes": [],
        "violations": [],
        "known": [],
        "obligation_names": [],
        "modular_callees": [],
        "inlined": [],
    }
    t0 = time.time()
    scale = 1 if tier == "quick" else 6

    def try_real(args, source, obligation=None, out=None):
        try:
            ok, bad, pre_ok = C.run_real(ct, args)
        except C.Unsupported:
            return None
        if not pre_ok:
            res["runtime_skipped"] += 1
            return None
        res["runtime_checked"] += 1
        if ok:
            return True
        kf = match_known(ct, args, bad)
        if kf:
            if kf not in res["known"]:
                res["known"].append(kf)
            return None
        res["violations"].append(
            {
                "source": source,
                "obligation": obligation or bad[0],
                "failed": bad,
                "inputs": {k: show(v) for k, v in args.items()},
                "pickle": try_pickle(args),
                "out": out,
            }
        )
        return False

    wanted = set()  # what the run-time harness expects of an input

    def runtime(n, sd, source):
        if ct.gen is None:
            return
        for i in range(n):
            rng = random.Random(f"{sd}:{name}:{i}")
            np.random.seed(rng.randrange(2**31))
            try:
                args = ct.gen(rng, i)
            except StopIteration:
                return
            if args is None:
                continue
            wanted.update(args)
            if try_real(args, source) is False:
                return

    # ---- run-time contract checking on the real code (replay oracle, sanity of the contract)
    try:
        runtime(ct.ngen * scale, seed, "runtime-check")
    except Exception as e:  # the harness itself failed: no verdict from it
        res["notes"].append(f"run-time checking stopped: {type(e).__name__}: {str(e)[:200]}")
        res["harness_error"] = True
    if res["violations"]:
        res["status"] = "violated"
        res["wall"] = time.time() - t0
        return res

    def account(r, bounded):
        n = r.proved + len(r.failures) + len(r.unknowns)
        pre = "bounded_" if bounded else ""
        res[pre + "obligations"] += n
        res[pre + "discharged"] += r.proved
        for k, v in r.by_backend.items():
            res["backends"][k] = res["backends"].get(k, 0) + v
        res["solver_s"] += r.solver_time + r.feas_time
        res["paths"] += r.npaths
        for k in r.names:
            if k not in res["obligation_names"]:
                res["obligation_names"].append(k)
        res["modular_callees"] = sorted(set(res["modular_callees"]) | r.prog.interp.used_contracts)
        res["inlined"] = sorted(set(res["inlined"]) | r.prog.interp.inlined)

    def replay(r, source):
        for o, c in r.failures:
            for args in C.counter_inputs(o, c):
                a = args
                if ct.to_real:
                    try:
                        a = ct.to_real(args)
                    except Exception:
                        continue
                elif not wanted <= set(a):
                    continue  # the harness takes other inputs: nothing to replay
                if try_real(a, source, obligation=f"{o.name} [{o.where}]", out=str(o.model)[:2000] if o.model is not None else None) is False:
                    return True
        return False

    def fmt(o):
        return f"{o.name} [{o.where}] ({o.kind}, {o.status} by {o.backend})"

    # ---- unbounded proof
    refuted = None
    if ct.inputs is not None:
        try:
            r = C.prove(ct, ct.inputs, "", True, ct.timeout * (1 if tier == "quick" else 3), ct.wall * (1 if tier == "quick" else 4), ct.max_paths)
            account(r, False)
            if r.status == "proved":
                if r.proved == 0:
                    res["notes"].append("no obligation was generated")
                elif r.vacuous:
                    res["notes"].append("assumptions are contradictory on every complete path (vacuous)")
                else:
                    res["status"] = "proved"
                    res["vacuity"] = "assumptions satisfiable on a complete path"
            elif r.status == "refuted":
                refuted = r
                res["notes"].append("refuted: " + "; ".join(fmt(o) for o, _ in r.failures))
                if replay(r, "counter-model"):
                    res["status"] = "violated"
                else:
                    try:
                        runtime(ct.ngen * scale * 3, seed + 7919, "search-after-refutation")
                    except Exception as e:
                        res["notes"].append(f"search stopped: {e}")
                    if res["violations"]:
                        res["status"] = "violated"
            else:
                if r.unsupported:
                    res["notes"].append("outside the verified subset: " + "; ".join(f"{m} [{w}]" for m, w in r.unsupported))
                for o, _ in r.unknowns:
                    res["notes"].append("unknown: " + fmt(o))
                if r.truncated:
                    res["notes"].append("path or time budget exhausted")
        except Exception as e:
            res["notes"].append(f"verifier error: {type(e).__name__}: {str(e)[:300]}")
            res["traceback"] = traceback.format_exc()[-1500:]
    # ---- bounded stand-in
    if res["status"] not in ("proved", "violated") and ct.bounded:
        allok, bref, nb = True, None, 0
        for label, inp in ct.bounded:
            try:
                r = C.prove(ct, inp, f" bounded {label}", False, ct.timeout, ct.bounded_wall, ct.max_paths)
            except Exception as e:
                res["notes"].append(f"verifier error (bounded {label}): {type(e).__name__}: {str(e)[:200]}")
                res["traceback"] = traceback.format_exc()[-1500:]
                allok = False
                continue
            account(r, True)
            if r.status == "proved" and not r.vacuous and r.proved:
                nb += 1
                continue
            allok = False
            if r.status == "refuted":
                res["notes"].append(f"bounded {label} refuted: " + "; ".join(fmt(o) for o, _ in r.failures))
                if replay(r, f"counter-model (bounded {label})"):
                    res["status"] = "violated"
                    break
                bref = r
            else:
                res["notes"].append(
                    f"bounded {label} undecided: "
                    + "; ".join([f"{m} [{w}]" for m, w in r.unsupported] + [fmt(o) for o, _ in r.unknowns[:3]] + (["budget"] if r.truncated else []) + (["vacuous"] if r.vacuous else []))
                )
        res["bounded_labels"] = [l for l, _ in ct.bounded]
        if res["status"] != "violated":
            if bref is not None:
                o = bref.failures[0][0]
                res["status"] = "violated"
                res["violations"].append(nofail(o))
            elif nb:
                res["status"] = "bounded"
                res["bounded_complete"] = allok
    if refuted is not None and res["status"] not in ("violated", "bounded"):
        o = refuted.failures[0][0]
        aux = o.kind == "inv"
        if not aux:
            res["status"] = "violated"
            res["violations"].append(nofail(o))
    if refuted is not None and res["status"] == "bounded":
        # the proof no longer goes through.  If the failing obligation does not depend on
        # auxiliary annotations (loop invariants, callee summaries), the refutation stands.
        o = refuted.failures[0][0]
        if o.kind != "inv" and not refuted.prog.interp.used_contracts and not refuted.__dict__.get("loops_cut"):
            res["status"] = "violated"
            res["violations"].append(nofail(o))
    if res["status"] == "unknown" and res["runtime_checked"]:
        res["status"] = "runtime-only"
    res["wall"] = time.time() - t0
    return res


def nofail(o):
    return {
        "source": "verifier",
        "obligation": f"{o.name} [{o.where}]",
        "failed": [o.name],
        "inputs": None,
        "pickle": None,
        "out": (f"kind={o.kind} backend={o.backend}\npath={o.path}\nmodel={o.model}\ngoal={o.goal}")[:6000],
        "nofail": True,
    }


def try_pickle(a):
    try:
        b = pickle.dumps(a)
        return base64.b64encode(b).decode() if len(b) < 200000 else None
    except Exception:
        return None


def match_known(ct, args, bad):
    for k in ct.known:
        try:
            if k["when"](args, bad):
                return k["text"]
        except Exception:
            pass
    return None


def worker(name, seed, tier, q, limit):
    try:
        signal.alarm(int(limit))
        r = run_contract(name, seed, tier)
    except BaseException as e:  # noqa
        r = {"contract": name, "status": "error", "notes": [f"{type(e).__name__}: {e}"], "traceback": traceback.format_exc()[-2000:], "violations": []}
    q.put(pickle.dumps(r))


def run_all(names, seed, tier, jobs=8, limit=600):
    """one process per contract, at most `jobs` at a time"""
    ctx = mp.get_context("fork")
    todo = list(names)
    running, out = {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            rd, wr = ctx.Pipe(False)

            def target(n=n, wr=wr):
                class Q:
                    def put(self, b):
                        wr.send_bytes(b)

                worker(n, seed, tier, Q(), limit)
                wr.close()

            p = ctx.Process(target=target)
            p.start()
            wr.close()
            running[n] = (p, rd, time.time())
        time.sleep(0.02)
        for n, (p, rd, t) in list(running.items()):
            if rd.poll():
                try:
                    out[n] = pickle.loads(rd.recv_bytes())
                except EOFError:
                    out[n] = None
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[n]
            elif not p.is_alive() or time.time() - t > limit + 10:
                p.kill()
                p.join()
                out[n] = None
                del running[n]
    for n in names:
        if out.get(n) is None:
            out[n] = {"contract": n, "status": "error", "notes": ["no result (time limit)"], "violations": [], "functions": []}
    return out


# --------------------------------------------------------------------------- main
BASE_ASSUMPTIONS = [
    "floats are treated as mathematical reals with explicit NaN/+inf flags; rounding is not modelled (run-time checks on the real code use a tolerance)",
    "integers are mathematical (int32 index arrays do not overflow)",
    "numba-compiled functions behave as their Python source (the verifier reads the source; run-time checks run it with NUMBA_DISABLE_JIT=1)",
    "numpy operations behave as in pyvc/npmodel.py (cross-checked against numpy by pyvc/selftest.py)",
    "logging, printing, annotations and docstrings are dropped from the verified text; decorators other than property/staticmethod are ignored",
    "the verifier itself (pyvc) and the solvers z3 and cvc5 are trusted",
]


def main(argv, here):
    if argv and argv[0] == "--replay":
        return replay_file(argv[1], here)
    if argv and argv[0] == "--selftest":
        from . import selftest

        return selftest.main(here)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i : i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = load_contracts(here)
    if argv and argv[0] == "--all":
        rc = 0
        props = sorted({p for c in reg.values() for p in c.props})
        for p in props:
            rc |= decide(p, reg, tier, seed, here)
        return rc
    if argv and argv[0] == "--contract":
        for n in argv[1:]:
            r = run_contract(n, seed, tier)
            for k in ("pickle",):
                for v in r["violations"]:
                    v.pop(k, None)
            r["obligation_names"] = len(r["obligation_names"])
            print(json.dumps(r, indent=1, default=str))
        return 0
    return decide(argv[0], reg, tier, seed, here)


def decide(pid, reg, tier, seed, here):
    t0 = time.time()
    names = [n for n, c in reg.items() if pid in c.props]
    if not names:
        print(f"no contracts for {pid}")
        return 2
    names.sort(key=lambda n: -reg[n].wall)
    limit = 700 if tier == "quick" else 3000
    out = run_all(names, seed, tier, jobs=int(os.environ.get("VERIF_JOBS", "8")), limit=limit)
    viol, known = [], []
    tot = dict(obligations=0, discharged=0, bobl=0, bdis=0, rt=0, solver=0.0)
    backends, funcs, per, assumptions = {}, set(), [], list(BASE_ASSUMPTIONS)
    for n in names:
        r = out[n]
        ct = reg[n]
        tot["obligations"] += r.get("obligations", 0)
        tot["discharged"] += r.get("discharged", 0)
        tot["bobl"] += r.get("bounded_obligations", 0)
        tot["bdis"] += r.get("bounded_discharged", 0)
        tot["rt"] += r.get("runtime_checked", 0)
        tot["solver"] += r.get("solver_s", 0.0)
        for k, v in r.get("backends", {}).items():
            backends[k] = backends.get(k, 0) + v
        funcs |= set(ct.functions)
        if r["status"] == "proved":
            lvl = "proved for all inputs of the contract"
        elif r["status"] == "bounded":
            lvl = "BOUNDED stand-in: " + "; ".join(r.get("bounded_labels", []))
        elif r["status"] == "runtime-only":
            lvl = "not proved: run-time contract checks only"
        else:
            lvl = r["status"]
        per.append(
            {
                "contract": n,
                "functions": ct.functions,
                "result": r["status"],
                "level": lvl,
                "obligations": r.get("obligations", 0),
                "discharged": r.get("discharged", 0),
                "bounded_obligations": r.get("bounded_obligations", 0),
                "bounded_discharged": r.get("bounded_discharged", 0),
                "paths": r.get("paths", 0),
                "runtime_checks": r.get("runtime_checked", 0),
                "callees_by_contract": r.get("modular_callees", []),
                "callees_inlined": r.get("inlined", []),
                "notes": r.get("notes", [])[:6],
                "solver_s": round(r.get("solver_s", 0.0), 2),
                "wall_s": round(r.get("wall", 0.0), 2),
                "obligation_names": r.get("obligation_names", [])[:60],
            }
        )
        if ct.note:
            assumptions.append(f"{n}: {ct.note}")
        for v in r["violations"]:
            v["contract"] = n
            viol.append(v)
        known += r.get("known", [])
        if r["status"] == "error":
            print(f"NOTE {pid} {n}: {r['notes']}")
            if os.environ.get("VERIF_DEBUG"):
                print(r.get("traceback", ""))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": manifest_level(here, pid) if tot["discharged"] else "other",
        "coverage": {
            "obligations": tot["obligations"],
            "discharged": tot["discharged"],
            "checker_cmd": f"/opt/venv/bin/python {here}/check.py {pid}",
            "trusted_base": ["pyvc (verification-condition generator over the AST of /repo, /verif/pyvc)", "z3", "cvc5", "the numpy model in pyvc/npmodel.py"],
            "explanation": "obligations/discharged count contracts proved for all inputs; bounded_* count stand-ins with the stated bound; runtime_contract_checks count executions of the real code whose contract was evaluated",
            "bounded_obligations": tot["bobl"],
            "bounded_discharged": tot["bdis"],
            "runtime_contract_checks": tot["rt"],
            "functions_under_contract": sorted(f for f in funcs if f),
            "contracts_proved": sum(1 for p in per if p["result"] == "proved"),
            "contracts_bounded": sum(1 for p in per if p["result"] == "bounded"),
            "contracts_runtime_only": sum(1 for p in per if p["result"] == "runtime-only"),
            "backends": backends,
            "solver_s": round(tot["solver"], 2),
            "contracts": per,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(here, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(
        f"{pid}: {len(names)} contracts, {tot['discharged']}/{tot['obligations']} obligations, "
        f"bounded {tot['bdis']}/{tot['bobl']}, run-time checks {tot['rt']}, {ev['wall_s']} s; "
        + ", ".join(f"{p['contract']}={p['result']}" for p in per)
    )
    if viol:
        viol.sort(key=lambda v: bool(v.get("nofail")))
        rp = os.path.join(evdir, f"replay_{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": viol}, f, indent=1, default=str)
        for v in viol[:5]:
            print(f"  obligation: {v['contract']}: {v['obligation']}")
        tail = " no-failing-input-found" if viol[0].get("nofail") else ""
        print(f"VIOLATION property={pid} replay={rp}{tail}")
        return 1
    if tot["discharged"] + tot["bdis"] + tot["rt"] == 0:
        print(f"{pid}: nothing could be checked")
        return 2
    return 0


def manifest_level(here, pid):
    """the level claimed for the property (a property of which only some steps are proved is not called proved)"""
    try:
        with open(os.path.join(here, "MANIFEST.json")) as f:
            return next(c["level"] for c in json.load(f)["checks"] if c["property"] == pid)
    except (OSError, ValueError, KeyError, StopIteration):
        return "other"


def replay_file(path, here):
    from . import contract as C

    reg = load_contracts(here)
    with open(path) as f:
        d = json.load(f)
    rc = 0
    for v in d["violations"]:
        if not v.get("pickle"):
            print(f"{v['contract']}: {v['obligation']}: no stored input\n{v.get('out')}")
            continue
        args = pickle.loads(base64.b64decode(v["pickle"]))
        ok, bad, pre = C.run_real(reg[v["contract"]], args)
        print(f"{v['contract']}: inputs {v['inputs']} -> {'holds' if ok else 'FAILS ' + str(bad)}")
        rc |= 0 if ok else 1
    return rc
