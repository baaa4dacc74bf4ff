"""Decides one property: verifies its contracts on /repo's current source.

usage: check.py PROPERTY [quick|thorough]
"""

import importlib
import json
import multiprocessing
import os
import pkgutil
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    """Contracts of a property."""
    import contracts
    out = []
    for info in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda i: i.name):
        path = os.path.join(ROOT, "contracts", info.name + ".py")
        with open(path, encoding="utf-8") as file_object:
            if f'"{prop}"' not in file_object.read():
                continue
        module = importlib.import_module("contracts." + info.name)
        out.extend(c for c in module.CONTRACTS if c.prop == prop)
    return out


def worker(args):
    """Verifies (or replays) one contract in its own process."""
    module_name, name, tier, seed = args
    result = {"name": name, "ok": False, "error": None, "failures": [],
              "obligations": 0, "names": {}, "paths": 0, "seconds": 0.0,
              "queries": 0, "solver_s": 0.0, "loops": 0, "seen": [], "targets": [],
              "assumptions": [], "restarts": 0, "bounded": None, "cases": 0,
              "witness": None}
    try:
        module = importlib.import_module(module_name)
        contract = next(c for c in module.CONTRACTS if c.name == name)
        result["targets"] = list(contract.targets)
        result["assumptions"] = list(contract.assumptions)
        result["bounded"] = contract.bounded
        from engine import replay
        first = []
        if contract.bounded is None:
            from engine.verify import Explorer
            r = Explorer(contract).verify()
            result.update(
                ok=r.ok, error=r.error, obligations=r.obligations, names=r.names,
                paths=r.paths, seconds=r.seconds, queries=r.queries,
                solver_s=r.solver_s, loops=r.loops, restarts=r.restarts,
                seen=sorted(contract.seen))
            for failure in r.failures:
                result["failures"].append({
                    "obligation": failure.what, "detail": failure.detail[:4000],
                    "where": failure.where, "exact": failure.exact})
                first.append(getattr(failure, "inputs", None))
            missing = [t for t in contract.targets if t not in contract.seen
                       and not t.startswith("*")]
            result["not_reached"] = missing
        else:
            result["ok"] = True
        # cross-check of the engine against CPython / search of a failing input
        seconds = (4 if tier == "quick" else 30) if result["ok"] else (
            40 if tier == "quick" else 180)
        if contract.bounded is not None:
            seconds = 10 if tier == "quick" else 120
        found, cases = replay.search(
            contract, seed, seconds, first,
            max_cases=2000 if result["ok"] and contract.bounded is None
            and tier == "quick" else 10**7)
        result["cases"] = cases
        if found:
            inputs, code, spec = found
            result["witness"] = {
                "inputs": replay.jsonable(inputs), "code": repr(code)[:2000],
                "specification": repr(spec)[:2000]}
    except BaseException as exception:  # pylint: disable=broad-except
        result["ok"] = False
        result["error"] = "engine: " + "".join(
            traceback.format_exception(exception))[-2000:]
    return result


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    load_error = None
    try:
        contracts_ = load(prop)
    except BaseException as exception:  # pylint: disable=broad-except
        contracts_ = []
        load_error = "".join(traceback.format_exception(exception))[-3000:]
    tasks = [(c.code.__module__ if not hasattr(c, "module") else c.module, c.name,
              tier, seed) for c in contracts_]
    results = []
    if tasks:
        # a fresh process per contract; memory is released and hangs are contained
        with multiprocessing.get_context("fork").Pool(
                min(8, len(tasks)), maxtasksperchild=1) as pool:
            pending = [(t, pool.apply_async(worker, (t,))) for t in tasks]
            deadline = t0 + (780 if tier == "quick" else 7000)
            for task, handle in pending:
                try:
                    results.append(handle.get(max(1, deadline - time.time())))
                except multiprocessing.TimeoutError:
                    results.append({
                        "name": task[1], "ok": False, "error": "time limit",
                        "failures": [], "obligations": 0, "names": {}, "paths": 0,
                        "seconds": 0, "queries": 0, "solver_s": 0, "loops": 0,
                        "seen": [], "targets": [], "assumptions": [], "cases": 0,
                        "witness": None, "bounded": None, "restarts": 0})
            pool.terminate()
    findings = known_findings(prop)
    violations = []
    for r in results:
        if r["ok"] and not r["witness"]:
            continue
        known = [f for f in findings if f["contract"] == r["name"]]
        if r["witness"] and known:
            pass
        path = os.path.join("replay", f"{prop}-{r['name'].replace('/', '_')}.json")
        with open(os.path.join(ROOT, path), "w", encoding="utf-8") as file_object:
            json.dump({
                "property": prop, "contract": r["name"],
                "functions": r["targets"],
                "failed_obligations": r["failures"],
                "verifier_error": r["error"],
                "failing_input": r["witness"],
                "replay": f"bin/py -m engine.replay_file {path}",
            }, file_object, indent=1)
        violations.append((r, path))
    if load_error or not tasks:
        path = os.path.join("replay", f"{prop}-load.json")
        with open(os.path.join(ROOT, path), "w", encoding="utf-8") as file_object:
            json.dump({"property": prop, "verifier_error": load_error or
                       "no contracts"}, file_object, indent=1)
        violations.append(({"name": "load", "witness": None, "failures": [],
                            "error": load_error or "no contracts"}, path))

    proved = [r for r in results if r["ok"] and not r["witness"] and not r["bounded"]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(r["obligations"] for r in proved),
            "checker_cmd": f"bin/py -m engine.check {prop} {tier}",
            "trusted_base": TRUSTED,
            "contracts": [{
                "name": r["name"], "proved": bool(
                    r["ok"] and not r["witness"] and not r["bounded"]),
                "bounded": r["bounded"], "functions_under_contract": r["targets"],
                "functions_executed": r["seen"], "obligations": r["names"],
                "paths": r["paths"], "cut_loops": r["loops"],
                "invariant_restarts": r["restarts"],
                "solver_queries": r["queries"],
                "solver_seconds": round(r["solver_s"], 2),
                "seconds": round(r["seconds"], 2),
                "cpython_cross_checks": r["cases"],
                "not_reached": r.get("not_reached", []),
                "error": r["error"]} for r in results],
            "back_end": "z3 %s" % z3_version(),
            "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
        },
        "assumptions": sorted({a for r in results for a in r["assumptions"]}
                              | set(COMMON_ASSUMPTIONS)),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w",
              encoding="utf-8") as file_object:
        json.dump(evidence, file_object, indent=1)
    for r in results:
        status = "proved" if r["ok"] and not r["witness"] else "FAILED"
        if r["bounded"] and status == "proved":
            status = "bounded"
        print(f"{status:8s} {r['name']} obligations={r['obligations']} "
              f"paths={r['paths']} loops={r['loops']} cases={r['cases']} "
              f"{r['seconds']:.1f}s {(r['error'] or '')[:300]}")
        for failure in r["failures"]:
            print(f"    failed obligation: {failure['obligation']} at "
                  f"{failure['where']}")
        if r["witness"]:
            print("    failing input:", json.dumps(r["witness"])[:600])
    for finding in findings:
        print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    for r, path in violations:
        suffix = "" if r["witness"] else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{suffix}")
    print(f"{prop}: {len(proved)}/{len(results)} contracts proved, "
          f"{evidence['coverage']['discharged']} obligations discharged, "
          f"{evidence['wall_s']} s")
    sys.stdout.flush()
    os._exit(1 if violations else 0)


TRUSTED = [
    "z3 (satisfiability verdicts)",
    "/verif/engine: Python semantics of the verified subset (cross-checked against "
    "CPython on concrete inputs in every run)",
    "CPython parser (ast) of /repo's source",
]
COMMON_ASSUMPTIONS = [
    "integers are mathematical (exact for Python)",
    "file-like objects: read(n) returns min(n, available) bytes, negative absolute "
    "seeks raise OSError, no concurrent modification",
]


def z3_version():
    import z3
    return z3.get_version_string()


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as file_object:
            data = json.load(file_object)
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


if __name__ == "__main__":
    main()
