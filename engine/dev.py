import importlib, sys, time
from engine.verify import Explorer
def main():
    mod = importlib.import_module(sys.argv[1])
    verbose = "-v" in sys.argv
    for c in mod.CONTRACTS:
        if len(sys.argv) > 2 and sys.argv[2] != "-v" and sys.argv[2] not in c.name:
            continue
        r = Explorer(c, verbose).verify()
        print(("OK  " if r.ok else "FAIL"), c.name, f"paths={r.paths} obl={r.obligations} restarts={r.restarts} t={r.seconds:.1f}s q={r.queries} solver={r.solver_s:.1f}s", r.error or "")
        for f in r.failures:
            print("   ", f.what, f.where, f.detail[:600], "inputs:", repr(getattr(f, "inputs", None))[:500], "exact", f.exact)
main()
