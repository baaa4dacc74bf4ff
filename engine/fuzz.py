"""Runs code and specification natively: fuzz.py MODULE [substring] [seconds]."""
import importlib
import os
import sys

from engine import replay


def short(value):
    text = repr(value)
    return text if len(text) < 700 else text[:350] + " ... " + text[-350:]


def main():
    seconds = float(sys.argv[3]) if len(sys.argv) > 3 else 5
    for contract in importlib.import_module(sys.argv[1]).CONTRACTS:
        if len(sys.argv) > 2 and sys.argv[2] not in contract.name:
            continue
        found, cases = replay.search(contract, 1, seconds)
        if not found:
            print("same", contract.name, cases)
            continue
        inputs, code, spec = found[:3]
        print("DIFF", contract.name, "after", cases, "\n", short(inputs))
        os.environ["VERIF_TRACE"] = "1"
        replay.differs(contract, inputs)
        del os.environ["VERIF_TRACE"]
        a, b = repr(code), repr(spec)
        n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
        print(" code", a[:60], "...", a[max(0, n - 150):n + 150])
        print(" spec", b[:60], "...", b[max(0, n - 150):n + 150])


main()
