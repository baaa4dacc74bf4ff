"""Replays the failing input of a replay file on the real code."""
import importlib
import json
import os
import sys

from engine import check, replay


def main():
    with open(sys.argv[1], encoding="utf-8") as file_object:
        data = json.load(file_object)
    if not data.get("failing_input"):
        print("no failing input; failed obligations:")
        print(json.dumps(data.get("failed_obligations"), indent=1))
        return 1
    contract = next(c for c in check.load(data["property"])
                    if c.name == data["contract"])
    inputs = replay.unjson(data["failing_input"]["inputs"])
    replay.silence(contract)
    code, spec = replay.outcomes(contract, inputs)
    print("inputs:       ", inputs)
    print("code:         ", code)
    print("specification:", spec)
    return 0 if code == spec else 1


if __name__ == "__main__":
    sys.exit(main())
