"""Writes properties.jsonl and MANIFEST.json from one table.

usage: python3 tools/gen_meta.py
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = ("contract-based deductive verification: contracts on the functions of "
             "/repo, obligations generated from the current source by the symbolic "
             "interpreter in engine/ and discharged by z3")

PROPERTIES = []


def prop(id_, title, statement, over, text, why, files, mechanism, note=""):
    PROPERTIES.append(({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    }, note))


exec(open(os.path.join(ROOT, "tools", "properties_table.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for entry, _ in PROPERTIES:
            f.write(json.dumps(entry) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bin/py -c 'import z3, dtfabric, dtformats'",
        "checks": [{
            "property": entry["id"],
            "quick_cmd": f"bin/py -m engine.check {entry['id']} quick",
            "thorough_cmd": f"bin/py -m engine.check {entry['id']} thorough",
            "technique": TECHNIQUE,
            "level": "proof",
            "level_note": note or (
                "every obligation of every contract of this property is discharged "
                "for all inputs and iterations; assumptions are in the evidence"),
        } for entry, note in PROPERTIES if note is not None],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
