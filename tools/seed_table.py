"""Writes the table of planted bugs of DESIGN.md from the files of seeded/."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLE = "## Planted bugs"


def main():
    lines = [TITLE, "", "Each was kept before its check was run; the check of its property"
             " reports each of them (`tools/seed.py --caught NAME`), with a failing input.",
             "", "| change | caught by | needs |", "|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", name, "meta.json"), encoding="utf-8") as f:
            meta = json.load(f)
        lines.append(f"| {name} | {meta['property']} | {meta['needs']} |")
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path, encoding="utf-8") as f:
        text = f.read().split(TITLE)[0].rstrip("\n")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text + "\n\n" + "\n".join(lines) + "\n")


if __name__ == "__main__":
    main()
