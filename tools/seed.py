"""Creates and validates planted bugs in a scratch copy of /repo.

usage: python3 tools/seed.py SPEC.py ...   (SPEC defines SEEDS)
       python3 tools/seed.py --caught ID ...
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD:$PYTHONPATH" timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def passed(copy):
    env = dict(os.environ, PYTHONPATH=copy)
    p = run("TZ=UTC /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider "
            "-o python_files='*.py' 2>&1 | tail -5", cwd=copy, env=env)
    return p.stdout


def make(seed):
    name, prop, edits, demo, needs, breaks = seed
    scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    copy = os.path.join(scratch, "repo")
    try:
        run(f"cp -a /repo {copy}")
        for path, old, new in edits:
            full = os.path.join(copy, path)
            text = open(full, encoding="utf-8").read()
            if text.count(old) != 1:
                return f"{name}: {path}: {text.count(old)} matches of {old[:60]!r}"
            open(full, "w", encoding="utf-8").write(text.replace(old, new))
        diff = run("git diff", cwd=copy).stdout
        folder = os.path.join(scratch, "seed")
        os.makedirs(folder)
        open(os.path.join(folder, "patch.diff"), "w", encoding="utf-8").write(diff)
        open(os.path.join(folder, "demo.py"), "w", encoding="utf-8").write(demo)
        open(os.path.join(folder, "demo.sh"), "w", encoding="utf-8").write(DEMO)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(folder, "meta.json"), "w", encoding="utf-8"), indent=1)
        good = run(f"bash {folder}/demo.sh", cwd="/repo")
        if good.returncode:
            return f"{name}: demo fails on the unchanged tree: {good.stdout[-300:]}{good.stderr[-500:]}"
        bad = run(f"bash {folder}/demo.sh", cwd=copy)
        if not bad.returncode:
            return f"{name}: demo passes with the change"
        tests = passed(copy)
        if "failed" in tests or "error" in tests or "passed" not in tests:
            return f"{name}: tests: {tests}"
        target = os.path.join(ROOT, "seeded", name)
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(folder, target)
        return f"{name}: kept ({bad.stderr.strip().splitlines()[-1][:120] if bad.stderr.strip() else ''})"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def caught(names):
    for name in names:
        folder = os.path.join(ROOT, "seeded", name)
        meta = json.load(open(os.path.join(folder, "meta.json"), encoding="utf-8"))
        p = run(f"git -C /repo apply {folder}/patch.diff")
        if p.returncode:
            print(name, "does not apply", p.stderr)
            continue
        try:
            r = run(f"bin/py -m engine.check {meta['property']} quick", cwd=ROOT)
        finally:
            run("git -C /repo checkout -- .")
        lines = [l[:150] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(name, meta["property"], "exit", r.returncode, lines[:3], flush=True)


def main():
    if sys.argv[1] == "--caught":
        caught(sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded"))))
        return
    for path in sys.argv[1:]:
        scope = {}
        exec(open(path, encoding="utf-8").read(), scope)
        for seed in scope["SEEDS"]:
            print(make(seed), flush=True)


main()
