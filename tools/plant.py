"""Turn a bug description into /verif/seeded/<id>/ after confirming it.

usage: plant.py DESCRIPTION.py...

A description is a Python file named after the bug that sets PROPERTY, EDITS
(a list of (file, old, new)), NEEDS, BREAKS and DEMO (the text of demo.py).
The bug is kept when the demonstration passes on /repo and fails on a copy with
the edits, and the copy still passes the stable tests.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken (run with cwd at the repository)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DISABLE_TQDM=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def demo(folder, repo):
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)


def failing(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HF_HUB_OFFLINE="1", JAX_PLATFORMS="cpu")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-rfE", "-p", "no:cacheprovider", "--continue-on-collection-errors",
                        "tests/core", "tests/numba", "tests/stopwords"], cwd=repo, env=env, capture_output=True, text=True)
    lines = r.stdout.splitlines()
    return {l.split(" - ")[0] for l in lines if l.startswith(("FAILED", "ERROR"))}, lines[-1]


def pristine(top):
    copy = os.path.join(top, "clean")
    subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
    return copy


def main():
    clean = None
    for path in sys.argv[1:]:
        name = os.path.splitext(os.path.basename(path))[0]
        d = {}
        exec(open(path).read(), d)
        top = tempfile.mkdtemp(prefix="plant-")
        try:
            copy = os.path.join(top, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
            bad = None
            for file, old, new in d["EDITS"]:
                text = open(os.path.join(copy, file), newline="").read()
                if text.count(old) != 1:
                    bad = f"{file}: {text.count(old)} matches of {old!r}"
                    break
                open(os.path.join(copy, file), "w", newline="").write(text.replace(old, new))
            if bad:
                print(name, "BAD EDIT", bad)
                continue
            patch = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
            folder = os.path.join(top, "bug")
            os.mkdir(folder)
            open(os.path.join(folder, "patch.diff"), "w").write(patch)
            open(os.path.join(folder, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
            open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                      open(os.path.join(folder, "meta.json"), "w"), indent=1)
            r = demo(folder, "/repo")
            if r.returncode:
                print(name, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-1500:])
                continue
            r = demo(folder, copy)
            if r.returncode == 0:
                print(name, "DEMO PASSES WITH THE BUG")
                continue
            tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
            if clean is None:
                clean = failing(pristine(top))[0]
            failed, summary = failing(copy)
            if failed - clean:
                print(name, "TESTS FAIL", failed - clean)
                continue
            target = os.path.join(VERIF, "seeded", name)
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(folder, target)
            print(name, "kept:", tail, summary)
        finally:
            shutil.rmtree(top)


main()
