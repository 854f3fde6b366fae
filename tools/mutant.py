#!/usr/bin/env python3
"""Development aid: run checks against a scratch copy of /repo with a change.

    mutant.py IDS FILE OLD NEW [--cases N]     replace OLD by NEW in FILE of the copy
    mutant.py IDS --patch P.diff               apply a patch
    mutant.py IDS --revert COMMIT              revert a commit

IDS: comma separated property ids.  The scratch copy is removed afterwards.
"""
import os, shutil, subprocess, sys, tempfile

def main():
    a = sys.argv[1:]
    cases = None
    if "--cases" in a:
        i = a.index("--cases"); cases = a[i + 1]; del a[i:i + 2]
    d = tempfile.mkdtemp(prefix="mutant-", dir="/tmp")
    os.chmod(d, 0o755)
    repo = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        if a[1] == "--patch":
            subprocess.run(["git", "-C", repo, "apply", os.path.abspath(a[2])], check=True)
        elif a[1] == "--revert":
            r = subprocess.run(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-X", "theirs", "--no-edit", *a[2:]])
            if r.returncode:
                return 3
        else:
            p = os.path.join(repo, a[1]); s = open(p).read()
            old, new = a[2].encode().decode("unicode_escape"), a[3].encode().decode("unicode_escape")
            assert s.count(old) == 1, s.count(old)
            open(p, "w").write(s.replace(old, new))
        for i in a[0].split(","):
            cmd = ["python3", "/verif/check.py", "--property", i, "--no-evidence"] + (["--cases", cases] if cases else [])
            r = subprocess.run(cmd, env=dict(os.environ, BM25SIM_REPO=repo), capture_output=True, text=True)
            print(f"== {i}: exit {r.returncode}\n" + "\n".join((r.stdout + r.stderr[-600:]).strip().split("\n")[-6:]))
    finally:
        shutil.rmtree(d)
sys.exit(main())
