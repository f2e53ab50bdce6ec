"""plant.py SPEC.py [ids...]: make seeded/<id>/ from a list SEEDS of (id, property, file, [(old, new)...], needs, breaks, demo) and confirm each in a scratch copy of /repo.
A demo is Python run with cwd /repo and effector imported from there; it must exit nonzero with the change only."""
import json, os, re, runpy, shutil, subprocess, sys

ROOT = os.environ.get("VW") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import numpy as np
import effector
assert os.path.realpath(effector.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), effector.__file__
'''
SH = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is not; run with cwd at the root of the repository
cd "${REPO:-.}" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def blame(repo, f):
    out = sh(["git", "-C", repo, "blame", "-s", "--root", f]).stdout.splitlines()
    base = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    return {i + 1: l.lstrip("^").startswith(base[:7]) for i, l in enumerate(out)}


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for id, prop, f, edits, needs, breaks, demo in spec["SEEDS"]:
        if only and id not in only:
            continue
        W = "/tmp/plant_work"
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree("/repo", W, symlinks=True)
        sh(["git", "-C", W, "checkout", "-q", "--", "."])
        D = os.path.join("/tmp/plant_demo")
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        open(D + "/demo.py", "w").write(HEAD + demo)
        open(D + "/demo.sh", "w").write(SH)
        os.chmod(D + "/demo.sh", 0o755)
        clean = sh(["bash", D + "/demo.sh"], cwd="/repo")
        files = f if isinstance(f, list) else [f] * len(edits)
        ok = True
        for (old, new), ff in zip(edits, files):
            p = os.path.join(W, ff)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(id, "TEXT occurs", s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w", newline="").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE).stdout
        # the removed lines must all be original
        cur, bad = None, []
        for l in sh(["git", "-C", W, "diff", "-U0"]).stdout.splitlines():
            if l.startswith("--- a/"):
                cur = blame(W, l[6:]) if False else blame("/repo", l[6:])
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                bad += [i for i in range(a, a + n) if not cur[i]]
        dirty = sh(["bash", D + "/demo.sh"], cwd=W)
        print(id, prop, "clean rc", clean.returncode, "patched rc", dirty.returncode, "not-original lines", bad, flush=True)
        if clean.returncode or not dirty.returncode or "SyntaxError" in dirty.stdout:
            print("   clean:", clean.stdout[-400:], "\n   patched:", dirty.stdout[-400:])
            continue
        print("   ", dirty.stdout.strip().splitlines()[-1][:160] if dirty.stdout.strip() else "")
        if bad:
            continue
        # the stable tests, on the copy: they import effector from the current directory
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = sh([PY, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); import effector; assert effector.__file__.startswith(%r); import pytest; sys.exit(pytest.main(['-q', '-x', '-p', 'no:cacheprovider', %r]))" % (W, W, W + "/tests")], cwd=W, env=dict(os.environ, PYTHONPATH=W, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
        print("    tests:", t.stdout.strip().splitlines()[-1][:100], flush=True)
        if t.returncode:
            continue
        S = os.path.join(ROOT, "seeded", id)
        os.makedirs(S, exist_ok=True)
        open(S + "/patch.diff", "wb").write(diff)
        shutil.copy(D + "/demo.py", S)
        shutil.copy(D + "/demo.sh", S)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
        print("    kept", flush=True)
    shutil.rmtree("/tmp/plant_work", ignore_errors=True)


main()
