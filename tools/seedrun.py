#!/usr/bin/env python3
"""seedrun.py [id ...]: runs the property's check against each planted bug, in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        t = time.time()
        p = subprocess.run(["./check", prop], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick",
                           VERIF_EVIDENCE=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("%-28s %s rc=%d %.0fs %s" % (i, prop, p.returncode, time.time() - t,
              " ".join(l for l in p.stdout.splitlines() if l.startswith("VIOLATION"))[:150] or p.stdout[-200:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
