#!/usr/bin/env python3
"""refactor.py [-p C01,C02] DEF.py ...: applies edits that keep the behaviour to a scratch copy of /repo; every check must stay quiet.

A definition file sets EDITS = [(file, old, new)] (every occurrence if the 4th element is True), optionally FILES = {path: text}, and PROPS."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local",
           GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOTELEMETRY="off")
args = sys.argv[1:]
only = None
if args[0] == "-p": only, args = args[1].split(","), args[2:]
for p in args:
    d = {}
    exec(open(p).read(), d)
    tmp = tempfile.mkdtemp(prefix="refactor-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        bad = False
        for e in d.get("EDITS", []):
            f = os.path.join(repo, e[0]); s = open(f).read()
            if e[1] not in s: print(p, "edit does not match:", e[0], e[1][:80]); bad = True; continue
            open(f, "w").write(s.replace(e[1], e[2], -1 if len(e) > 3 else 1))
        for f in d.get("APPEND", []): open(os.path.join(repo, f), "a").write("\n// the end\n")
        for f, t in d.get("FILES", {}).items(): open(os.path.join(repo, f), "w").write(t)
        r = subprocess.run("go build . ./util ./common ./uAvionix ./ardupilotmega && go test -vet=off -count=1 . ./util 2>&1 | grep -E '^\\s*--- FAIL' | grep -v BigFrame", shell=True, cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if bad or r.stdout.strip().replace("--- FAIL: TestReadFrames (0.00s)", "").strip(): print(p, "build/tests:", r.stdout[-1500:])
        for c in only or d["PROPS"].split():
            t = time.time()
            q = subprocess.run(["./check", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_NOSEARCH="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print("%-22s %s rc=%d %.0fs %s" % (os.path.basename(p), c, q.returncode, time.time() - t, "" if q.returncode == 0 else "\n" + q.stdout[-1800:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
