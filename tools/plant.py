#!/usr/bin/env python3
"""plant.py DEF.py ...: turns bug definitions into /verif/seeded/<id>/ after confirming each in a scratch copy of /repo.

A definition file sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (a Go main package's source)."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local",
           GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOTELEMETRY="off")
DEMO_SH = """#!/bin/bash
# exit 0: the code in the current directory behaves as the property demands
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
printf 'module demo\\n\\ngo 1.13\\n\\nrequire github.com/botlink/go-mavlink2 v0.0.0\\n\\nreplace github.com/botlink/go-mavlink2 => %s\\n' "$PWD" > "$tmp/go.mod"
cd "$tmp" && go build -o demo . || exit 3
timeout 120 ./demo
"""
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout
def tests(cwd):
    _, out = sh(["go", "test", "-vet=off", "-count=1", "-v", "./..."], cwd)
    return {l.strip().split()[2] for l in out.splitlines() if l.strip().startswith("--- PASS")}
def one(path):
    d = {}
    exec(open(path).read(), d)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], repo)
        dst = os.path.join(SEEDED, d["ID"])
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "demo.sh"), "w") as f: f.write(DEMO_SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "demo.go.txt"), "w") as f: f.write(d["DEMO"].lstrip())
        json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
        rc0, out0 = sh([os.path.join(dst, "demo.sh")], repo)
        base = tests(repo)
        for f, old, new in d["EDITS"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: return "edit of %s does not match" % f
            open(p, "w").write(s.replace(old, new, 1))
        sh(["gofmt", "-l", "."], repo)
        rc, out = sh(["go", "build", "./..."], repo)
        rcb, outb = sh(["go", "build", "."], repo)
        b0 = sh(["git", "stash"], repo) and sh(["go", "build", "./..."], repo)[0]; sh(["git", "stash", "pop"], repo)
        if rc != b0: return "build differs: " + out
        after = tests(repo)
        rc1, out1 = sh([os.path.join(dst, "demo.sh")], repo)
        _, diff = sh(["git", "diff"], repo)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        if base - after: return "tests fail: %s" % (base - after)
        if rc0 != 0: return "demo fails on the clean tree: " + out0
        if rc1 in (0, 3): return "demo does not fail with the change (%d): %s" % (rc1, out1)
        return "ok: " + out1.strip().splitlines()[0][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
for p in sys.argv[1:]:
    print(p, one(p), flush=True)
