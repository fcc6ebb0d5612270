"""Looks for a concrete input on which the code in the repository departs from a property whose proof failed.

The proof decides; this only tries to show the violation on the real code. The oracle is written from the
property's text and the wire definitions in contracts/*.layout (src/*.go)."""
import glob, json, os, re, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = "github.com/botlink/go-mavlink2"
RACE = {"C20", "C21", "C22", "C23"}


def build(tmp, repo, run, race):
    """builds the witness program against the repository; returns its path or raises"""
    d = os.path.join(tmp, "witness")
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(HERE, "src"), d)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module witness\n\ngo 1.21\n\nrequire %s v0.0.0\n\nreplace %s => %s\n" % (MOD, MOD, os.path.abspath(repo)))
    imports, makers, dialects = [], [], []
    for pkg in sorted(os.listdir(repo)):
        p = os.path.join(repo, pkg)
        lay = os.path.join(HERE, "..", "contracts", pkg + ".layout")
        if not os.path.isdir(p) or not os.path.exists(lay):
            continue
        names, dialect = set(), False
        for fn in glob.glob(os.path.join(p, "*.go")):
            if fn.endswith("_test.go"):
                continue
            s = open(fn, errors="replace").read()
            names |= set(re.findall(r"^func \(\w+ \*(\w+)\) Read\(\w+ mavlink2\.Frame\)", s, re.M))
            dialect = dialect or re.search(r"^type Dialect struct", s, re.M)
        imports.append('%s "%s/%s"' % ("p_" + pkg, MOD, pkg))
        for n in sorted(names):
            makers.append('"%s.%s": func() mavlink2.Message { return &p_%s.%s{} },' % (pkg, n, pkg, n))
        if dialect:
            dialects.append('"%s": p_%s.Dialect{},' % (pkg, pkg))
    with open(os.path.join(d, "registry.go"), "w") as f:
        f.write("package main\n\nimport (\n\tmavlink2 \"%s\"\n\t%s\n)\n\nvar makers = map[string]func() mavlink2.Message{\n%s\n}\n\nvar dialectMakers = map[string]mavlink2.Dialect{\n%s\n}\n\nfunc init() { loadLayouts(%s) }\n"
                % (MOD, "\n\t".join(imports), "\n".join(makers), "\n".join(dialects), json.dumps(os.path.join(HERE, "..", "contracts"))))
    out = os.path.join(tmp, "witness-race" if race else "witness-bin")
    rc, o = run(["env", "CGO_ENABLED=" + ("1" if race else "0"), "go", "build"] + (["-race"] if race else []) + ["-o", out, "."], 300, d)
    if rc != 0:
        if race:
            return build(tmp, repo, run, False)
        raise Exception("building the witness program failed: " + (o or "")[-800:])
    return out


def seeds(alarms, repo):
    """numbers and byte strings worth trying: from the verifier's counterexamples and from the source"""
    ints, strings, names = set(), [], []
    for o in alarms[:40]:
        m = re.match(r"(?:\*?)([\w/]+)\.(\w+)\.", o["target"])
        if m and m.group(1) != "mavlink2":
            names.append("%s.%s" % (m.group(1), m.group(2)))
        model = o.get("model") or {}
        for v in (model.get("Vars") or {}).values():
            if 0 <= v < 1 << 32:
                ints.add(v)
        for arr in (model.get("Arrs") or {}).values():
            cells = {int(k): v for k, v in arr.items() if int(k) < 700}
            if cells and all(v < 256 for v in cells.values()):
                strings.append(bytes(cells.get(i, 0) for i in range(max(cells) + 1)).hex())
    files = set(glob.glob(os.path.join(repo, "*.go"))) | set(glob.glob(os.path.join(repo, "util", "*.go")))
    for o in alarms[:40]:
        f = re.match(r"([^:]+\.go)", o.get("pos") or "")
        if f and os.path.exists(os.path.join(repo, f.group(1))):
            files.add(os.path.join(repo, f.group(1)))
    for fn in files:
        s = re.sub(r"//.*|/\*.*?\*/", "", open(fn, errors="replace").read(), flags=re.S if False else 0)
        for t in re.findall(r"\b(0x[0-9a-fA-F]+|\d+)\b", s):
            v = int(t, 0) if not re.match(r"0\d", t) else int(t, 8) if not set(t) & set("89") else int(t)
            if v < 1 << 62:
                ints.add(v)
    return dict(ints=sorted(ints)[:4000], bytes=strings[:200], names=sorted(set(names)))


def search(prop, seed, alarms, tmp, repo, run, budget, cap=100.0):
    t0 = time.time()
    race = prop in RACE
    w = build(tmp, repo, run, race)
    sf, out, last = (os.path.join(tmp, n) for n in ("seeds.json", "case.json", "last.json"))
    json.dump(seeds(alarms, repo), open(sf, "w"))
    left = min(cap, budget - (time.time() - t0) - 30)
    if left < 5:
        return None, "no time left to search"
    rc, o = run(["env", "GORACE=halt_on_error=1 exitcode=66", w, "-prop", prop, "-seed", str(seed), "-seeds", sf, "-out", out, "-last", last,
                 "-budget", str(left)], left + 28)
    if os.path.exists(out):
        return json.load(open(out)), (o or "").strip()[-600:]
    if rc not in (0, 1, None) and os.path.exists(last):
        # the whole program went down: a panic outside the calling goroutine, a fatal error or a data race
        m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE)$", o or "", re.M)
        if m:
            c = json.load(open(last))
            c["summary"] = m.group(1) + " (the whole program ended) in:\n" + "\n".join((o or "").strip().splitlines()[-40:])[:1500]
            return c, c["summary"]
    return None, (o or "no answer").strip()[-600:]


def replay(doc, tmp, repo, run):
    w = build(tmp, repo, run, doc["property"] in RACE)
    cf = os.path.join(tmp, "case.json")
    json.dump(doc["failing_input"], open(cf, "w"))
    rc, o = run(["env", "GORACE=halt_on_error=1 exitcode=66", w, "-case", cf], 120)
    print((o or "").strip()[-3000:])
    return 0 if rc == 0 else 1
