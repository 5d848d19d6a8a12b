#!/usr/bin/env python3
"""seed.py FILE [ID...]: writes the planted bugs of FILE to seeded/<id>/ and confirms each in a scratch copy:
the patch applies and builds, the stable tests pass with it, the demo passes without and fails with it."""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, file, pairs, needs, breaks, pkg, test): S.append((id, prop, file, pairs, needs, breaks, pkg, test))
exec(open(sys.argv[1]).read())
only = set(sys.argv[2:])
base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", []) if False else [])
DEMO = '''#!/bin/bash
# Fails (non-zero) when the property is broken. Runs in the repository root.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
printf '{"Replace": {"%%s/%(pkg)s/zz_seeddemo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/o.json"
timeout 280 go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export GOSUMDB=off; " + cmd], cwd=cwd, capture_output=True, text=True, **k)
def one(s):
    id, prop, file, pairs, needs, breaks, pkg, test = s
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = d + "/r"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        o = V + "/seeded/" + id
        os.makedirs(o, exist_ok=True)
        edits = [(file, pairs)] if file else pairs
        for fn, ps in edits:
            t = open(r + "/" + fn).read()
            for j in range(0, len(ps), 2):
                if t.count(ps[j]) < 1: return "NOMATCH " + id + repr(ps[j][:80])
                t = t.replace(ps[j], ps[j + 1], 1)
            open(r + "/" + fn, "w").write(t)
        diff = sh("git diff", r).stdout
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo_test.go.txt", "w").write(test.lstrip())
        open(o + "/demo.sh", "w").write(DEMO % dict(pkg=pkg)); os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        # removed lines must be original
        removed = [l for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        orig = "".join(sh("git show c55ddcb:%s" % fn, "/repo").stdout for fn, _ in edits)
        new = [l for l in removed if l[1:].strip() and l[1:] not in orig.split("\n")]
        warn = " (changes own lines: %r)" % new[:2] if new else ""
        b = sh("go build ./... && go vet ./%s" % pkg, r)
        if b.returncode: return "NOBUILD %s %s" % (id, b.stderr[:300])
        bad = [sh("bash %s/demo.sh" % o, r) for _ in range(2)]
        if any(x.returncode == 0 for x in bad): return "DEMO-NOT-FAILING " + id
        for k in range(2):
            t = sh("go test -vet=off -count=1 ./...", r)
            if t.returncode: return "TESTS-FAIL %s %s" % (id, [l for l in t.stdout.split("\n") if "FAIL" in l][:5])
        sh("git checkout -q -- .", r)
        good = [sh("bash %s/demo.sh" % o, r) for _ in range(3)]
        if any(x.returncode for x in good): return "DEMO-FAILS-ON-CLEAN %s %s" % (id, [x.stdout[-500:] for x in good if x.returncode][:1])
        return "ok " + id + warn + "   " + [l for l in bad[0].stdout.split("\n") if l.strip()][0][:120]
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [s for s in S if not only or s[0] in only]): print(r, flush=True)
