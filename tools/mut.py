#!/usr/bin/env python3
"""mut.py [-q] FILE [PROP...]: apply each mutant of FILE to a scratch copy of /repo and run its check.
A mutant is (props, file, old, new); props is a space separated list, a leading '=' means behaviour is kept."""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(props, file, *pairs): M.append((props, file, pairs))
exec(open(sys.argv[1]).read())
only = set(a for a in sys.argv[2:] if not a.startswith("-i"))
pick = [int(x) for a in sys.argv[2:] if a.startswith("-i") for x in a[2:].split(",")]
keepdir = bool(os.environ.get("KEEP"))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
subprocess.check_call(["bash", "-c", ". ./env.sh; build_checker"], cwd=V)
def one(i):
    props, file, pairs = M[i]
    keep = props.startswith("=")
    ps = props.lstrip("=").split()
    ps = [p for p in ps if not only or p in only]
    if not ps: return None
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = os.path.join(d, "r"); v = os.path.join(d, "v")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(v); shutil.copytree(V + "/harness", v + "/harness")
        if os.path.exists(V + "/known-findings.txt"): shutil.copy(V + "/known-findings.txt", v)
        f = os.path.join(r, file)
        t = open(f).read()
        for j in range(0, len(pairs), 2):
            if pairs[j] not in t: return "NOMATCH %s %s: %r" % (props, file, pairs[j][:60])
            t = t.replace(pairs[j], pairs[j + 1], 1)
        open(f, "w").write(t)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return "NOBUILD %s %s: %s" % (props, file, b.stderr[:300])
        out = []
        for p in ps:
            c = subprocess.run(["timeout", os.environ.get("TMO","900"), V + "/bin/checker", "-repo", r, "-verif", v, "-prop", p], env=env, capture_output=True, text=True)
            hit = c.returncode == 1
            good = hit != keep and c.returncode in (0, 1)
            first = c.stdout.split("\n")[0][:170] if hit else ""
            out.append("%s %d %s %s [%s] %s" % ("ok  " if good else "BAD ", i, p, file, pairs[1].strip().split("\n")[0][:60], first))
        return "\n".join(out)
    finally:
        if keepdir: print("kept", i, d)
        else: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('MUTJ','6'))) as ex:
    for r in ex.map(one, pick or range(len(M))):
        if r: print(r, flush=True)
