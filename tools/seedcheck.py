#!/usr/bin/env python3
"""seedcheck.py [ID...]: run the check of each planted bug on a scratch copy with the bug applied."""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
subprocess.check_call(["bash", "-c", ". ./env.sh; build_checker"], cwd=V)
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
def one(i):
    d = tempfile.mkdtemp(prefix="sc", dir="/tmp")
    try:
        p = json.load(open(V + "/seeded/" + i + "/meta.json"))["property"]
        r = d + "/r"; v = d + "/v"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(v); shutil.copytree(V + "/harness", v + "/harness")
        a = subprocess.run(["git", "apply", V + "/seeded/" + i + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if a.returncode: return "NOAPPLY %s %s" % (i, a.stderr)
        c = subprocess.run(["timeout", "900", V + "/bin/checker", "-repo", r, "-verif", v, "-prop", p], env=env, capture_output=True, text=True)
        return "%s %s %s: %s" % ({0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR"), p, i, c.stdout.split("\n")[0][:160])
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
