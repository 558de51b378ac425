#!/usr/bin/env python3
"""Development tool: validates planted bugs and shows which checks catch them.

usage: seedcheck.py [--no-tests] [--checks C01,C02|own|all] ID...
Works in scratch copies of /repo under /tmp/w, which it removes.
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--no-tests" not in args
args = [a for a in args if a != "--no-tests"]
which = "own"
if "--checks" in args:
    i = args.index("--checks")
    which = args[i + 1]
    del args[i:i + 2]
ALL = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


for bug in args:
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/w/seed-" + bug
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    r = os.path.join(w, "repo")
    dd = os.path.join(w, "demo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["cp", "-a", d, dd])
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(dd, f))
    out = [bug, meta["property"]]
    try:
        p = sh("bash %s/demo.sh" % dd, r, 300)
        out.append("demo-clean:%s" % ("ok" if p.returncode == 0 else "FAILS"))
        if p.returncode:
            print(p.stdout[-2000:])
        p = sh("git apply %s/patch.diff" % d, r)
        if p.returncode:
            print(bug, "patch does not apply", p.stdout)
            continue
        p = sh(". /opt/vp/env.sh; go build ./... && go vet ./pkg/... >/dev/null 2>&1; go build ./...", r)
        if p.returncode:
            print(bug, "does not build", p.stdout)
            continue
        p = sh("bash %s/demo.sh" % dd, r, 300)
        out.append("demo-patched:%s" % ("fails as it should" if p.returncode else "PASSES"))
        if p.returncode:
            print("\n".join(l for l in p.stdout.splitlines() if "demo" in l)[:600])
        if tests:
            p = sh(". /opt/vp/env.sh; export GOMAXPROCS=8; go test -json -vet=off -count=1 -timeout 10m ./... > %s/t.json; python3 /opt/vp/results.py %s/o.json gojson:%s/t.json" % (w, w, w), r, 900)
            res = json.load(open(w + "/o.json"))
            passed = set(res.get("passed", [])) if isinstance(res, dict) else set()
            bad = stable - passed
            out.append("tests:%s" % ("pass" if not bad else "BROKEN %s" % sorted(bad)[:3]))
        for c in {"own": [meta["property"]], "all": ALL, "none": []}.get(which, which.split(",")):
            t = time.time()
            p = sh("python3 check.py %s quick" % c, HERE, 900, dict(os.environ, VERIF_REPO=r))
            v = "caught" if p.returncode == 1 and "VIOLATION property=%s " % c in p.stdout else "quiet" if p.returncode == 0 else "ERROR %d" % p.returncode
            if v != "quiet" or c == meta["property"]:
                out.append("%s:%s(%.0fs)" % (c, v, time.time() - t))
            if v.startswith("ERROR"):
                print(p.stdout[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(" ".join(out), flush=True)
