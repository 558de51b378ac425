#!/usr/bin/env python3
"""Decides one property: builds the explorer from /repo's current tree, runs
its shards, confirms failures, writes the evidence.

usage: check.py PROPERTY [quick|thorough]
       check.py --replay FILE        repeats one recorded failing case

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Any other ending: the check could not be carried out.
"""
import hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
UNREPEATED = "executions that could not be repeated"
HANG_S = 100           # no progress of a single step for this long: does not terminate
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import META  # noqa: E402


def say(*a):
    print(*a, flush=True)


def die(msg, code=2):
    say("ERROR:", msg)
    sys.exit(code)


def build(out, prop):
    cmd = [os.path.join(HERE, "tools", "build.sh"), out]
    if META[prop].get("sched"):
        cmd.append("--sched")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        die("cannot build the explorer:\n" + p.stdout)
    if META[prop].get("bins"):
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build -o %s/vibecol ./cmd/vibecol && go build -o %s/loadtest ./cmd/loadtest" % (REPO, out, out)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            die("cannot build the commands:\n" + p.stdout)


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_plain():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def start(work, prop, tier, shard, of, deadline, only=-1, tag=""):
    base = os.path.join(work, "%s%s-%d" % (prop, tag, shard))
    with open(base + ".hb", "wb") as f:
        f.write(b"\0" * 4096)
    for s in (".json", ".st"):
        if os.path.exists(base + s):
            os.remove(base + s)
    cmd = [os.path.join(work, "mc"), "-prop", prop, "-tier", tier, "-shard", str(shard), "-of", str(of),
           "-deadline", str(deadline), "-hb", base + ".hb", "-out", base + ".json", "-states", base + ".st", "-only", str(only)]
    env = dict(os.environ)
    env["GOTRACEBACK"] = "all"
    env["GODEBUG"] = "asyncpreemptoff=1"
    env["VERIF_BIN"] = work
    env["VERIF_SCRATCH"] = base + ".scratch"
    env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
    if META[prop].get("sched"):
        env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + base + ".race"
        env["GOMAXPROCS"] = "1"
    else:
        env["GOMAXPROCS"] = "2"
    os.makedirs(base + ".scratch", exist_ok=True)
    log = open(base + ".log", "wb")
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=base + ".scratch",
                         preexec_fn=limits if META[prop].get("sched") else limits_plain)
    log.close()
    f = open(base + ".hb", "r+b")
    m = mmap.mmap(f.fileno(), 4096)
    return {"p": p, "base": base, "m": m, "beat": -1, "t": time.time(), "shard": shard, "end": None}


def kill(c):
    try:
        os.killpg(c["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    c["p"].wait()


def beat(c):
    return struct.unpack_from("<QQQ", c["m"], 0)


def wait(cs, stop_early=True):
    """Runs the children to their end. Returns when one fails, too."""
    live = list(cs)
    while live:
        time.sleep(0.02)
        now = time.time()
        for c in list(live):
            rc = c["p"].poll()
            if rc is not None:
                c["end"] = "exit %d" % rc
                live.remove(c)
                res = load(c)
                if rc != 0 or res is None or (res["violations"] and stop_early):
                    for o in live:
                        kill(o)
                        o["end"] = "stopped"
                    return
                continue
            b = beat(c)[0]
            if b != c["beat"]:
                c["beat"], c["t"] = b, now
            elif now - c["t"] > HANG_S:
                kill(c)
                c["end"] = "hang"
                live.remove(c)
                for o in live:
                    kill(o)
                    o["end"] = "stopped"
                return


def load(c):
    try:
        with open(c["base"] + ".json") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def log_of(c):
    try:
        with open(c["base"] + ".log", errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def races(c):
    d, b = os.path.split(c["base"] + ".race")
    out = ""
    for n in sorted(os.listdir(d)):
        if n.startswith(b):
            with open(os.path.join(d, n), errors="replace") as f:
                out += f.read()
    return out


def single(work, prop, tier, case, n):
    """Runs one case alone n times. Returns (failures, description)."""
    fails, desc = 0, ""
    for i in range(n):
        c = start(work, prop, tier, 0, 1, 10 ** 6, only=case, tag="-only")
        wait([c])
        res = load(c)
        if c["end"] == "hang":
            fails += 1
            desc = "no progress for %d s\n%s" % (HANG_S, log_of(c)[-3000:])
            break
        if c["end"] != "exit 0" or res is None:
            fails += 1
            desc = "the process under exploration ended with %s\n%s" % (c["end"], log_of(c)[:6000])
        elif res["violations"]:
            fails += 1
            v = res["violations"][0]
            desc = "%s\n%s" % (v["name"], v["message"])
            desc += "\n" + races(c)[:4000]
    return fails, desc


def known():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def report(prop, tier, case, name, msg):
    h = hashlib.sha1(("%s %s %d" % (prop, name, case)).encode()).hexdigest()[:10]
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "case": case, "name": name, "message": msg,
                   "replay": "python3 check.py --replay " + path}, f, indent=1)
    say("%s: %s\n%s" % (prop, name, msg))
    say("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vcol-")
    try:
        build(work, r["property"])
        n, desc = single(work, r["property"], r["tier"], r["case"], 3)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    say("%d of 3 runs failed\n%s" % (n, desc))
    if n:
        say("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if n else 0


def main():
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in META or tier not in ("quick", "thorough"):
        die(__doc__)
    meta = META[prop]
    deadline = meta.get("deadline", 300) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", meta.get("thorough_s", 3600)))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vcol-")
    code = 0
    violations = 0
    notes = {}
    try:
        build(work, prop)
        t1 = time.time()
        cs = [start(work, prop, tier, i, SHARDS, deadline) for i in range(SHARDS)]
        try:
            wait(cs)
        finally:
            for c in cs:
                if c["p"].poll() is None:
                    kill(c)
        results = []
        anomalies = []
        complete = True
        for c in cs:
            res = load(c)
            if res is not None:
                results.append(res)
                anomalies += res["anomalies"] or []
                complete = complete and not res["expired"]
            if c["end"] == "stopped":
                complete = False
        # confirm what failed
        for c in cs:
            res = load(c)
            case, how = None, None
            if c["end"] == "stopped" and not (res and res["violations"]):
                continue
            if res is None or c["end"] != "exit 0":
                complete = False
                case = beat(c)[1]
                how = "the exploring process ended with %s (step %d)\n%s" % (c["end"], beat(c)[2], log_of(c)[:6000])
                name = "case %d" % case
            elif res["violations"]:
                complete = False
                v = res["violations"][0]
                case, name, how = v["case"], v["name"], v["message"] + "\n" + races(c)[:4000]
            else:
                continue
            if violations:
                continue
            n, desc = single(work, prop, tier, case, 2 if c["end"] == "hang" else 5)
            if n == 0 and not (res and res["violations"] and not res["violations"][0]["repro"].startswith("0/")):
                # not reproducible alone: repeat the whole shard
                d = start(work, prop, tier, c["shard"], SHARDS, deadline, tag="-again")
                wait([d])
                r2 = load(d)
                if d["end"] == "exit 0" and r2 is not None and not r2["violations"]:
                    anomalies.append("not reproducible: " + how)
                    continue
                desc = "fails only after the preceding cases of its shard\n" + how
            violations += 1
            code = 1
            report(prop, tier, case, name, desc or how)
        states = set()
        for c in cs:
            try:
                b = open(c["base"] + ".st", "rb").read()
                states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
        tot = lambda k: sum(r[k] for r in results)
        for r in results:
            for k, v in (r["notes"] or {}).items():
                notes[k] = max(notes.get(k, 0), v) if k.startswith("max ") else notes.get(k, 0) + v
        if notes.get(UNREPEATED):
            complete = False
        outcomes = {}
        for r in results:
            for k, d in (r["outcomes"] or {}).items():
                for o, n in d.items():
                    outcomes.setdefault(k, {}).setdefault(o, 0)
                    outcomes[k][o] += n
        samples = []
        for r in results:
            samples += (r["samples"] or [])[:1]
        samples = [s[:400] for s in samples[:6]] or ["none"]
        bounds = next((r["bounds"] for r in results if r["bounds"]), [])
        cov = {"exhaustive": bool(complete and not anomalies), "bounds": bounds, "samples": samples, "cases": tot("cases")}
        if meta["level"] == "model_checking":
            cov.update(states=len(states), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"))
        else:
            cov.update(evaluations=tot("traces"), distinct_nontrivial=len(states), rule=meta["rule"], transitions=tot("transitions"))
        if tot("schedules"):
            cov["schedules"] = tot("schedules")
        if outcomes:
            cov["scenarios"] = len(outcomes)
            cov["distinct_outcomes"] = sum(len(v) for v in outcomes.values())
            cov["scenarios_with_several_outcomes"] = {k: sorted(v)[:6] for k, v in sorted(outcomes.items())[:20000] if len(v) > 1}
        cov["counters"] = notes
        if anomalies:
            cov["anomalies"] = anomalies[:5]
        if not complete:
            cov["stopped"] = "violation" if violations else UNREPEATED if notes.get(UNREPEATED) else "deadline of %d s" % deadline
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
              "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        say("%s %s: %d cases, %d calls, %d states, %s, build %.1f s, explore %.1f s" % (
            prop, tier, cov["cases"], tot("transitions"), len(states), "exhaustive within bounds" if cov["exhaustive"] else "NOT exhaustive",
            t1 - t0, time.time() - t1))
        for a in anomalies[:3]:
            say("note: not reproducible, not counted:", a[:2000])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
