#!/usr/bin/env python3
"""Writes the build overlay used by every check.

usage: mkoverlay.py OUTDIR REPO VERIF [--sched]

The overlay
  * adds the harness packages (harness/*) to the module under /repo/zzverif,
  * routes the file system calls of package syscall for paths below /vfs
    through a hook (harness/shim/syscall_hook.go), so that the unmodified
    os.File code of the program under test runs on an in-memory device,
  * with --sched, additionally turns the Go runtime's run queue for a set of
    controlled goroutines into a scheduler that follows a prescribed list of
    choices (harness/shim/runtime_sched.go), and puts scheduling points in
    front of channel, select, lock, wait group and atomic operations.

Nothing in /repo or in GOROOT is modified: go build -overlay reads the
replacements from OUTDIR.
"""
import json, os, re, subprocess, sys

out, repo, verif = sys.argv[1:4]
sched = "--sched" in sys.argv[4:]
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = goroot + "/src"
rep = {}


def fail(msg):
    sys.exit("mkoverlay: " + msg)


def patch(rel, edits):
    path = os.path.join(src, rel)
    text = open(path).read()
    for old, new in edits:
        n = text.count(old)
        if n != 1:
            fail("%s: anchor occurs %d times: %r" % (rel, n, old))
        text = text.replace(old, new)
    dst = os.path.join(out, "goroot", rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)
    rep[path] = dst


def add(rel, shim):
    rep[os.path.join(src, rel)] = os.path.join(verif, "harness", "shim", shim)


# --- syscall hooks -------------------------------------------------------
fd_hooks = [
    ("Close", "fd int", "err error", "Close(fd)", "err"),
    ("fcntl", "fd int, cmd int, arg int", "val int, err error", None, None),
    ("Fdatasync", "fd int", "err error", "Fsync(fd)", "err"),
    ("Fsync", "fd int", "err error", "Fsync(fd)", "err"),
    ("Ftruncate", "fd int, length int64", "err error", "Ftruncate(fd, length)", "err"),
    ("read", "fd int, p []byte", "n int, err error", "Read(fd, p)", "n"),
    ("write", "fd int, p []byte", "n int, err error", "Write(fd, p)", "n"),
    ("pread", "fd int, p []byte, offset int64", "n int, err error", "Pread(fd, p, offset)", "n"),
    ("pwrite", "fd int, p []byte, offset int64", "n int, err error", "Pwrite(fd, p, offset)", "n"),
    ("Fstat", "fd int, stat *Stat_t", "err error", "Fstat(fd, stat)", "err"),
    ("Seek", "fd int, offset int64, whence int", "off int64, err error", "Seek(fd, offset, whence)", "off"),
]
edits = []
for name, params, results, call, kind in fd_hooks:
    sig = "func %s(%s) (%s) {\n" % (name, params, results)
    if name == "fcntl":
        body = "\tif fd >= VerifFdBase {\n\t\treturn -1, ENOTSUP\n\t}\n"
    else:
        # another scheduling point between the transfer and the use of the data
        after = "\t\tdefer VerifHook.After()\n" if name in ("read", "pread", "write", "pwrite") else ""
        body = "\tif fd >= VerifFdBase {\n%s\t\treturn VerifHook.%s\n\t}\n" % (after, call)
    edits.append((sig, sig + body))
path_hooks = [
    ("openat", "dirfd int, path string, flags int, mode uint32", "fd int, err error", "path", "Open(path, flags)"),
    ("unlinkat", "dirfd int, path string, flags int", "err error", "path", "Unlink(path)"),
    ("Truncate", "path string, length int64", "err error", "path", "Truncate(path, length)"),
    ("fstatat", "fd int, path string, stat *Stat_t, flags int", "err error", "path", "Stat(path, stat)"),
    ("Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "err error", "oldpath", "Rename(oldpath, newpath)"),
]
for name, params, results, pvar, call in path_hooks:
    sig = "func %s(%s) (%s) {\n" % (name, params, results)
    edits.append((sig, sig + "\tif verifPath(%s) {\n\t\treturn VerifHook.%s\n\t}\n" % (pvar, call)))
patch("syscall/zsyscall_linux_amd64.go", edits)
add("syscall/verif_hook.go", "syscall_hook.go")

# --- scheduler -----------------------------------------------------------
if sched:
    add("runtime/verif_sched.go", "runtime_sched.go")
    text = open(src + "/runtime/runtime2.go").read()
    m = re.search(r"\ntype g struct \{\n(.*?)\n\}\n", text, re.S)
    if not m:
        fail("type g not found")
    last = m.group(0)
    patch("runtime/runtime2.go", [(last, last[:-3] + "\n\n\tverifID int32 // controlled goroutine number, 0 if not controlled\n}\n")])
    patch("runtime/proc.go", [
        # run queue
        ("func runqput(pp *p, gp *g, next bool) {\n",
         "func runqput(pp *p, gp *g, next bool) {\n\tif gp.verifID != 0 && verifActive {\n\t\tverifPut(gp)\n\t\treturn\n\t}\n"),
        ("func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
         "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif gp.verifID != 0 && verifActive {\n\t\tverifPut(gp)\n\t\treturn\n\t}\n"),
        ("	if pp.runSafePointFn != 0 {\n		runSafePointFn()\n	}\n\n	// now and pollUntil are saved",
         "	if pp.runSafePointFn != 0 {\n		runSafePointFn()\n	}\n	if verifActive {\n		if gp := verifPick(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// now and pollUntil are saved"),
        # no time slices while an execution is controlled
        ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif verifActive {\n\t\treturn 0\n\t}\n"),
        # goroutine identity
        ("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	verifNewG(newg, callergp)\n"),
        ("		runqput(pp, newg, true)\n\n		if mainStarted {\n			wakep()\n		}\n	})\n}\n",
         "		runqput(pp, newg, true)\n\n		if mainStarted {\n			wakep()\n		}\n	})\n	if gp.verifID != 0 {\n		verifYield(verifSiteGo)\n	}\n}\n"),
        ("func goexit1() {\n", "func goexit1() {\n\tverifExitG(getg())\n"),
    ])
    patch("runtime/chan.go", [
        ("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tverifYield(verifSiteSend)\n"),
        ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tverifYield(verifSiteClose)\n"),
        ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tverifYield(verifSiteRecv)\n"),
        ("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tverifYield(verifSiteRecv)\n"),
        ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tverifYield(verifSiteSelect)\n"),
        ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tverifYield(verifSiteSelect)\n"),
    ])
    patch("runtime/sema.go", [("func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif verifActive {\n\t\treturn 1\n\t}\n")])
    patch("runtime/rand.go", [("func rand() uint64 {\n", "func rand() uint64 {\n\tif verifActive {\n\t\treturn verifNextRand()\n\t}\n")])
    seltext = open(src + "/runtime/select.go").read()
    m = re.search(r"\nfunc selectgo\([^\n]*\{\n", seltext)
    if not m:
        fail("selectgo not found")
    patch("runtime/select.go", [(m.group(0), m.group(0) + "\tverifYield(verifSiteSelect)\n")])

    def sync_point(rel, funcs):
        text = open(os.path.join(src, rel)).read()
        edits = []
        for sig in funcs:
            m = re.search(r"\nfunc " + sig + r"[^\n]*\{\n", text)
            if not m:
                fail("%s: %s not found" % (rel, sig))
            # after a release, before an acquisition
            d = "defer " if sig.endswith("Unlock\\(") else ""
            edits.append((m.group(0), m.group(0) + "\t" + d + "runtime.VerifYieldSync()\n"))
        if '"runtime"' not in text:
            if "import (\n" in text:
                edits.append(("import (\n", "import (\n\t\"runtime\"\n"))
            else:
                fail(rel + ": no import block")
        patch(rel, edits)

    sync_point("sync/mutex.go", [r"\(m \*Mutex\) Lock\(", r"\(m \*Mutex\) TryLock\(", r"\(m \*Mutex\) Unlock\("])
    sync_point("sync/rwmutex.go", [r"\(rw \*RWMutex\) %s\(" % f for f in ("RLock", "TryRLock", "RUnlock", "Lock", "TryLock", "Unlock")])
    sync_point("sync/waitgroup.go", [r"\(wg \*WaitGroup\) Add\(", r"\(wg \*WaitGroup\) Wait\("])
    sync_point("sync/cond.go", [r"\(c \*Cond\) %s\(" % f for f in ("Wait", "Signal", "Broadcast")])

# --- harness -------------------------------------------------------------
base = os.path.join(verif, "harness")
for pkg in sorted(os.listdir(base)):
    d = os.path.join(base, pkg)
    if pkg == "shim" or not os.path.isdir(d):
        continue
    for f in sorted(os.listdir(d)):
        if not f.endswith(".go"):
            continue
        is_sched = f.endswith("_sched.go")
        if is_sched and not sched or f.endswith("_nosched.go") and sched:
            continue
        rep[os.path.join(repo, "zzverif", pkg, f)] = os.path.join(d, f)

# Atomic operations of the program under test become scheduling points.
if sched:
    for root, _, files in os.walk(os.path.join(repo, "pkg")):
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            p = os.path.join(root, f)
            t = open(p).read()
            t2 = re.sub(r'(?m)^(\s*(?:import\s+)?)((?:[A-Za-z_]\w*\s+)?)"sync/atomic"', lambda m: m.group(1) + (m.group(2) or "atomic ") + '"vibe-lsm/zzverif/vatomic"', t)
            if t2 != t:
                dst = os.path.join(out, "repo", os.path.relpath(p, repo))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                open(dst, "w").write(t2)
                rep[p] = dst

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": rep}, f, indent=1)
