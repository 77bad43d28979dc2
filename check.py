#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one check and judges it.

Usage: check.py ID [--replay FILE] [--keep] [--noise]
Environment: VERIF_SEED, VERIF_TIER.
Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no verdict.
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from flavours import FLAVOURS, LEVELS  # noqa: E402

ASSUMPTIONS = {
    "": ["Go 1.27.3 toolchain and runtime are trusted; only the executions driven here were observed"],
    "race": ["the race detector reports only races that the executed schedules exhibit"],
    "os": ["crash model: a process crash; completed system calls persist in order, the interrupted "
           "write may be torn at any byte"],
}


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
    for item in out.split(b"\0"):
        if b"=" in item:
            k, v = item.decode().split("=", 1)
            e[k] = v
    return e


OS_PATCHES = {
    # file: [(signature, inserted code)]
    "file.go": [
        ("func (f *File) Read(b []byte) (n int, err error) {",
         'if h := VerifHook; h != nil && f != nil { if _, e := h("read", f.name, len(b), 0); e != nil { return 0, e } }'),
        ("func (f *File) Write(b []byte) (n int, err error) {",
         'if h := VerifHook; h != nil && f != nil { if k, e := h("write", f.name, len(b), 0); e != nil '
         '{ if k > 0 { n, _ = f.write(b[:k]) }; if n < 0 { n = 0 }; return n, e } }'),
        ("func (f *File) WriteAt(b []byte, off int64) (n int, err error) {",
         'if h := VerifHook; h != nil && f != nil { if k, e := h("write", f.name, len(b), 0); e != nil '
         '{ if k > 0 { n, _ = f.pwrite(b[:k], off) }; if n < 0 { n = 0 }; return n, e } }'),
        ("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {",
         'if VerifHook != nil && f != nil { return genericReadFrom(f, r) }'),
        ("func (f *File) Seek(offset int64, whence int) (ret int64, err error) {",
         'if h := VerifHook; h != nil && f != nil { if _, e := h("seek", f.name, 0, 0); e != nil { return 0, e } }'),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {",
         'if h := VerifHook; h != nil { if _, e := h("open", name, 0, flag); e != nil '
         '{ return nil, &PathError{Op: "open", Path: name, Err: e} } }'),
        ("func Rename(oldpath, newpath string) error {",
         'if h := VerifHook; h != nil { if _, e := h("rename", newpath, 0, 0); e != nil { return e } }'),
        ("func Mkdir(name string, perm FileMode) error {",
         'if h := VerifHook; h != nil { if _, e := h("mkdir", name, 0, 0); e != nil { return e } }'),
    ],
    "file_posix.go": [
        ("func (f *File) Truncate(size int64) error {",
         'if h := VerifHook; h != nil && f != nil { if _, e := h("truncate", f.name, 0, 0); e != nil { return e } }'),
        ("func (f *File) Sync() error {",
         'if h := VerifHook; h != nil && f != nil { if _, e := h("sync", f.name, 0, 0); e != nil { return e } }'),
    ],
    "file_unix.go": [
        ("func Truncate(name string, size int64) error {",
         'if h := VerifHook; h != nil { if _, e := h("truncate", name, 0, 0); e != nil { return e } }'),
        ("func Remove(name string) error {",
         'if h := VerifHook; h != nil { if _, e := h("remove", name, 0, 0); e != nil { return e } }'),
        ("func Link(oldname, newname string) error {",
         'if h := VerifHook; h != nil { if _, e := h("link", newname, 0, 0); e != nil { return e } }'),
        ("func Symlink(oldname, newname string) error {",
         'if h := VerifHook; h != nil { if _, e := h("link", newname, 0, 0); e != nil { return e } }'),
    ],
}
SYNC_CALL = "if h := verifSched.Load(); h != nil { (*h)() }"
# allPoolsMu is unlocked by Pool.pinSlow where the goroutine must not be descheduled.
MUTEX_CALL = "if h := verifSched.Load(); h != nil && m != &allPoolsMu { (*h)() }"
SYNC_PATCHES = {
    "mutex.go": [("func (m *Mutex) Lock() {", MUTEX_CALL), ("func (m *Mutex) Unlock() {", MUTEX_CALL)],
    "rwmutex.go": [("func (rw *RWMutex) %s() {" % f, SYNC_CALL) for f in ("Lock", "Unlock", "RLock", "RUnlock")],
}
CHAN_CALL = "if VerifSched != nil { VerifSched() }"
CHAN_PATCHES = {
    "chan.go": [(sig, CHAN_CALL) for sig in (
        "func chansend1(c *hchan, elem unsafe.Pointer) {", "func chanrecv1(c *hchan, elem unsafe.Pointer) {",
        "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {", "func closechan(c *hchan) {")],
    "select.go": [("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {",
                   CHAN_CALL)],
}
# Goroutines waiting for a mutex count as blocked in a bubble with a virtual clock: the holder may be asleep.
IDLE_PATCHES = {"runtime2.go": [("var isIdleInSynctest = [len(waitReasonStrings)]bool{",
                                 "waitReasonSyncMutexLock: true, waitReasonSyncRWMutexRLock: true, waitReasonSyncRWMutexLock: true,")]}
CHAN_HOOK = """package runtime

// Called before every sending to, receiving from and closing of a channel and every select.
// Set once, before there's anything concurrent.
var VerifSched func()
"""
SYNC_HOOK = """package sync

import (
	"internal/synctest"
	"sync/atomic"
)

// Runs f and the goroutines it starts with a clock of their own, which advances when all of them are blocked.
func VerifBubble(f func()) { synctest.Run(f) }

func VerifInBubble() bool { return synctest.IsInBubble() }

var verifSched atomic.Pointer[func()]

// Called at the beginning of every locking and unlocking from now on.
func VerifSetSched(f func()) { verifSched.Store(&f) }
"""
OS_HOOK = """package os

// Called before every file operation; an error prevents the operation, but lets
// the first n bytes of a write through.
var VerifHook func(op string, name string, size int, flag int) (n int, err error)
"""


def build(flavour, work, e):
    """Builds the harness with the given flavour, returns the path or None."""
    virtual = os.path.join(REPO, "internal", "zzverif")
    replace = {}
    for src in glob.glob(os.path.join(VERIF, "harness", "*.go")):
        replace[os.path.join(virtual, os.path.basename(src))] = src
    args = ["go", "build", "-buildvcs=false"]
    if "race" in flavour:
        args += ["-race"]
    tags = []
    goroot = subprocess.run(["go", "env", "GOROOT"], env=e, capture_output=True, text=True, check=True).stdout.strip()
    for part, package, patches, hook in (("os", "os", OS_PATCHES, OS_HOOK), ("sync", "sync", SYNC_PATCHES, SYNC_HOOK),
                                         ("sync", "runtime", CHAN_PATCHES | IDLE_PATCHES, CHAN_HOOK)):
        if part not in flavour.split(","):
            continue
        if "verif" + part not in tags:
            tags.append("verif" + part)
        src = os.path.join(goroot, "src", package)
        for name, insertions in patches.items():
            text = open(os.path.join(src, name)).read()
            for sig, code in insertions:
                if text.count(sig + "\n") != 1:
                    print("cannot instrument %s.%s" % (package, sig), file=sys.stderr)
                    return None
                text = text.replace(sig + "\n", sig + "\n\t" + code + "\n")
            patched = os.path.join(work, package + "_" + name)
            open(patched, "w").write(text)
            replace[os.path.join(src, name)] = patched
        path = os.path.join(work, package + "_zz_verif.go")
        open(path, "w").write(hook)
        replace[os.path.join(src, "zz_verif.go")] = path
    if tags:
        args += ["-tags", ",".join(tags)]
    overlay = os.path.join(work, "overlay.json")
    json.dump({"Replace": replace}, open(overlay, "w"))
    binary = os.path.join(work, "harness-" + (flavour.replace(",", "-") or "plain"))
    args += ["-overlay", overlay, "-o", binary, "./internal/zzverif"]
    p = subprocess.run(args, cwd=REPO, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        print("the harness doesn't build:\n" + p.stdout + p.stderr, file=sys.stderr)
        return None
    return binary


STRING = r'"(?:[^"\\\n]|\\.)*"|`[^`]*`'
def literals(repo):
    """The numbers and words of the code under test: values that it may treat in a special way."""
    ints, floats, words = set(), set(), set()
    for path in glob.glob(os.path.join(repo, "*.go")) + glob.glob(os.path.join(repo, "internal", "**", "*.go"), recursive=True):
        if path.endswith("_test.go") or not os.path.isfile(path):
            continue
        text = open(path, errors="replace").read()
        text = re.sub(r"(%s)|//[^\n]*|/\*.*?\*/" % STRING, lambda m: m.group(1) or " ", text, flags=re.S)
        for s in re.findall(STRING, text):
            words.update(re.findall(r"[A-Za-z0-9_-]{1,40}", s[1:-1]))
        text = re.sub(STRING, '""', text)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|\d[\d_]*)(?:\s*<<\s*(\d+))?(?![\w.])", text):
            v = int(m.group(1).replace("_", "").lower(), 16 if m.group(1)[:2] in ("0x", "0X") else 10) << min(int(m.group(2) or 0), 64)
            if 2 < v < 1 << 64:
                ints.add(v)
        for m in re.finditer(r"(?<![\w.])(\d*\.\d+(?:[eE]-?\d+)?|\d+[eE]-?\d+)(?![\w.])", text):
            floats.add(float(m.group(1)))
    return {"ints": sorted(ints), "floats": sorted(floats), "words": sorted(words)}


def repo_on_top(stack):
    """True if the innermost frame of this module's code isn't the harness."""
    for line in stack.splitlines():
        line = line.removeprefix("created by ")
        if line.startswith("main."):
            return False
        if line.startswith("recengine/"):
            return True
    return False


def crash_violation(stderr):
    """Finds a crash of the process that the code under test caused."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address)", stderr, re.M)
    if not m:
        return None
    text = stderr[m.start():]
    i = text.find("\ngoroutine ")
    if i < 0:
        return None
    blocks = text[i + 1:].split("\n\n")
    first = blocks[0]
    if "\npanic(" in first:
        first = first[first.rfind("\npanic("):]
    if repo_on_top(first) or ("concurrent map" in text[:200] and "recengine/" in first):
        return text[:6000]
    if text.startswith("fatal error: all goroutines are asleep") and any("recengine/" in b for b in blocks):
        return text[:6000]
    return None


def race_reports(work):
    reports, own = [], 0
    for path in sorted(glob.glob(os.path.join(work, "race.*"))):
        text = open(path, errors="replace").read()
        for block in text.split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            # Each access has a stack; the race is the code's own if both
            # accesses were made by it (or by the library code it called)
            stacks = re.split(r"\n\s*\n", block)
            tops = []
            for s in stacks:
                s = s.strip("\n")
                if re.search(r"(Read|Write|read|write) at 0x", s) and "Goroutine" not in s.split("\n")[0]:
                    lines = "\n".join(l.strip() for l in s.splitlines())
                    tops.append(repo_on_top(lines))
            if any(tops):
                reports.append(block.strip())
            else:
                print("a race of the harness itself:\n" + block, file=sys.stderr)
                own += 1
    return reports, own


def limit_memory():
    """Whatever allocates much more than the inputs are worth has to fail in the process itself."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def setup():
    """Builds every flavour once, to see that it can be done."""
    e = env()
    ok = True
    for flavour in sorted(set(FLAVOURS.values())):
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            ok = build(flavour, work, e) is not None and ok
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return 0 if ok else 2


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--setup":
        return setup()
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    flavour = FLAVOURS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.time()
    e = env()
    for k in ("GIN_MODE", "REC_PATH", "REC_HOST", "REC_PORT", "PORT"):
        e.pop(k, None)
    e["GIN_MODE"] = "release"
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, replay, flavour, seed, tier, start, e, work)
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, replay, flavour, seed, tier, start, e, work):
    binary = build(flavour, work, e)
    if binary is None:
        return 2
    scratch = os.path.join(work, "scratch")
    os.mkdir(scratch)
    out = os.path.join(work, "result.json")
    e["TMPDIR"] = scratch
    e["GOTRACEBACK"] = "all"
    e["VERIF_WORK"] = work
    e["VERIF_REPO"] = REPO
    e["VERIF_DICT"] = os.path.join(work, "dict.json")
    json.dump(literals(REPO), open(e["VERIF_DICT"], "w"))
    if "race" in flavour:
        e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=50 log_path=%s/race" % work
    cmd = [binary, "-id", pid, "-seed", str(seed), "-tier", tier, "-scratch", scratch, "-out", out]
    if replay:
        cmd += ["-replay", replay]
    if "--noise" in sys.argv:
        cmd.append("-noise")
    errpath = os.path.join(work, "stderr")
    with open(errpath, "w") as err:
        p = subprocess.Popen(cmd, env=e, cwd=scratch, stdout=subprocess.DEVNULL, stderr=err,
                             stdin=subprocess.DEVNULL, start_new_session=True,
                             preexec_fn=limit_memory if pid == "C20" else None)
        try:
            rc = p.wait(timeout=780 if tier == "quick" else 6 * 3600)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    stderr = open(errpath, errors="replace").read()
    if os.environ.get("VERIF_TIMES"):
        sys.stderr.write(stderr[-1500:] if len(stderr) < 5000 else stderr[:3000])
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    violations = list(res["violations"] or []) if res else []
    if res is None:
        crash = crash_violation(stderr)
        if crash:
            violations.append({"family": "process", "index": 0, "detail": "the process crashed: " + crash})
    races, own_races = race_reports(work) if "race" in flavour else ([], 0)
    seen = set()
    for block in races:
        key = tuple(sorted(set(re.findall(r"^  (recengine/\S+)\(", block, re.M))))
        if key not in seen:
            seen.add(key)
            violations.append({"family": "race", "index": 0, "detail": block[:6000]})
    if own_races and not violations:
        return 2
    if res is None and not violations:
        sys.stderr.write(stderr[:6000])
        print("no verdict: the harness ended with %s" % ("a timeout" if rc is None else rc), file=sys.stderr)
        return 2
    if res is None:
        res = {"coverage": {"evaluations": 0, "distinct_nontrivial": 0, "samples": [],
                            "rule": "the run was cut short by the violation"}, "inconclusive": []}
    cov = res["coverage"]
    if "race" in flavour:
        cov["race_reports"] = len(races)
    if not replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": LEVELS[pid], "coverage": cov,
            "assumptions": ASSUMPTIONS[""] + sum((v for k, v in ASSUMPTIONS.items() if k and k in flavour), []),
            "wall_s": round(time.time() - start, 2), "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if violations:
        known = known_findings(pid)
        fresh = 0
        for i, v in enumerate(violations):
            finding = next((k for k in known if k in v["detail"]), None)
            if finding is not None:
                print("KNOWN-FINDING: property=%s %s" % (pid, finding))
                continue
            path = save_replay(pid, tier, seed, v, i)
            if fresh < 10:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  %s/%s: %s" % (v["family"], v["index"], v["detail"].strip()[:1500]))
            fresh += 1
        return 1 if fresh else 0
    if cov.get("evaluations", 0) == 0 or (not replay and cov.get("distinct_nontrivial", 0) < 2):
        print("no verdict: nothing was observed: %s" % res.get("inconclusive"), file=sys.stderr)
        return 2
    print("held: property=%s evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], len(res.get("inconclusive") or []), time.time() - start))
    return 0


def known_findings(pid):
    """The recorded findings: lines 'finding: property=<id> <text of the violation>'."""
    path = os.path.join(VERIF, "known-findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                found.append(m.group(2))
    return found


def save_replay(pid, tier, seed, v, i):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%d.json" % (pid, v["family"], v["index"], i))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "case": v,
                   "how": "./check.py %s --replay %s" % (pid, path)}, f, indent=1)
    return path


if __name__ == "__main__":
    sys.exit(main())
