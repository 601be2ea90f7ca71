"""C26: use of the library has no effect but its results.

A program that uses everything the modules export is locked in by a seccomp
filter before the library is even initialised; the parent judges its output,
its exit and its working directory, and the program itself what is left of the
use in its own process."""
import json
import os
import re
import shutil
import subprocess
import tempfile

DIR = "seal"
# Packages whose variables nobody changes in passing.
STABLE = re.compile(r"^(unicode|unicode/utf8|unicode/utf16|bufio|bytes|strings|errors|strconv|math|math/bits|sort|slices|cmp|iter|io|io/fs|context)\.|^runtime\.(blockprofilerate|mutexprofilerate|MemProfileRate|traceback_cache|crashFD|maxstacksize|maxstackceiling|disableMemoryProfiling)$")
# And such as are set up before main, and whose initialisation is compared with that of a program without the library.
EARLY = re.compile(r"^(unicode|unicode/utf8|unicode/utf16|bufio|bytes|strings|errors|strconv|math|math/bits|sort|slices|cmp|iter|io|io/fs|os|os/signal|flag|log|log/slog|path|path/filepath|time|hash|encoding/json|encoding/base64)\.")
# And such as the program's own start may set up.
WIDE = re.compile(r"^(flag|log|log/slog|os/signal|time|math/rand|math/rand/v2|path|path/filepath|runtime/debug|hash/crc32|crypto/rand|net|net/http|expvar|mime|html|unique|testing|encoding/gob|database/sql|text/template)\.(?!\.(typeAssert|interfaceSwitch)|.*([pP]ool|[cC]ache|[fF]ree))")
LIB = ("go-textseg/v17", "go-textseg/autoversion", "/repo/")
ENV = dict(GOMAXPROCS="8", GODEBUG="updatemaxprocs=0,containermaxprocs=0", GOTRACEBACK="all")


def overlay(ck, go):
    """Replaces the standard library's reading of environment and clock by recorded ones."""
    root = ck.run([ck.find_go(go), "env", "GOROOT"], env=ck.go_env(), timeout=60).stdout.strip()
    d = os.path.join(ck.BUILD, "vseal-overlay-" + (go or "default"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = {os.path.join(root, "src/syscall/verif_seen.go"): os.path.join(ck.MON, DIR, "verif_seen.go.txt")}
    for f, head, what in (("syscall/env_unix.go", "func Getenv(key string) (value string, found bool) {\n", 'VerifSeen("environment variable " + key + " read")'),
                          ("syscall/env_unix.go", "func Environ() []string {\n", 'VerifSeen("environment read")'),
                          ("syscall/env_unix.go", "func Setenv(key, value string) error {\n", 'VerifSeen("environment variable " + key + " set")'),
                          ("syscall/env_unix.go", "func Unsetenv(key string) error {\n", 'VerifSeen("environment variable " + key + " removed")'),
                          ("time/sleep.go", "func AfterFunc(d Duration, f func()) *Timer {\n", 'syscall.VerifSeen("timer started")'),
                          ("time/sleep.go", "func NewTimer(d Duration) *Timer {\n", 'syscall.VerifSeen("timer started")'),
                          ("time/tick.go", "func NewTicker(d Duration) *Ticker {\n", 'syscall.VerifSeen("timer started")'),
                          ("time/time.go", "func Now() Time {\n", 'syscall.VerifSeen("clock read")')):
        src = os.path.join(root, "src", f)
        new = rep.get(src, os.path.join(d, f.replace("/", "_")))
        with open(new if src in rep else src) as fh:
            t = fh.read()
        if t.count(head) != 1:
            return None
        t = t.replace(head, head + "\t" + what + "\n")
        if f.startswith("time/") and src not in rep:
            t = re.sub(r'^import ("unsafe"|\()\n', lambda m: 'import (\n\t"syscall"\n' + ('\t"unsafe"\n)\n' if "unsafe" in m.group() else ""), t, count=1, flags=re.M)
        with open(new, "w") as fh:
            fh.write(t)
        rep[src] = new
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    return ov


def build(ck, go=None, tag=None):
    env = ck.go_env(CGO_ENABLED="0")
    cwd = os.path.join(ck.MON, DIR)
    args = ["-buildmode=exe"]
    if tag:
        return ck.build("vseal-%s-%s" % (tag, go or "default"), cwd, args + ["-tags", tag, "./vseal"], env, ck.find_go(go), "vseal")
    ov = overlay(ck, go)
    if ov:
        try:
            return ck.build("vseal-" + (go or "default"), cwd, args + ["-tags", "verifhooks", "-overlay", ov, "./vseal"], env, ck.find_go(go), "vseal")
        except ck.Inconclusive as e:
            if any(m in str(e) for m in LIB):
                raise
    return ck.build("vseal-" + (go or "default"), cwd, args + ["./vseal"], env, ck.find_go(go), "vseal")


def regions(ck, binary, go, which=STABLE, most=65536):
    r = ck.run([ck.find_go(go), "tool", "nm", "-n", "-size", binary], env=ck.go_env(), timeout=120)
    ret = []
    for line in r.stdout.splitlines():
        f = line.split(None, 3)
        if len(f) == 4 and f[2] in "DdBb" and which.match(f[3]) and 0 < int(f[1]) <= most and not re.search(r"[,@+\s]", f[3]):
            ret.append("%s@%s+%s" % (f[3], f[0], f[1]))
    # as many as fit into one argument
    while sum(len(x) + 1 for x in ret) > 120000:
        ret = [x for i, x in enumerate(ret) if i % 8]
    return ret


def initial(ck, binary, go, cwd):
    """Settings, and variables of the standard library that changed, at the beginning of main; the names of those watched."""
    regs = regions(ck, binary, go, EARLY)
    r = launch(ck, binary, ["-initial", "-regions", ",".join(regs)], cwd)
    out = r.stdout.split("\nRESULT ")
    if r.returncode != 0 or len(out) != 2:
        return None
    o = json.loads(out[1])
    return o["settings"].replace(binary, ""), set(o["changed"] or []), set(x.split("@")[0] for x in regs)


def compare_start(ck, binary, go, cwd):
    ctl = initial(ck, build(ck, go, "control"), go, cwd)
    plain = binary
    if ctl is None:
        raise ck.Inconclusive("the control program fails")
    o = initial(ck, plain, go, cwd)
    if o is None:
        return None  # the full run says why
    if o[0] != ctl[0]:
        fail(ck, "loading the packages changes settings of the process\nwithout: %s\nwith:    %s" % (ctl[0], o[0]), go)
    extra = sorted((o[1] - ctl[1]) & ctl[2])
    if extra:
        fail(ck, "loading the packages changes variables of other packages: %s" % extra[:20], go)
    return len(o[2] & ctl[2])


def launch(ck, binary, args, cwd):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    e.update(ENV, TMPDIR=cwd, HOME=cwd)
    try:
        return subprocess.run([binary] + args, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=ck.limits(800), timeout=ck.remaining())
    except subprocess.TimeoutExpired:
        raise ck.Inconclusive("vseal: out of time")


def fail(ck, msg, go):
    raise ck.Violated(msg, {"kind": "seal", "go": go})


def one(ck, go):
    binary = build(ck, go)
    cwd = tempfile.mkdtemp(prefix="vseal")
    try:
        notes = []
        caught = 0
        for t in ("open", "socket", "spawn"):
            r = launch(ck, binary, ["-selftest", t], cwd)
            caught += "SIGSYS" in r.stderr
        r = launch(ck, binary, ["-selftest", "getenv"], cwd)
        hooks = "environment variable VERIF_X read" in r.stdout and "clock read" in r.stdout and r.stdout.count("timer started by main.main") == 3
        if not hooks:
            notes.append("reading of environment and clock, and starting of timers, were not all recorded")
        r = launch(ck, binary, ["-selftest", "lock"], cwd)
        if "locked: true" not in r.stdout:
            notes.append("goroutines tied to threads were not seen")
        told = [launch(ck, binary, ["-selftest", t], cwd).stdout for t in ("fault", "label", "unlabel")]
        own = sum("the library" in t for t in told)
        if own != 3:
            notes.append("changes of a goroutine's own state were not seen: %s" % told)
        early = compare_start(ck, binary, go, cwd)
        regs = regions(ck, binary, go)
        names = set(x.split("@")[0] for x in regs)
        regs += ["~" + x for x in regions(ck, binary, go, WIDE, 200000) if x.split("@")[0] not in names]
        r = launch(ck, binary, ["-seed", str(ck.SEED), "-scale", "4" if ck.TIER == "thorough" else "0.4", "-regions", ",".join(regs)], cwd)
        left = sorted(os.listdir(cwd))
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    mine = any(m in r.stderr.split("\n\ngoroutine ")[0] or m in "".join(r.stderr.split("\n\ngoroutine ")[1:2]) for m in LIB)
    out = r.stdout.split("\nRESULT ")
    if r.returncode != 0:
        if "SIGSYS" in r.stderr:
            first = [g for g in re.split(r"\n(?=goroutine )", r.stderr) if g.startswith("goroutine")][:1]
            if first and any(m in first[0] for m in LIB):
                fail(ck, "a system call is made in the library:\n" + first[0][:4000], go)
            raise ck.Inconclusive("vseal: a system call outside the library\n" + r.stderr[:3000])
        if mine:
            fail(ck, "the library ends the process with status %d\n%s" % (r.returncode, r.stderr[:4000]), go)
        raise ck.Inconclusive("vseal: exit status %d\n%s" % (r.returncode, r.stderr[:3000]))
    if len(out) != 2:
        fail(ck, "the process was ended with status 0 before its work was done, or garbled its output: %r" % r.stdout[:500], go)
    if out[0].strip():
        fail(ck, "something was written to standard output: %r" % out[0][:500], go)
    if r.stderr.strip():
        fail(ck, "something was written to standard error: %r" % r.stderr[:500], go)
    if left:
        fail(ck, "files were left behind: %s" % left, go)
    o = json.loads(out[1])
    if o["problems"]:
        fail(ck, "\n".join(o["problems"]), go)
    if not o["sealed"] or caught != 3:
        notes.append("system calls were not watched: %s, self test %d of 3" % (o["not_sealed_because"], caught))
    if o["calls"] < 5000000 or o["variables"] < 100:
        raise ck.Inconclusive("too little was observed: %s" % o)
    return {"variant": "vseal/" + o["go"], "evaluations": o["calls"], "distinct_nontrivial": o["inputs"],
            "rule": "Every exported function of both modules on valid, malformed, damaged, pumped and long inputs, whole, cut and streamed, from one and from several goroutines, in a process that a seccomp filter confines to memory, thread, lock and clock calls from before the library's initialisation. Distinct and non-trivial: inputs.",
            "observed": {"calls": o["calls"], "bytes": o["bytes"], "tokens": o["tokens"], "sealed": o["sealed"], "forbidden calls that the seal caught in its self test": caught, "goroutines whose labels, thread and fault handling were compared": o["goroutines"], "changes of a goroutine's state seen in the self test": own, "recording of environment and clock works": hooks, "such events": o["events"],
                         "such events in the library": o["events_of_library"], "variables of other packages compared": o["variables"], "of these only after the start": o["wide"], "variables compared with a program without the library when main begins": early, "live heap at three points": o["live"], "live heap after repeated inputs, rounds 3, 13, 18, 36": [o["live_repeated"][i] for i in (2, 12, 17, 35)]},
            "samples": regs[:4], "notes": notes}
