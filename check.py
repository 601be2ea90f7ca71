#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree, runs them, judges and reports.

  check.py setup               build everything once (only warms caches)
  check.py C01                 run one check (VERIF_TIER, VERIF_SEED)
  check.py replay FILE         re-execute the witness of a violation

Exit status of a check: 0 held on everything explored, 1 violated (with a
VIOLATION line), 3 inconclusive.
"""
import base64
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
MON = os.path.join(HERE, "mon")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED") or "1")
T0 = time.time()
BUDGET = 800 if TIER == "thorough" else 600  # seconds for the whole check

LIB = "github.com/apparentlymart/go-textseg"


class Violated(Exception):
    def __init__(self, message, witness):
        super().__init__(message)
        self.message, self.witness = message, witness


class Inconclusive(Exception):
    pass


class OutOfTime(Inconclusive):
    """The time for the whole check is used up; what ran so far stands."""


def remaining():
    return BUDGET - (time.time() - T0)


def find_go(version=None):
    """The default Go, or that of /opt/veriftools for a minor version such as 1.25."""
    if version is None:
        p = shutil.which("go") or "/opt/veriftools/go1.27.3/bin/go"
        return p
    root = "/opt/veriftools"
    c = sorted(d for d in os.listdir(root) if re.fullmatch(r"go" + re.escape(version) + r"(\.\d+)?", d))
    if not c:
        raise Inconclusive("no Go %s here" % version)
    return os.path.join(root, c[-1], "bin", "go")


def go_env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("GO", "CGO_")) and k not in ("GOCACHE", "GOPATH", "GOMODCACHE", "GOTMPDIR"):
            del e[k]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOTELEMETRY="off")
    e.setdefault("HOME", "/root")
    e.update(extra)
    return e


def run(cmd, cwd=None, env=None, timeout=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build(name, cwd, args, env, gobin, what, cmd=("build",)):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    r = run([gobin] + list(cmd) + ["-o", out] + args, cwd=cwd, env=env, timeout=max(60, remaining()))
    if r.returncode != 0:
        raise Inconclusive("cannot build %s:\n%s" % (what, r.stderr[-4000:]))
    return out


WORDS = None


def words():
    """What the sources mention (see mon/cmd/vwords): workloads use it. Nothing, if it cannot be found out."""
    global WORDS
    if WORDS is None:
        WORDS = {"Strings": [], "Ints": []}
        try:
            b = build("vwords", MON, ["./cmd/vwords"], go_env(), find_go(), "vwords")
            w = json.loads(run([b, REPO], timeout=60).stdout)
            while len(json.dumps(w)) > 60000:
                w["Strings"] = sorted(w["Strings"] or [], key=len)[:-1]
            WORDS = {k: w[k] or [] for k in WORDS}
        except (Inconclusive, ValueError, OSError, subprocess.TimeoutExpired) as e:
            print("(no words: %s)" % str(e)[:300], file=sys.stderr)
    return WORDS


def linked():
    """The linker option that hands the words to the workloads."""
    return "-X=verif/mon/gen.linked=" + base64.b64encode(json.dumps(words()).encode()).decode()


def gcflags(flags):
    """Compiler flags for everything but the runtime, which is not made to be
    compiled like that (it then crashes now and then)."""
    return ["-gcflags=%s=%s" % (p, flags) for p in ("github.com/apparentlymart/...", "verif/...", "bufio", "bytes", "io", "unicode/utf8", "iter", "slices", "strings")]


UNOPTIMISED = {"not-inlined": gcflags("-l"), "not-optimised": gcflags("-N -l")}


def build_mon(cmd, variant="amd64", go=None):
    """cmd: vmon or vauto or vlink."""
    env, args = go_env(), []
    if variant == "386":
        env["GOARCH"] = "386"
        env["CGO_ENABLED"] = "0"
    elif variant in ("race", "asan"):
        env["CGO_ENABLED"] = "1"
        args = ["-" + variant]
    elif variant == "erratic":
        import erratic
        ov, missed = erratic.overlay(sys.modules[__name__], go)
        if missed:
            print("(not erratic: %s)" % missed, file=sys.stderr)
        args = ["-tags", "verifhooks", "-overlay", ov]
    elif variant in UNOPTIMISED:
        args = UNOPTIMISED[variant]
    elif variant.startswith("tag-"):
        args = ["-tags", variant[4:]]
    elif variant.startswith("experiment-"):
        env["GOEXPERIMENT"] = variant[11:]
    elif variant.startswith("files-"):  # the files that another platform selects
        args = ["-overlay", files_of(variant[6:], go)]
    # (a test binary: its TestMain is the program's main)
    return build("%s-%s-%s" % (cmd, variant, go or "default"), MON, args + ["-ldflags=" + linked(), "./cmd/" + cmd], env, find_go(go), cmd, ("test", "-c") if variant == "test" else ("build",))


def files_of(platform, go, tags=()):
    import platcheck
    ck = sys.modules[__name__]
    base, err = platcheck.listing(ck, args=tags, go=go)
    other, err = platcheck.listing(ck, dict(zip(("GOOS", "GOARCH"), platform.split("-"))), args=tags, go=go)
    if base is None or other is None:
        raise Inconclusive("go list: " + err[:2000])
    return platcheck.emulate(ck, "%s-%s%s" % (platform, go, "-tags" if tags else ""), base, other)


def build_vint(prop, variant="amd64", more=None):
    """The monitor of an internal package, built inside the library's module through an overlay."""
    d = os.path.join(BUILD, "vint.%s-%s" % (prop, variant))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = f.read()
    mod += "\nrequire verif/mon v0.0.0\nreplace verif/mon => %s\nreplace %s/autoversion => %s/autoversion\n" % (MON, LIB, REPO)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(mod)
    shutil.copyfile(os.path.join(MON, "go.sum"), os.path.join(d, "go.sum"))
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": dict({"%s/textseg/internal/verifvint/%s.go" % (REPO, n): "%s/overlay/%s.go.txt" % (MON, n) for n in ("main", prop.lower())}, **(more or {}))}, f)
    env, args = go_env(GOFLAGS="-mod=mod"), []
    if variant == "race":
        env["CGO_ENABLED"] = "1"
        args = ["-race"]
    return build("vint-%s-%s" % (prop, variant), REPO, args + ["-ldflags=" + linked(), "-modfile", d + "/go.mod", "-overlay", ov, "./textseg/internal/verifvint"], env, find_go(), "vint")


def limits(cpu=None, mem=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


MEM = 14 << 30
CASE_CPU = 60  # CPU seconds after which one case counts as not finishing
STALL = 15  # seconds without progress after which a case is tried by itself


class Runner:
    """Runs one monitor binary, watching it from outside."""

    def __init__(self, binary, prop, tag, extra=(), racy=False, mem=MEM, env=None, scale=None, together=False, cpu=None):
        self.binary, self.prop, self.tag = binary, prop, tag
        self.args = [binary, "-prop", prop, "-tier", TIER, "-seed", str(SEED)] + list(extra)
        if scale is not None:
            self.args += ["-scale", str(scale)]
        self.together = together  # only what goes wrong in company counts
        self.cpu = cpu or CASE_CPU * (3 if racy or "asan" in tag else 1)  # these builds are slow
        self.racy, self.mem = racy, None if racy else mem
        self.env = dict(os.environ, **(env or {}))
        self.env["GOTRACEBACK"] = "all"
        self.base = os.path.join(BUILD, "run-%s-%s-%d" % (prop, tag.replace("/", "-"), os.getpid()))
        self.coverage = None

    def only(self, fam, idx):
        cmd = self.args + ["-only", "%d:%d" % (fam, idx)]
        before = resource.getrusage(resource.RUSAGE_CHILDREN)
        try:
            r = run(cmd, env=self.env, preexec_fn=limits(self.cpu, self.mem), timeout=min(400, max(20, remaining() + 30)))
        except subprocess.TimeoutExpired:
            return "unknown", "did not finish in time"
        after = resource.getrusage(resource.RUSAGE_CHILDREN)
        used = after.ru_utime + after.ru_stime - before.ru_utime - before.ru_stime
        if r.returncode == 0:
            return "ok", ""
        if r.returncode == 1:
            return "violated", r.stdout
        if r.returncode == -signal.SIGKILL and used < 0.9 * self.cpu:
            return "unknown", "something else ended the process"
        if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            return "hang", "the case did not finish in %d seconds of CPU time" % self.cpu
        return "crash", "exit status %d\n%s" % (r.returncode, r.stderr[:6000])

    def run(self):
        slots, out, err = self.base + ".slots", self.base + ".json", self.base + ".err"
        race = self.base + ".race"
        for p in (slots, out):
            if os.path.exists(p):
                os.unlink(p)
        env = dict(self.env)
        if self.racy:
            env["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % race
        with open(err, "wb") as ef:
            p = subprocess.Popen(self.args + ["-out", out, "-slots", slots], env=env, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limits(None, self.mem))
        try:
            self.watch(p, slots)
        finally:
            if p.poll() is None:
                p.kill()
            p.wait()
        code = p.returncode
        with open(err, errors="replace") as f:
            stderr = f.read()
        busy = self.read_slots(slots)
        reports = self.races(race) if self.racy else []
        res = None
        if code in (0, 1, 3) and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            self.coverage = res["coverage"]
        for f in (slots, out, err):
            if os.path.exists(f):
                os.unlink(f)
        mine = [r for r in reports if "go-textseg" in r]
        if self.coverage is not None and self.racy:
            self.coverage["race_reports"] = len(reports)
        if mine:
            raise Violated("the race detector reported %d data races in the library" % len(mine), self.witness(kind="race", report="\n".join(mine)[:20000]))
        if res is None:
            self.crashed(code, stderr, busy)
        elif res["verdict"] == "violated":
            v = res["violation"]
            if self.together and self.only(v["fam"], v["index"])[0] != "ok":
                self.coverage.update(variant=self.tag, note="stopped at a case that is wrong in a single goroutine too, which is not for this property to judge: " + v["message"][:300])
                return self.coverage
            raise Violated(v["message"], self.witness(kind="case", **v))
        elif res["verdict"] != "held":
            raise Inconclusive("%s: %s" % (self.tag, res.get("note")))
        if reports:
            raise Inconclusive("data races outside the library:\n" + reports[0][:3000])
        self.coverage["variant"] = self.tag
        return self.coverage

    def witness(self, **kw):
        return dict({"variant": self.tag, "args": self.args[1:], "binary": os.path.basename(self.binary), "cpu_limit": self.cpu}, **kw)

    def races(self, prefix):
        d, b = os.path.split(prefix)
        reports = []
        for f in sorted(os.listdir(d)):
            if f.startswith(b + "."):
                with open(os.path.join(d, f), errors="replace") as fh:
                    t = fh.read()
                reports += [x for x in t.split("==================") if "WARNING: DATA RACE" in x]
                os.unlink(os.path.join(d, f))
        return reports

    def read_slots(self, path):
        if not os.path.exists(path) or os.path.getsize(path) < 64:
            return []
        with open(path, "rb") as f:
            raw = f.read()
        ret = []
        for i in range(len(raw) // 64):
            seq, busy, fam, idx = struct.unpack_from("<4Q", raw, i * 64)
            ret.append((seq, busy, fam, idx))
        return ret

    def watch(self, p, slots):
        seen, cleared = {}, set()
        while True:
            try:
                p.wait(timeout=1)
                return
            except subprocess.TimeoutExpired:
                pass
            if remaining() < 0:
                p.kill()
                raise OutOfTime("%s: out of time" % self.tag)
            now = time.time()
            for i, s in enumerate(self.read_slots(slots)):
                if i not in seen or seen[i][0] != s:
                    seen[i] = (s, now)
                elif s[1] and now - seen[i][1] > STALL and s[2:] not in cleared:
                    verdict, msg = self.only(s[2], s[3])
                    if verdict in ("hang", "violated", "crash"):
                        p.kill()
                        raise Violated(msg, self.witness(kind=verdict, fam=s[2], index=s[3], seed=SEED, tier=TIER))
                    cleared.add(s[2:])

    def crashed(self, code, stderr, busy):
        for s in busy:
            if not s[1]:
                continue
            verdict, msg = self.only(s[2], s[3])
            if verdict in ("crash", "hang", "violated"):
                if verdict == "crash" and "harness:" in msg:
                    raise Inconclusive(msg)
                raise Violated("a case ends the process (%s): %s" % (verdict, msg), self.witness(kind=verdict, fam=s[2], index=s[3], seed=SEED, tier=TIER))
        # it needs company: the Go runtime names the culprit
        lib = "go-textseg" in stderr or "/textseg/" in stderr
        if lib and ("fatal error:" in stderr or "SIG" in stderr or "panic:" in stderr) and code != 3:
            raise Violated("the process died with status %d inside the library:\n%s" % (code, stderr[:6000]), self.witness(kind="process", stderr=stderr[:20000]))
        raise Inconclusive("%s: exit status %s without a result\n%s" % (self.tag, code, stderr[:3000]))


# ---------------------------------------------------------------- the checks

def vm(prop, variant="amd64", **kw):
    kw.setdefault("mem", None if variant == "asan" else MEM)
    return lambda: Runner(build_mon("vmon", variant), prop, "vmon/" + variant, racy=variant == "race", **kw).run()


def huge(prop):
    if prop in ("C14", "C15", "C16"):
        return lambda: Runner(build_mon("vauto"), prop + "H", "vauto/huge", mem=28 << 30).run()
    return vm(prop + "H", mem=28 << 30)


def many(prop):
    if prop == "C07":
        return vm("C07N")
    return lambda: Runner(build_mon("vauto"), prop + "N", "vauto/many").run()


def firsts(prop):
    """New processes that begin with other calls."""
    if prop == "C07":
        return vm("C07S", mem=None)
    return lambda: Runner(build_mon("vauto"), prop + "S", "vauto/first calls").run()


def quick(a, b):
    return b if TIER == "thorough" else a


def erratic(prop, program="vmon"):
    """The same monitor where clocks and the like change from one moment to the next."""
    def f():
        try:
            b = build_mon(program, "erratic")
        except Inconclusive as e:  # another standard library
            if "go-textseg" in str(e) or "/repo/" in str(e):
                raise
            return {"variant": program + "/erratic", "note": "not run: " + str(e)[-600:]}
        c = Runner(b, prop, program + "/erratic", mem=MEM, scale=quick(0.3, 1), extra=["-noexh"]).run()
        c.pop("slowest_case", None)
        if c["observed"].get("years on the clock", 10) < 10:
            c["note"] = "the clock is not erratic"
        h = Runner(b, prop + "H", program + "/erratic/huge", mem=28 << 30, scale=quick(0.3, 1)).run()
        c["evaluations"] += h["evaluations"]
        c["observed"].update(("huge: " + k, v) for k, v in h["observed"].items())
        return c
    return f


def light(prop, variant, q, t):
    """A smaller run of the same monitor in another build."""
    return vm(prop, variant, scale=quick(q, t), extra=["-noexh"])


def c13_builds():
    """Every supported release has the automatic module's functions."""
    errs = {}
    for g in ("1.27", "1.26", "1.25"):
        try:
            build_mon("vauto", go=g)
        except Inconclusive as e:
            errs[g] = str(e)
    if 0 < len(errs) < 3:
        raise Violated("with Go %s a program that uses the automatic module cannot be built, with other supported releases it can:\n%s" % (" and ".join(errs), next(iter(errs.values()))[:3000]), {"kind": "build", "args": ["./cmd/vauto"], "go": sorted(errs)})


def c13_variants():
    """The selection must not depend on how the program is built."""
    import platcheck
    covs = []
    files, err = platcheck.listing(sys.modules[__name__])
    tags = platcheck.custom_tags(sys.modules[__name__], files) if files else []
    todo = [(g, v) for g in ("1.27", "1.26", "1.25") for v in ("386", "test")] + [(g, v) for g in ("1.27", "1.26") for v in ("race", "asan")]
    todo += [(g, "tag-" + t) for g in ("1.27", "1.26") for t in tags[:20]]
    todo += [(g, "experiment-" + t) for g in ("1.27", "1.26", "1.25") for t in (platcheck.experiments(files) if files else [])]
    for go, v in todo:
        try:
            b = build_mon("vauto", v, go=go)
        except Inconclusive as e:
            if v.startswith("experiment-") and "unknown GOEXPERIMENT" in str(e):
                continue
            if "go-textseg" not in str(e) and "auto." not in str(e):
                raise
            raise Violated("with Go %s and %s a program that uses the automatic module cannot be built, otherwise it can:\n%s" % (go, v, str(e)[:3000]), {"kind": "build", "args": ["./cmd/vauto"], "go": [go], "variant": v})
        c = Runner(b, "C13", "vauto/go%s/%s" % (go, v), racy=v == "race", mem=None if v in ("asan", "race") else MEM, scale=0.3, extra=["-noexh"] if v in ("asan", "race") else []).run()
        covs.append(c)
    return {"variant": "other builds: " + ", ".join("go%s/%s" % t for t in todo), "evaluations": sum(c["evaluations"] for c in covs), "distinct_nontrivial": max(c["distinct_nontrivial"] for c in covs), "observed": {"builds": len(todo), "build tags of the sources": tags}, "samples": []}


def other_platforms(judge):
    """Calls judge(release, platform) for the platforms that select other source files."""
    import platcheck
    covs, done, ports, notes = [], [], 0, []
    for go in ("1.27", "1.26", "1.25"):
        _, sets, n = platcheck.selections(sys.modules[__name__], go, notes=notes)
        ports += n
        for p in list(sets)[:6]:
            try:
                covs.append(judge(go, p.replace("/", "-")))
                done.append("go%s/%s" % (go, p))
            except Inconclusive as e:  # files of another platform need not compile here
                notes.append("go%s/%s: %s" % (go, p, str(e)[-300:]))
    return {"variant": "files that other platforms select", "evaluations": sum(c["evaluations"] for c in covs), "distinct_nontrivial": max([c["distinct_nontrivial"] for c in covs], default=0),
            "observed": {"platforms": ports, "sets of files other than this platform's": len(done), "run with": done, "notes": notes[:5]}, "samples": []}


def c13_platforms():
    def judge(go, p):
        b = build_mon("vauto", "files-" + p, go=go)
        return Runner(b, "C13", "vauto/go%s/files-%s" % (go, p), extra=["-noexh"], scale=0.1).run()
    return other_platforms(judge)


def autos(prop):
    def one(go):
        return lambda: Runner(build_mon("vauto", go=go), prop, "vauto/go" + go).run()
    return [one(g) for g in ("1.27", "1.26", "1.25")]


def auto_light(prop):
    return lambda: Runner(build_mon("vauto", "386"), prop, "vauto/386", extra=["-noexh"], scale=quick(0.2, 0.5)).run()


def races():
    n = quick(3, 12)
    steps = [vm("C08", "race", extra=["-procs", str(pr)]) for pr in (8, 4, 2, 3, 8, 16, 5, 8, 2, 4, 8, 12)[:n]]
    steps.append(vm("C08"))
    # (one case of these is a thousand calls)
    steps.append(vm("C08M", cpu=1200))
    steps.append(lambda: Runner(build_mon("vauto"), "C08T", "vauto/throngs", cpu=1200).run())
    steps.append(lambda: Runner(build_mon("vauto", "race"), "C08T", "vauto/race/throngs", cpu=1200, racy=True, scale=quick(0.1, 0.5)).run())
    # the very first calls of a process are concurrent here: what is initialised late shows
    for i in range(quick(6, 30)):
        steps.append(vm("C08", "race" if i % 3 else "amd64", scale=0.01, extra=["-seed", str(SEED * 1000 + 1 + i)]))
    # everything else that is exported, and the internal packages, from eight goroutines at once
    for prop in ("C14", "C15", "C16"):
        steps.append(lambda prop=prop: Runner(build_mon("vauto", "race"), prop, "vauto/race/" + prop, racy=True, together=True, extra=["-noexh"], scale=0.02).run())
    for prop in ("C20", "C21"):
        steps.append(lambda prop=prop: internal_races(prop))
    for prop in ("C01", "C03"):
        steps.append(vm(prop, "race", together=True, extra=["-noexh"], scale=quick(0.005, 0.015)))
    return steps


def internal_races(prop):
    try:
        b = build_vint(prop, "race")
    except Inconclusive as e:  # the internal packages changed shape; what is exported is still judged
        return {"variant": "vint/race/" + prop, "note": "not run: " + str(e)[:500]}
    return Runner(b, prop, "vint/race/" + prop, racy=True, together=True, extra=["-noexh"], scale=quick(0.005, 0.05)).run()


def c13_extra():
    """A toolchain the module does not know must not build (it is told so by a build tag)."""
    args = ["-tags", "go1.28", "./cmd/vlink"]
    r = run([find_go("1.27"), "build", "-o", os.path.join(BUILD, "vlink-future")] + args, cwd=MON, env=go_env(), timeout=300)
    if r.returncode == 0:
        raise Violated("built for a Go release the module does not support, ScanGraphemeClusters is available all the same", {"kind": "build", "args": args})
    if "ScanGraphemeClusters" not in r.stderr and "go-textseg" not in r.stderr:
        raise Inconclusive("unexpected build failure:\n" + r.stderr[-2000:])
    import platcheck
    ck = sys.modules[__name__]
    _, sets, n = platcheck.selections(ck, "1.27", ["-tags", "go1.28"])
    for p in sets:
        ov = files_of(p.replace("/", "-"), "1.27", ["-tags", "go1.28"])
        r2 = run([find_go("1.27"), "build", "-overlay", ov, "-o", os.path.join(BUILD, "vlink-future")] + args, cwd=MON, env=go_env(), timeout=300)
        if r2.returncode == 0:
            raise Violated("built for a Go release the module does not support and for %s, ScanGraphemeClusters is available all the same" % p, {"kind": "build", "args": args, "platform": p})
    return {"variant": "go1.28 simulated by tag", "evaluations": 1, "observed": {"refused builds": 1 + len(sets), "platforms": n}, "samples": [r.stderr.strip()[:300]]}


def c23_platforms():
    def judge(go, p):
        return c23(go, "files-" + p)()
    return other_platforms(judge)


def c23(go, variant="amd64"):
    def f():
        b = build_mon("vlink", variant, go=go)
        r = run([b], timeout=60)
        if r.returncode != 0:
            raise Inconclusive("vlink: " + r.stderr[:2000])
        o = json.loads(r.stdout)
        want = str(o["std_major"])
        if o["symbols"] < 100:
            raise Inconclusive("no symbol table")
        sel = o["data_bytes"].get(want, 0)
        other = {k: v for k, v in o["data_bytes"].items() if k != want}
        # (The selected version may keep its data where no symbol shows them.)
        if sum(other.values()) > 100:
            raise Violated("go %s, %s (Unicode %s): bytes of Unicode tables in the executable by version: %s" % (go, variant, want, o["data_bytes"]), {"kind": "link", "go": go, "symbols": o["data_symbols"]})
        if variant == "amd64":
            CONTENT.update({v: sorted(set(c)) for v, c in o["content"].items() if v == want})
            BINARIES[go] = (b, want)
        return {"variant": "vlink/go%s/%s" % (go, variant), "evaluations": o["symbols"], "distinct_nontrivial": len(o["data_symbols"]), "observed": {k: o[k] for k in ("data_bytes", "code_bytes", "clusters", "tokens", "sequences")},
                "samples": [s["name"] for s in o["data_symbols"][:3]]}
    return f


CONTENT, BINARIES = {}, {}


def link_program(names, more="", imports=""):
    """A program that refers to some exported names of the automatic module only."""
    uses = "".join("\tsink = append(sink, %s)\n" % n for n in names)
    return """package main

import (
	"fmt"
	"os"
%s
	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

var sink []any

var keep = auto.UnicodeMajorVersion

func main() {
%s%s	fmt.Println(len(os.Args), len(sink), keep)
}
""" % (imports, uses, more)


# All methods of what the program can reach stay reachable.
BY_NAME = """	for _, x := range sink {
		v := reflect.ValueOf(x)
		if m := v.MethodByName(os.Args[0]); m.IsValid() {
			m.Call(nil)
		}
		template.Must(template.New("").Parse("{{.}}")).Execute(os.Stderr, fmt.Sprintf("%T", x))
	}
"""


def c23_parts(go):
    """Programs that use one exported name each, and one that finds methods by name."""
    def f():
        import platcheck
        ck = sys.modules[__name__]
        lst, err = platcheck.listing(ck, go=go)
        if lst is None:
            raise Inconclusive("go list: " + err[:2000])
        names, types = set(), set()
        for d, (files, _) in lst.items():
            if d.rstrip("/").endswith("autoversion/textseg"):
                for x in files:
                    with open(os.path.join(d, x), errors="replace") as fh:
                        src = fh.read()
                    names.update(re.findall(r"^(?:func|var) ([A-Z]\w*)\b(?!\[)", src, re.M))
                    types.update(re.findall(r"^type ([A-Z]\w*)\b(?!\[)", src, re.M))
        progs = {n: link_program(["auto." + n]) for n in names}
        progs["methods by name"] = link_program(["auto." + n for n in sorted(names)] + ["new(auto.%s)" % t for t in sorted(types)], BY_NAME, '\t"reflect"\n\t"text/template"\n')
        progs["nothing"] = link_program([])
        b, want = BINARIES[go]
        seen = {}
        for i, (n, src) in enumerate(sorted(progs.items())):
            d = os.path.join(BUILD, "vpart-%s-%d" % (go, i))
            os.makedirs(d, exist_ok=True)
            with open(d + "/main.go", "w") as fh:
                fh.write(src)
            with open(d + "/overlay.json", "w") as fh:
                json.dump({"Replace": {MON + "/cmd/vpart/main.go": d + "/main.go"}}, fh)
            try:
                exe = build("vpart-%s-%d/prog" % (go, i), MON, ["-overlay", d + "/overlay.json", "./cmd/vpart"], go_env(), find_go(go), "vpart")
            except Inconclusive as e:
                seen[n] = "does not build: " + str(e)[-200:]
                continue
            r = run([b], timeout=60, env=dict(os.environ, VLINK_EXE=exe))
            if r.returncode != 0:
                raise Inconclusive("vlink: " + r.stderr[:2000])
            o = json.loads(r.stdout)
            seen[n] = o["data_bytes"]
            if sum(v for k, v in o["data_bytes"].items() if k != want) > 100:
                raise Violated("go %s (Unicode %s), a program that uses %s: bytes of Unicode tables in the executable by version: %s" % (go, want, n, o["data_bytes"]), {"kind": "link", "go": go, "program": src, "symbols": o["data_symbols"]})
        if sum(isinstance(v, dict) for v in seen.values()) < 3:
            raise Inconclusive("no small programs: %s" % seen)
        return {"variant": "vpart/go" + go, "evaluations": len(seen), "observed": seen}
    return f


def c23_content():
    """Tables of other versions under names that do not tell: pieces of the known tables are looked for in the executables."""
    found = {}
    for go, (path, want) in BINARIES.items():
        with open(path, "rb") as f:
            exe = f.read()
        for v, pieces in CONTENT.items():
            n = sum(bytes.fromhex(x) in exe for x in pieces)
            found["go%s: Unicode %s" % (go, v)] = "%d of %d" % (n, len(pieces))
            if v != want and len(pieces) >= 10 and n * 5 > len(pieces):
                raise Violated("go %s (Unicode %s): %d of %d pieces of the tables of Unicode %s are in the executable" % (go, want, n, len(pieces), v), {"kind": "link", "go": go})
    if len(CONTENT) < 2:
        return {"variant": "content", "note": "tables of one version only"}
    return {"variant": "content of the tables", "evaluations": len(found), "observed": found}


def c23_tags():
    """Builds with the build tags that the sources mention."""
    import platcheck
    files, err = platcheck.listing(sys.modules[__name__])
    tags = platcheck.custom_tags(sys.modules[__name__], files) if files else []
    covs, notes = [], []
    for t in ["tag-" + t for t in tags[:20]] + ["experiment-" + x for x in (platcheck.experiments(files) if files else [])]:
        try:
            covs.append(c23("1.27", t)())
        except Inconclusive as e:
            notes.append("%s: %s" % (t, str(e)[-300:]))
    return {"variant": "build tags", "evaluations": sum(c["evaluations"] for c in covs), "observed": {"tags": tags, "notes": notes}}


RULE23 = "Every symbol of an executable that uses all of the automatic-version module and is built with each installed toolchain, read by the program from its own executable at run time. Non-trivial: data symbols that belong to a versioned implementation."


def gen_steps(prop):
    def f():
        import gencheck
        return gencheck.run_check(sys.modules[__name__], prop)
    return [f]


def platforms():
    import platcheck
    return platcheck.run_check(sys.modules[__name__])


def sealed(go):
    def f():
        import sealcheck
        return sealcheck.one(sys.modules[__name__], go)
    return f


def vint(prop, *more):
    def one(which):
        return lambda: Runner(build_vint(prop), which, "vint/amd64").run()
    return [one(p) for p in (prop,) + more]


CHECKS = {
    "C01": lambda: [vm("C01", scale=quick(2, 6)), huge("C01"), light("C01", "386", 0.2, 0.5)],
    "C02": lambda: [vm("C02", scale=quick(2, 6)), vm("C02X", cpu=300, mem=64 << 30), light("C02", "386", 0.2, 0.5)],
    "C03": lambda: [vm("C03"), huge("C03"), light("C03", "386", 0.1, 0.3)],
    "C04": lambda: [vm("C04", scale=quick(3, 8)), huge("C04"), light("C04", "386", 0.1, 0.3)],
    "C05": lambda: [vm("C05", scale=quick(3, 10)), huge("C05"), light("C05", "386", 0.1, 0.3)],
    "C06": lambda: [vm("C06", scale=quick(3, 6)), huge("C06"), light("C06", "386", 0.2, 0.5)],
    "C07": lambda: [vm("C07"), huge("C07"), many("C07"), firsts("C07"), erratic("C07"), light("C07", "386", 0.1, 0.3)],
    "C08": races,
    "C09": lambda: [vm("C09"), vm("C09B"), vm("C09R"), vm("C09L"), light("C09", "race", 0.1, 0.5), light("C09", "asan", 0.1, 0.5)],
    "C10": lambda: [vm("C10"), vm("C18", "386")],
    "C11": lambda: [vm("C11"), huge("C11"), light("C11", "386", 0.3, 0.3)],
    "C12": lambda: [vm("C12"), huge("C12"), light("C12", "386", 0.1, 0.3)],
    "C13": lambda: [c13_builds] + autos("C13") + [c13_variants, c13_platforms, c13_extra],
    "C14": lambda: autos("C14") + [huge("C14"), many("C14"), firsts("C14"), erratic("C14", "vauto"), auto_light("C14")],
    "C15": lambda: autos("C15") + [huge("C15"), many("C15"), firsts("C15"), erratic("C15", "vauto"), auto_light("C15")],
    "C16": lambda: autos("C16") + [huge("C16"), many("C16"), firsts("C16"), erratic("C16", "vauto"), auto_light("C16")],
    "C17": lambda: gen_steps("C17"),
    "C18": lambda: gen_steps("C18"),
    "C19": lambda: gen_steps("C19"),
    "C20": lambda: vint("C20", "C20H"),
    "C21": lambda: vint("C21"),
    "C22": lambda: vint("C22"),
    "C24": lambda: vint("C24"),
    "C27": lambda: vint("C27"),
    "C25": lambda: [platforms],
    "C26": lambda: [sealed(g) for g in quick([None, "1.26"], [None, "1.26", "1.25"])],
    "C23": lambda: [c23(g) for g in ("1.27", "1.26", "1.25")] + [c23_parts("1.27"), c23_parts("1.25"), c23("1.27", "race"), c23("1.27", "not-inlined"), c23("1.25", "not-inlined"), c23("1.27", "not-optimised"), c23("1.27", "386"), c23("1.25", "386"), c23_content, c23_tags, c23_platforms],
}
LEVELS = {"C12": "fault_enumeration", "C19": "fault_enumeration"}


def write_evidence(prop, covs, violations, note=None):
    main = covs[0] if covs else {}
    cov = {k: v for k, v in main.items() if k not in ("variant",)}
    cov.setdefault("evaluations", 0)
    cov.setdefault("distinct_nontrivial", 0)
    cov.setdefault("samples", [])
    if prop == "C23":
        cov["rule"] = RULE23
    cov.setdefault("rule", "no run finished")
    cov["first_run"] = main.get("variant", "none")
    if len(covs) > 1:
        cov["further_runs"] = [{k: v for k, v in c.items() if k not in ("rule", "samples", "families")} for c in covs[1:]]
    if note:
        cov["note"] = note
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": LEVELS.get(prop, "exploration"), "coverage": cov,
          "assumptions": ["the executions listed are the ones judged; nothing is claimed about others",
                          "the pinned Unicode 17 data and rules of mon/oracle (cross-checked against the official break tests on every run, and against ICU 78 when they were pinned)"],
          "wall_s": round(time.time() - T0, 2), "violations": violations}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")


def check(prop):
    covs, note = [], None
    try:
        for step in CHECKS[prop]():
            t = time.time()
            try:
                c = step()
            except OutOfTime as e:
                if not covs:
                    raise
                # a monitor stops at the first violation, so it saw none until then
                note = "%s; what ran until then held" % e
                print("CUT-SHORT property=%s: %s" % (prop, note), flush=True)
                break
            if c is not None:
                c["run_wall_s"] = round(time.time() - t, 1)
                covs.append(c)
    except Violated as v:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, TIER, SEED))
        w = dict(v.witness, checked_property=prop, message=v.message, tier=TIER, seed=SEED)
        with open(path, "w") as f:
            json.dump(w, f, indent=1)
        write_evidence(prop, covs, 1, "violated: " + v.message[:1500])
        print(v.message[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    except Inconclusive as e:
        write_evidence(prop, covs, 0, "inconclusive: " + str(e)[:1500])
        print("INCONCLUSIVE property=%s: %s" % (prop, e), flush=True)
        return 3
    except Exception:
        # a fault of this script is not a verdict about the code
        print("INCONCLUSIVE property=%s\n%s" % (prop, traceback.format_exc()), flush=True)
        return 3
    write_evidence(prop, covs, 0, note)
    c = covs[0]
    print("HELD property=%s on %s executions (%s distinct and non-trivial), %d builds/runs, %.1f s" % (prop, c.get("evaluations"), c.get("distinct_nontrivial"), len(covs), time.time() - T0))
    for c in covs:
        print("  %-28s %s" % (c.get("variant"), json.dumps(c.get("observed", {}))[:400]))
    return 0


def replay(path):
    with open(path) as f:
        w = json.load(f)
    prop, kind = w["checked_property"], w["kind"]
    print("property %s, kind %s\n%s\n" % (prop, kind, w["message"][:3000]))
    if kind.startswith("gen"):
        import gencheck
        return gencheck.replay(sys.modules[__name__], w)
    if kind in ("link", "build", "platform", "seal"):
        return check(prop)
    name = w["binary"].split("-")
    name[1:-1] = ["-".join(name[1:-1])]
    if name[0] == "vint":
        b = build_vint(name[1], name[2])
    else:
        b = build_mon(name[0], name[1], None if name[2] == "default" else name[2])
    env = dict(os.environ)
    args = [b] + w["args"]
    if kind == "case":
        args += ["-replay", path]
    elif kind in ("race", "process"):
        env["GORACE"] = "halt_on_error=1"
        args += ["-out", os.devnull]
    else:
        args += ["-only", "%d:%d" % (w["fam"], w["index"])]
    r = subprocess.run(args, env=env, preexec_fn=limits(w.get("cpu_limit", CASE_CPU) if kind == "hang" else None, None))
    print("exit status", r.returncode)
    return 1 if r.returncode else 0


def setup():
    for v in ("amd64", "386", "race", "asan"):
        build_mon("vmon", v)
    for g in ("1.27", "1.26", "1.25"):
        build_mon("vauto", go=g)
        build_mon("vlink", go=g)
    build_mon("vauto", "race")
    for p in ("C20", "C21", "C22", "C24", "C27"):
        build_vint(p)
    for p in ("C20", "C21"):
        build_vint(p, "race")
    import sealcheck
    sealcheck.build(sys.modules[__name__])
    print("built")
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1]
    if a == "setup":
        return setup()
    if a == "replay":
        return replay(sys.argv[2])
    return check(a)


if __name__ == "__main__":
    sys.exit(main())
