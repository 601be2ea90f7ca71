"""C25: one program, many builds; the digests of what they observed must agree.

Builds differ in architecture, toolchain, optimisation, instrumentation, build
tags and the set of source files other platforms select; runs differ in
environment. Nothing is expected of a result except that it is everywhere the
same: what the right result is, other properties say."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess

MODS = ("github.com/apparentlymart/go-textseg/v17", "github.com/apparentlymart/go-textseg/autoversion")
PACKAGES = [m + "/textseg" for m in MODS]
LIMIT = 400  # CPU seconds of one run, which takes 2 to 30

KNOWN_TAG = re.compile(r"^(go1(\.\d+)?|cgo|unix|gc|gccgo|race|msan|asan|ignore|true|false|goexperiment\..*|tools?|generate|test|never)$")


class Variant:
    def __init__(self, name, go=None, env=None, args=(), run_env=None, wasm=False, overlay=None, test=False):
        self.name, self.go, self.env, self.args, self.run_env, self.wasm, self.overlay, self.test = name, go, env or {}, list(args), run_env, wasm, overlay, test
        self.path = None


def listing(ck, env=None, args=(), go=None):
    """The source files of the library's packages that a platform selects: {directory: (selected, not selected)}"""
    r = ck.run([ck.find_go(go), "list", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,SFiles,IgnoredGoFiles"] + list(args) + PACKAGES, cwd=ck.MON, env=ck.go_env(CGO_ENABLED="0", **(env or {})), timeout=120)
    if r.returncode != 0:
        return None, r.stderr
    ret, dec, i = {}, json.JSONDecoder(), 0
    s = r.stdout
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        if o["ImportPath"].startswith(MODS):
            ret[o["Dir"]] = (tuple(sorted(o.get("GoFiles", []) + o.get("CgoFiles", []))), tuple(sorted(o.get("IgnoredGoFiles", []))))
    return ret, ""


def selections(ck, go, args=(), notes=None):
    """The sets of files that differ from this platform's, each with one platform that selects it; and this platform's."""
    base, err = listing(ck, args=args, go=go)
    if base is None:
        raise ck.Inconclusive("go list: " + err[:2000])
    ports = ck.run([ck.find_go(go), "tool", "dist", "list"], timeout=60).stdout.split()
    seen, sets = {json.dumps(base, sort_keys=True)}, {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        listed = list(ex.map(lambda p: (p, listing(ck, dict(zip(("GOOS", "GOARCH"), p.split("/"))), args, go)), ports))
    for p, (f, err) in listed:
        k = json.dumps(f, sort_keys=True)
        if f is not None and k not in seen:
            seen.add(k)
            sets[p] = f
        elif f is None and notes is not None:
            notes.append("go%s, %s: %s" % (go, p, err[-300:]))
    return base, sets, len(ports)


def custom_tags(ck, base):
    """Names in build constraints of the library that are no platform, release or instrumentation."""
    r = ck.run([ck.find_go(), "tool", "dist", "list"], timeout=60)
    known = {x for l in r.stdout.split() for x in l.split("/")}
    tags = set()
    for d, (a, b) in base.items():
        for f in a + b:
            if f.endswith("_test.go"):
                continue
            with open(os.path.join(d, f), errors="replace") as fh:
                for line in fh:
                    if line.startswith("package "):
                        break
                    if line.startswith("//go:build ") or line.startswith("// +build "):
                        tags |= set(re.findall(r"[A-Za-z_][\w.]*", line.split("build", 1)[1]))
    return sorted(t for t in tags if not KNOWN_TAG.match(t) and t not in known)


def experiments(base):
    ret = set()
    for d, (a, b) in base.items():
        for f in a + b:
            with open(os.path.join(d, f), errors="replace") as fh:
                ret |= set(re.findall(r"(?m)^//go:build .*\bgoexperiment\.(\w+)", fh.read()))
    return [n + x for x in sorted(ret)[:5] for n in ("", "no")]  # (some are on by default)


def emulate(ck, name, base, other):
    """An overlay with which this platform compiles the files another one would select."""
    d = os.path.join(ck.BUILD, "vdig-files-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = {}
    n = 0
    for dirn, (files, _) in other.items():
        mine = base.get(dirn, ((), ()))[0]
        for f in files:
            if f not in mine:
                with open(os.path.join(dirn, f)) as fh:
                    src = fh.read()
                src = re.sub(r"(?m)^//go:build .*$|^// \+build .*$", "//", src)
                p = os.path.join(d, "f%d.go" % n)
                with open(p, "w") as fh:
                    fh.write(src)
                rep[os.path.join(dirn, "zz_other_platform_%d.go" % n)] = p
                n += 1
        for f in mine:
            if f not in files:
                rep[os.path.join(dirn, f)] = ""
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    return ov


def pretend(ck, base, goos, goarch):
    """An overlay in which the library takes itself to be on another platform, if it asks."""
    d = os.path.join(ck.BUILD, "vdig-pretend-%s-%s" % (goos, goarch))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = {}
    for dirn, (files, _) in base.items():
        for f in files:
            with open(os.path.join(dirn, f), errors="replace") as fh:
                src = fh.read()
            new = re.sub(r"\bruntime\.GOOS\b", '"%s"' % goos, re.sub(r"\bruntime\.GOARCH\b", '"%s"' % goarch, src))
            if new != src:
                new += "\nvar _ = runtime.GOOS\n"
            if goarch in ("s390x", "ppc64"):
                new = re.sub(r"\bbinary\.NativeEndian\b", "binary.BigEndian", new)
            if new != src:
                p = os.path.join(d, "f%d.go" % len(rep))
                with open(p, "w") as fh:
                    fh.write(new)
                rep[os.path.join(dirn, f)] = p
    if not rep:
        return None
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    return ov


def build(ck, v):
    out = os.path.join(ck.BUILD, "vdig-" + re.sub(r"[^\w.-]", "_", v.name))
    # (the words must be the same everywhere: the digests of the workload are compared)
    args = [a + " " + ck.linked() if a.startswith("-ldflags=") else a for a in v.args]
    if args == list(v.args):
        args.append("-ldflags=" + ck.linked())
    if v.overlay:
        args += ["-overlay", v.overlay]
    r = ck.run([ck.find_go(v.go)] + (["test", "-c"] if v.test else ["build"]) + ["-o", out] + args + ["./cmd/vdig"], cwd=ck.MON, env=ck.go_env(**v.env), timeout=600)
    return out, r.returncode, r.stderr


def command(ck, v, args):
    if v.wasm:
        root = ck.run([ck.find_go(v.go), "env", "GOROOT"], env=ck.go_env(), timeout=60).stdout.strip()
        for sub in ("lib/wasm", "misc/wasm"):
            js = os.path.join(root, sub, "wasm_exec_node.js")
            if os.path.exists(js):
                return ["node", "--stack-size=8192", js, v.path] + args
        return None
    return [v.path] + args


def execute(ck, v, args):
    cmd = command(ck, v, args)
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k != "GOCACHE":
            del e[k]
    cwd, cpu = None, None
    limit = ck.limits(LIMIT)
    if v.run_env is not None:
        cpu = v.run_env.get("-cpu")
        if v.run_env.get("-clear"):
            e = {"PATH": os.environ.get("PATH", "")}
        cwd = v.run_env.get("-cwd")
        e.update({k: x for k, x in v.run_env.items() if k[0] != "-"})
    if v.wasm:  # the arguments and environment must fit into what wasm_exec.js offers
        e = {k: e[k] for k in ("PATH", "HOME") if k in e}

    def before():
        limit()
        if cpu is not None:
            try:
                os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[0]})
            except OSError:
                pass

    try:
        for again in (True, False):
            r = subprocess.run(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=before, timeout=ck.remaining())
            # a crash of the Go runtime by itself is not the library's
            if r.returncode == 0 or not again or "runtime stack:" not in r.stderr or "go-textseg" in r.stderr:
                return r
    except subprocess.TimeoutExpired:
        raise ck.Inconclusive("out of time in " + v.name)


def differs(ck, a, b, args, key, what):
    """The first case of a block on which two builds disagree."""
    x, y = (execute(ck, v, args + ["-block", key]).stdout.splitlines() for v in (a, b))
    col = -2 if what == "textseg" else -1
    for p, q in zip(x, y):
        if p.split(" ")[col] != q.split(" ")[col]:
            return p.rsplit(" ", 3)[0]
    return "block " + key


def variants(ck, th):
    base = Variant("amd64")
    V = [base,
         Variant("386", env={"GOARCH": "386", "CGO_ENABLED": "0"}),
         Variant("wasm", env={"GOOS": "js", "GOARCH": "wasm"}, wasm=True),
         Variant("not-optimised", args=ck.gcflags("-N -l")),
         Variant("no-inlining", args=ck.gcflags("-l")),
         Variant("GOAMD64=v3", env={"GOAMD64": "v3"}),
         Variant("go1.26", go="1.26"),
         Variant("go1.25", go="1.25"),
         Variant("go1.25-386", go="1.25", env={"GOARCH": "386", "CGO_ENABLED": "0"}),
         Variant("race", env={"CGO_ENABLED": "1"}, args=["-race"]),
         Variant("asan", env={"CGO_ENABLED": "1"}, args=["-asan"]),
         Variant("test-binary", test=True),
         Variant("test-binary-with-coverage", args=["-cover", "-coverpkg=" + ",".join(PACKAGES)], test=True),
         Variant("stripped", env={"CGO_ENABLED": "0"}, args=["-trimpath", "-ldflags=-s -w", "-buildmode=pie", "-tags=netgo,osusergo,purego,appengine,safe"])]
    if th:
        V += [Variant("386-softfloat", env={"GOARCH": "386", "GO386": "softfloat", "CGO_ENABLED": "0"}),
              Variant("386-not-optimised", env={"GOARCH": "386", "CGO_ENABLED": "0"}, args=ck.gcflags("-N -l")),
              Variant("GOAMD64=v2", env={"GOAMD64": "v2"}),
              Variant("GOAMD64=v4", env={"GOAMD64": "v4"}),
              Variant("pie", args=["-buildmode=pie"]),
              Variant("no-cgo", env={"CGO_ENABLED": "0"}),
              Variant("static", env={"CGO_ENABLED": "0"}, args=["-tags=netgo,osusergo"]),
              Variant("checkptr", args=["-gcflags=all=-d=checkptr=2"]),
              Variant("go1.26-wasm", go="1.26", env={"GOOS": "js", "GOARCH": "wasm"}, wasm=True),
              Variant("go1.25-wasm", go="1.25", env={"GOOS": "js", "GOARCH": "wasm"}, wasm=True),
              Variant("go1.26-386", go="1.26", env={"GOARCH": "386", "CGO_ENABLED": "0"}),
              Variant("go1.25-not-optimised", go="1.25", args=ck.gcflags("-N -l"))]
    return V


ENVIRONMENTS = [
    ("one-processor", {"-cpu": 1, "GOGC": "1"}),
    ("empty-environment", {"-clear": True, "-cwd": "/"}),
    ("odd-locale", {"LANG": "tr_TR.UTF-8", "LC_ALL": "C", "TZ": "Pacific/Kiritimati", "GOGC": "off", "GOMAXPROCS": "33", "GODEBUG": "gcstoptheworld=1,asyncpreemptoff=1", "TERM": "dumb", "DEBUG": "1", "CI": "true", "NO_COLOR": "1"}),
    ("little-memory", {"GOMEMLIMIT": "30MiB", "GOTRACEBACK": "crash", "GODEBUG": "gccheckmark=0,cpu.all=off", "HOME": "/nonexistent", "USER": "nobody"}),
]


def asked_for(ck, args, notes):
    """Environment variables the library reads, as recorded by the standard library's own functions."""
    import sealcheck
    ov = sealcheck.overlay(ck, None)
    v = Variant("recording", args=["-tags", "verifhooks"], overlay=ov)
    code = 1
    if ov:
        v.path, code, err = build(ck, v)
    if code != 0:
        notes.append("environment variables are not recorded")
        return []
    r = execute(ck, v, args)
    if r.returncode != 0:
        notes.append("environment variables are not recorded: " + r.stderr[:300])
        return []
    ret = set()
    for e in json.loads(r.stdout)["events"] or []:
        m = re.match(r"environment variable (\S+) read by .*go-textseg/", e)
        if m:
            ret.add(m.group(1))
    return sorted(ret)[:10]


def run_check(ck):
    th = ck.TIER == "thorough"
    args = ["-seed", str(ck.SEED), "-scale", "3" if th else "0.3"]
    V = variants(ck, th)
    base = V[0]
    # what other platforms and build tags select
    files, err = listing(ck)
    if files is None:
        raise ck.Inconclusive("go list: " + err[:2000])
    r = ck.run([ck.find_go(), "tool", "dist", "list"], timeout=60)
    ports = r.stdout.split()
    tags = custom_tags(ck, files)
    seen = {json.dumps(files, sort_keys=True): "linux/amd64"}
    sets, notes = {}, []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        listed = list(ex.map(lambda p: (p, listing(ck, dict(zip(("GOOS", "GOARCH"), p.split("/"))))), ports))
    for p, (f, err) in listed:
        if f is None and not any(m in err for m in ("go-textseg", "/repo/")):
            notes.append("%s: %s" % (p, err[-300:]))
            continue
        if f is None:
            raise ck.Violated("for %s the library has no complete set of source files: %s" % (p, err[:2000]), {"kind": "platform", "variant": p})
        k = json.dumps(f, sort_keys=True)
        if k not in seen:
            seen[k] = p
            sets[p] = f
    for p, f in sets.items():
        V.append(Variant("files-of-" + p.replace("/", "-"), overlay=emulate(ck, p.replace("/", "-"), files, f)))
    for goos, goarch in (("windows", "arm64"), ("darwin", "arm"), ("plan9", "s390x"), ("freebsd", "riscv64"), ("js", "ppc64")):
        ov = pretend(ck, files, goos, goarch)
        if ov:
            V.append(Variant("pretending-%s-%s" % (goos, goarch), overlay=ov))
    import erratic
    V.append(Variant("erratic-surroundings", overlay=erratic.overlay(ck)[0]))
    for x in experiments(files):
        V.append(Variant("GOEXPERIMENT=" + x, env={"GOEXPERIMENT": x}))
    for t in tags:
        V.append(Variant("tag-" + t, args=["-tags", t]))
        V.append(Variant("tag-" + t + "-386", args=["-tags", t], env={"GOARCH": "386", "CGO_ENABLED": "0"}))
    # which variables does the library ask for?
    names = asked_for(ck, args, notes)
    for n in names:
        for val in ("1", "true", "0", "off", "15", "/tmp", "debug"):
            V.append(Variant("%s=%s" % (n, val), run_env={n: val}))
    for name, e in ENVIRONMENTS:
        V.append(Variant(name, run_env=dict(e)))
    todo = [v for v in V if v.run_env is None]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        built = list(ex.map(lambda v: build(ck, v), todo))
    for v, (out, code, stderr) in zip(todo, built):
        if code == 0:
            v.path = out
        elif v is base:
            raise ck.Inconclusive("cannot build vdig:\n" + stderr[-3000:])
        elif any(m in stderr for m in ("go-textseg", "/repo/")):
            if v.overlay:  # files of another platform need not compile here
                notes.append("%s: %s" % (v.name, stderr[-500:]))
                continue
            raise ck.Violated("does not build (%s):\n%s" % (v.name, stderr[-3000:]), {"kind": "platform", "variant": v.name})
        elif v.name.startswith(("GOEXPERIMENT=", "erratic-")):
            notes.append("%s: %s" % (v.name, stderr[-300:]))
        else:
            raise ck.Inconclusive("cannot build vdig (%s):\n%s" % (v.name, stderr[-3000:]))
    for v in V:
        if v.run_env is not None:
            v.path = base.path
    # every platform compiles it
    compiled = []
    step = 1 if th else 5
    some = sorted(set([p for i, p in enumerate(ports) if i % step == 0] + ["linux/s390x", "linux/arm64", "windows/amd64", "darwin/arm64"] + list(sets)))

    def compiles(p):
        os_, arch = p.split("/")
        return ck.run([ck.find_go(), "build", "-o", os.devnull] + PACKAGES, cwd=ck.MON, env=ck.go_env(GOOS=os_, GOARCH=arch, CGO_ENABLED="0"), timeout=600)

    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for p, r in zip(some, ex.map(compiles, some)):
            if r.returncode != 0:
                if "go-textseg" in r.stderr or "/repo/" in r.stderr:
                    raise ck.Violated("does not build for %s:\n%s" % (p, r.stderr[-3000:]), {"kind": "platform", "variant": p})
                notes.append("%s: %s" % (p, r.stderr[-300:]))
                continue
            compiled.append(p)
    runs = [v for v in V if v.path and command(ck, v, [])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda v: execute(ck, v, args), runs))
    got = {}
    for v, r in zip(runs, results):
        if r.returncode != 0:
            if v is base or "go-textseg" not in r.stderr and "/repo/" not in r.stderr and r.returncode not in (-24, -9):
                raise ck.Inconclusive("%s: exit status %d\n%s" % (v.name, r.returncode, r.stderr[:3000]))
            if results[0].returncode != 0:
                raise ck.Inconclusive("the reference build fails as well: " + r.stderr[:2000])
            raise ck.Violated("%s: exit status %d where %s ends well\n%s" % (v.name, r.returncode, base.name, r.stderr[:3000]), {"kind": "platform", "variant": v.name})
        got[v.name] = json.loads(r.stdout)
    ref = got[base.name]
    first = {ref["unicode"]: base}
    compared = 0
    for v in runs:
        o = got[v.name]
        if [b["Key"] for b in o["blocks"]] != [b["Key"] for b in ref["blocks"]] or [b["In"] for b in o["blocks"]] != [b["In"] for b in ref["blocks"]]:
            raise ck.Inconclusive("%s was given other inputs than %s" % (v.name, base.name))
        for a, b in zip(ref["blocks"], o["blocks"]):
            compared += 1
            if a["Lib"] != b["Lib"]:
                c = differs(ck, base, v, args, a["Key"], "textseg")
                raise ck.Violated("textseg gives another result in build %s (%s %s/%s) than in %s, for case %s" % (v.name, o["go"], o["os"], o["arch"], base.name, c), {"kind": "platform", "variant": v.name, "case": c})
        w = first.setdefault(o["unicode"], v)
        for a, b in zip(got[w.name]["blocks"], o["blocks"]):
            compared += 1
            if a["Auto"] != b["Auto"]:
                c = differs(ck, w, v, args, a["Key"], "autoversion")
                raise ck.Violated("the autoversion module gives another result in build %s (%s %s/%s) than in %s, for case %s" % (v.name, o["go"], o["os"], o["arch"], w.name, c), {"kind": "platform", "variant": v.name, "case": c})
    arches = {o["os"] + "/" + o["arch"] for o in got.values()}
    if len(ref["blocks"]) < 500 or not arches >= {"linux/amd64", "linux/386", "js/wasm"}:
        raise ck.Inconclusive("too little was run: %d blocks on %s" % (len(ref["blocks"]), arches))
    return {"variant": "vdig", "evaluations": sum(o["cases"] for o in got.values()), "distinct_nontrivial": ref["cases"],
            "rule": "The same inputs (every code point in contexts, all byte strings up to length 2, all class sequences up to 3, random, damaged, long ones) go through all exported functions of both modules, whole, cut and streamed, in one program built and run in every listed way; digests of results per block of 2048 inputs are compared. distinct_nontrivial counts the inputs of one run. Source files that only other platforms or build tags select are compiled into a build of their own here.",
            "observed": {"builds and runs": [v.name for v in runs], "platforms run": sorted(arches), "toolchains": sorted({o["go"] for o in got.values()}), "blocks compared": compared, "platforms compiled for": len(compiled), "platforms whose source files were listed": len(ports), "other file sets": sorted(sets), "build tags": tags, "environment variables the library reads": names},
            "samples": ref["families"][:8], "notes": notes}
