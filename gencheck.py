"""Checks of the table generator: C17 (regeneration), C18 (made-up data) and C19 (faults).

The generator is built from /repo's working tree and run in scratch
directories; the tables it writes are compiled into the library through an
overlay, and the library is then observed by the monitors of mon/cmd/vmon.
"""
import base64
import concurrent.futures
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import tempfile
import threading
import zlib

CHARPROPS = "/repo/textseg/internal/charprops"
TABLE = CHARPROPS + "/property_table_raw.go"
FILES = ["auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"]
PAIRS = [("", ""), ("CR", ""), ("LF", ""), ("Control", ""), ("Extend", "Extend"), ("Extend", ""), ("Extend", "Linker"), ("ZWJ", "Extend"),
         ("SpacingMark", ""), ("Prepend", ""), ("L", ""), ("V", ""), ("T", ""), ("LV", ""), ("LVT", ""), ("Regional_Indicator", ""), ("ExtPict", ""), ("", "Consonant")]
RI = PAIRS.index(("Regional_Indicator", ""))

GEN_CPU = 30  # it needs well under a second


class Ctx:
    def __init__(self, ck):
        self.ck = ck
        self.dir = tempfile.mkdtemp(prefix="gen-", dir=ck.BUILD)
        self.gen = ck.build("generator", CHARPROPS, ["./generate.go"], ck.go_env(), ck.find_go(), "the generator")
        self.n = 0
        self.table = None
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def clean(self):
        """The table of the shipped data."""
        with self.lock:
            if self.table is None:
                d = self.shipped()
                self.generate(d)
                self.table = read(d + "/property_table_raw.go")
                shutil.rmtree(d)
            return self.table

    def scratch(self):
        self.n += 1
        d = os.path.join(self.dir, "%d-%d" % (self.n, random.getrandbits(40)))
        os.makedirs(d)
        return d

    def shipped(self):
        d = self.scratch()
        shutil.copytree(CHARPROPS + "/ucd", d + "/ucd")
        return d

    def generate(self, d, env=None, preexec=None, witness=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (GEN_CPU, GEN_CPU + 1))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if preexec:
                preexec()
        r = subprocess.run([self.gen], cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600, preexec_fn=pre)
        if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL) or r.returncode > 0 and r.stderr.startswith("SIGXCPU"):
            raise self.ck.Violated("the generator does not finish in %d seconds of CPU time" % GEN_CPU, witness or {"kind": "gen-data", "files": pack(d)})
        return r

    def build_with(self, table, d):
        """vmon over the library with another table."""
        ov = d + "/overlay.json"
        with open(ov, "w") as f:
            json.dump({"Replace": {TABLE: table}}, f)
        r = self.ck.run([self.ck.find_go(), "build", "-o", d + "/vmon", "-overlay", ov, "./cmd/vmon"], cwd=self.ck.MON, env=self.ck.go_env(), timeout=600)
        return d + "/vmon", r

    def observe(self, vmon, ucd, d):
        r = self.ck.run([vmon, "-prop", "C18", "-seed", str(self.ck.SEED), "-ucd", ucd, "-out", d + "/res.json"], timeout=600, env=dict(os.environ, GOMAXPROCS="4"))
        if r.returncode not in (0, 1):
            if r.returncode == 3:
                raise self.ck.Inconclusive("vmon: " + r.stderr[:2000])
            return {"verdict": "violated", "violation": {"message": "the library dies on the generated table: " + r.stderr[:3000]}, "coverage": {}}
        with open(d + "/res.json") as f:
            return json.load(f)


def pack(d):
    """The data files of a case, for its replay file."""
    ret = {}
    for f in FILES:
        p = os.path.join(d, "ucd", f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                ret[f] = base64.b64encode(fh.read()).decode()
    return ret


def unpack(files, d):
    for f, b in files.items():
        p = os.path.join(d, "ucd", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(base64.b64decode(b))


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ C17

def older(rng, good, i):
    """What may be in the place of the table before it is generated."""
    if i < 2:
        return None
    same = bytearray(good)
    for _ in range(rng.choice([1, 1, 3, 100])):  # of the same size
        j = rng.randrange(len(same))
        same[j] = (same[j] + rng.randrange(1, 50)) % 128
    last = bytearray(good)
    last[-rng.randint(2, 2000)] ^= 1
    lines = good.split(b"\n")
    moved = list(lines)
    j = rng.randrange(20, len(lines) - 20)
    moved[j], moved[j + 7] = moved[j + 7], moved[j]
    kinds = [bytes(same), good + rng.choice([b"\n", b"// end\n", b"garbage", good]), good[:rng.randrange(len(good))], b"\n".join(moved), bytes(last), good.replace(b"\n", b"\r\n"),
             b"", b"garbage", b"package charprops\n" * 100000, b"\n".join(lines[:rng.randint(1, 12)]) + b"\n", good, good.replace(b"0x1", b"0x2")]
    return kinds[(i - 2) % len(kinds)]


def stdio(rng):
    """Other things than pipes to be run with; what remains open is to be closed."""
    k = rng.randrange(6)
    if k == 0:
        a, b = os.openpty()
        return (lambda: [os.dup2(b, n) for n in (0, 1)]), [a, b]
    if k == 1:
        a = os.open(os.devnull, os.O_RDWR)
        return (lambda: [os.dup2(a, n) for n in (0, 1)]), [a]
    if k == 2:
        return (lambda: [os.close(n) for n in (0, 1)]), []
    if k == 3:
        return (lambda: os.umask(rng.choice([0, 0o027, 0o077]))), []
    return None, []


def slow_racy(ck):
    """The generator with the race detector, and with a standard library whose reading of some files can be made slow."""
    args, note = ["-race"], "race detector"
    root = ck.run([ck.find_go(), "env", "GOROOT"], env=ck.go_env(), timeout=60).stdout.strip()
    src = os.path.join(root, "src/os/file.go")
    t = read(src).decode()
    head = "func (f *File) Read(b []byte) (n int, err error) {\n"
    if t.count(head) == 1 and '\t"time"\n' in t:
        d = os.path.join(ck.BUILD, "slow-overlay")
        os.makedirs(d, exist_ok=True)
        t = t.replace(head, "func verifSlow(name, part string) bool {\n\tfor i := 0; part != \"\" && i+len(part) <= len(name); i++ {\n\t\tif name[i:i+len(part)] == part {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\n" + head
                      + "\tif f != nil && verifSlow(f.name, Getenv(\"VERIF_SLOW\")) {\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n")
        with open(d + "/file.go", "w") as f:
            f.write(t)
        with open(d + "/overlay.json", "w") as f:
            json.dump({"Replace": {src: d + "/file.go"}}, f)
        args += ["-overlay", d + "/overlay.json"]
        note += ", slow files"
    try:
        return ck.build("generator-race", CHARPROPS, args + ["./generate.go"], ck.go_env(CGO_ENABLED="1"), ck.find_go(), "the generator"), note
    except ck.Inconclusive as e:
        return None, str(e)[:300]


def c17(x):
    ck = x.ck
    outs = {}
    runs = 300 if ck.TIER == "thorough" else 26
    good = b""
    rng = random.Random(ck.SEED)
    for i in range(runs):
        d = x.shipped()
        # what else the data's copy may look like
        for f in [d + "/ucd"] + [os.path.join(d, "ucd", f) for f in FILES] + [d + "/ucd/auxiliary"]:
            t = rng.randrange(10 ** 9, 2 * 10 ** 9)
            os.utime(f, (t, t))
            if rng.random() < 0.5:
                os.chmod(f, os.stat(f).st_mode ^ 0o022)
        if rng.random() < 0.5:
            with open(d + "/ucd/extra.txt", "w") as f:
                f.write("0300 ; Control\n")
        if rng.random() < 0.5:
            new = d + "-" + "x" * rng.randint(1, 80)
            os.rename(d, new)
            d = new
        pre = older(rng, good, i)
        if pre is not None:
            with open(d + "/property_table_raw.go", "wb") as f:
                f.write(pre)
            t = rng.choice([0, 10 ** 9, 2 * 10 ** 9, 4 * 10 ** 9])
            os.utime(d + "/property_table_raw.go", (t, t))
        # (variables that the sources may ask for)
        env = {n: rng.choice(["", "0", "1", "true", "debug", "1700000000"]) for n in sorted(filter(re.compile("[A-Z][A-Z0-9_]{3,}").fullmatch, (bytes.fromhex(s).decode("latin-1") for s in ck.words()["Strings"]))) if rng.random() < 0.6}
        pre, fds = stdio(rng)
        r = x.generate(d, dict(env, **{"GOMAXPROCS": rng.choice(["1", "2", "8"]), "GOGC": rng.choice(["off", "10", "100"]), "LANG": rng.choice(["C", "de_DE.UTF-8"]), "TZ": rng.choice(["UTC", "Asia/Tokyo"]), "USER": rng.choice(["root", "x"]), "HOSTNAME": rng.choice(["a", "b"]), "SOURCE_DATE_EPOCH": str(rng.randrange(10 ** 9)), "PWD": rng.choice([d, "/"])}), preexec=pre)
        for fd in fds:
            os.close(fd)
        if r.returncode != 0:
            raise ck.Violated("the generator fails on the shipped data: " + r.stderr[:3000], {"kind": "gen-shipped"})
        good = good or read(d + "/property_table_raw.go")
        outs.setdefault(hashlib.sha256(read(d + "/property_table_raw.go")).hexdigest(), d)
    if len(outs) > 1:
        raise ck.Violated("%d runs of the generator on the shipped data wrote %d different files" % (runs, len(outs)), {"kind": "gen-shipped"})
    digest, d = next(iter(outs.items()))
    # what could come out differently at another time, even if it does not here
    racy, raced = slow_racy(ck)
    for i in range(0 if racy is None else 40 if ck.TIER == "thorough" else 5):
        e = x.shipped()
        slow = ["", "emoji", "Derived", "Grapheme", "property"][i % 5]
        r = subprocess.run([racy], cwd=e, env=dict(os.environ, GORACE="log_path=%s/race exitcode=0 history_size=4" % e, GOMAXPROCS=str((8, 2, 4, 1)[i % 4]), VERIF_SLOW=slow), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        log = "".join(read(os.path.join(e, f)).decode(errors="replace") for f in sorted(os.listdir(e)) if f.startswith("race."))
        if "DATA RACE" in log:
            raise ck.Violated("what the generator writes depends on how its goroutines are scheduled:\n" + log[:4000], {"kind": "gen-shipped"})
        if r.returncode != 0 or hashlib.sha256(read(e + "/property_table_raw.go")).hexdigest() != digest:
            raise ck.Violated("when reading of %s is slow, the generator %s" % (slow or "nothing", "writes another file" if r.returncode == 0 else "fails: " + r.stderr[:3000]), {"kind": "gen-shipped"})
        shutil.rmtree(e)
    # the documented way, in a copy of the module
    m = x.scratch()
    shutil.copytree("/repo/textseg", m + "/textseg")
    shutil.copy("/repo/go.mod", m)
    if os.path.exists("/repo/go.sum"):
        shutil.copy("/repo/go.sum", m)
    env = ck.go_env()
    env["PATH"] = os.path.dirname(ck.find_go()) + ":" + env.get("PATH", "")
    r = ck.run([ck.find_go(), "generate", "./textseg/internal/charprops"], cwd=m, env=env, timeout=600)
    if r.returncode != 0:
        raise ck.Violated("go generate fails on the shipped data: " + r.stderr[:3000], {"kind": "gen-shipped"})
    if hashlib.sha256(read(m + "/textseg/internal/charprops/property_table_raw.go")).hexdigest() != digest:
        raise ck.Violated("go generate and the generator run by itself write different files", {"kind": "gen-shipped"})
    regen = d + "/property_table_raw.go"
    identical = read(regen) == read(TABLE)
    new, r = x.build_with(regen, d)
    if r.returncode != 0:
        raise ck.Violated("the library does not build with the regenerated table: " + r.stderr[:3000], {"kind": "gen-shipped"})
    old = ck.build_mon("vmon")
    cov = None
    for name, b in (("committed", old), ("regenerated", new)):
        res = x.observe(b, CHARPROPS + "/ucd", d)
        if res["verdict"] == "violated":
            raise ck.Violated("the %s table is not what the shipped data say: %s" % (name, res["violation"]["message"]), {"kind": "gen-shipped"})
        cov = res["coverage"]
    dumps = []
    for name, b in (("old", old), ("new", new)):
        p = d + "/" + name + ".dump"
        r = ck.run([b, "dump", p], timeout=600)
        if r.returncode != 0:
            raise ck.Violated("the library dies over all code points: " + r.stderr[:3000], {"kind": "gen-shipped"})
        dumps.append(read(p))
    if dumps[0] != dumps[1]:
        bad = [i // 8 for i in range(0, len(dumps[0]), 8) if dumps[0][i:i + 8] != dumps[1][i:i + 8]]
        raise ck.Violated("regenerating the table from the shipped data changes the behaviour of %d code points, the first being U+%04X" % (len(bad), bad[0]), {"kind": "gen-shipped"})
    same = set(dumps[0][i:i + 8] for i in range(0, len(dumps[0]), 8))
    return {"variant": "generator", "evaluations": 2 * 0x110000, "distinct_nontrivial": cov["distinct_nontrivial"],
            "rule": "The generator run repeatedly on the shipped data under different settings and over different old files, and through go generate; then every code point in 775 contexts on the library with the committed and with the regenerated table, digests compared, and in distinguishing contexts against the shipped files read by a parser of the check's own. Non-trivial: code points with a property.",
            "samples": cov["samples"], "observed": {"generator runs": runs + 1, "more runs": raced, "distinct outputs": len(outs), "regenerated file is byte-identical to the committed one": identical, "distinct behaviours of code points": len(same), "bytes compared": len(dumps[0])}}


# ------------------------------------------------------------------ C18

def parse_shipped():
    """cp -> index into PAIRS, from the shipped files."""
    gcb, incb = {}, {}
    for k, f in enumerate(FILES):
        for line in read(CHARPROPS + "/ucd/" + f).decode().split("\n"):
            line = line.split("#")[0]
            if ";" not in line:
                continue
            p = [s.strip() for s in line.split(";")]
            a, _, b = p[0].partition("..")
            a, b = int(a, 16), int(b or a, 16)
            for cp in range(a, b + 1):
                if k == 0:
                    gcb[cp] = p[1]
                elif k == 1 and p[1] == "Extended_Pictographic":
                    gcb[cp] = "ExtPict"
                elif k == 2 and p[1] == "InCB" and len(p) > 2:
                    incb[cp] = p[2]
    t = bytearray(0x110000)
    for cp in set(gcb) | set(incb):
        t[cp] = PAIRS.index((gcb.get(cp, ""), incb.get(cp, "")))
    return t


EDGES = [0x80, 0xBF, 0xC0, 0x7FF, 0x800, 0xFFF, 0x1000, 0xFFFD, 0xFFFF, 0x10000, 0x1003F, 0x10040, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x10FFC0, 0xD7FF, 0xE000, 0x2000, 0x3400]


def blocks_of(t):
    """An upper bound on the blocks any reasonable layout needs, and whether a
    block equals the first ASCII block."""
    n = 2
    clash = False
    for a, b in ((0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)):
        s = set(bytes(t[i:i + 64]) for i in range(a, b, 64))
        n += len(s | {bytes(64)})
        clash = clash or bytes(t[:64]) in s
    idx = 8
    for a in list(range(0x800, 0x110000, 4096)):
        idx += 1 if any(t[a:a + 4096]) else 0
    raw = 2 + sum(1 for i in range(0x80, 0x110000, 64) if any(t[i:i + 64]))
    return n, idx, clash, raw


def mutate(rng, base, kind):
    t = bytearray(base)
    clear = lambda a, b: t.__setitem__(slice(a, b), bytes(b - a))
    if kind in ("sparse", "periodic", "huge", "twins", "crowded", "wide"):
        t = bytearray(0x110000)
        t[:128] = base[:128]
    else:
        for _ in range(rng.randint(1, 6)):  # make room
            a = rng.choice([0x300, 0x900, 0x1000, 0x1A00, 0xA800, 0xAC00, 0x10000, 0x11000, 0x1D000, 0x1E000, 0x1F000])
            clear(a, a + rng.choice([0x100, 0x600, 0x1000]))
    if kind == "periodic":
        # a few block patterns repeated over much of the code space: many raw blocks, few distinct ones
        pats = [bytes(rng.choice([0, 0, rng.randint(1, 17)]) for _ in range(64)) for _ in range(rng.randint(1, 4))]
        per = rng.choice([64, 128, 192, 448, 64])
        a = rng.choice([0x800, 0x10000, 0x20000, 0x1000]) // 64 * 64
        b = min(0x110000, a + rng.choice([0x8000, 0x20000, 0x60000, 0x100000]))
        for i, p in enumerate(range(a, b, per)):
            t[p:p + 64] = pats[i % len(pats)]
    if kind == "twins":
        # blocks that are alike: permutations, moves that preserve sums, single differences
        a = rng.choice([0x3400, 0x4E00, 0x10000, 0x20000, 0x2A700])
        one = bytearray(rng.choice([0] * rng.choice([1, 4, 30]) + [rng.randint(1, 17)]) for _ in range(64))
        for k in range(rng.randint(20, 110)):
            b = bytearray(one)
            for _ in range(rng.randint(1, 2)):
                i, j, d = rng.randrange(64), rng.randrange(64), rng.choice([1, 2, 4, 8, 16])
                how = rng.randrange(8)
                if how == 0:
                    b[i], b[j] = b[j], b[i]
                elif how == 1 and i + d < 64 and j - d >= 0:  # the same sum of positions
                    b[i], b[i + d] = b[i + d], b[i]
                    b[j], b[j - d] = b[j - d], b[j]
                elif how == 2:
                    b = b[d:] + b[:d]
                elif how == 3:
                    b.reverse()
                elif how == 4:
                    b[i] = rng.randint(0, 17)
                elif how == 5:  # the same sum of classes
                    if b[i] and b[j] < 17:
                        b[i], b[j] = b[i] - 1, b[j] + 1
                elif how == 6 and rng.random() < 0.5:  # two equal characters stand elsewhere, as far apart
                    c, m = rng.randint(1, 17), rng.randrange(8, 56)
                    b[m - i % 8], b[m + i % 8] = c, c
                else:
                    b[0], b[63] = b[63], b[0]
            t[a:a + 64] = b
            a += 64 * rng.choice([1, 1, 2])
    if kind == "crowded":
        # about as many different blocks as a byte can number, or more
        a = rng.choice([0xA0000, 0x20000, 0x4000, 0x100000])
        n = rng.choice([rng.randint(150, 225), rng.randint(200, 250), rng.randint(235, 262), rng.randint(250, 420), 512 + rng.randint(-25, 5)])
        for k in range(n):
            c = rng.randint(1, 17)
            for bit in range(10):
                t[a + k * 64 + 3 * bit] = c if (k + 1) >> bit & 1 else 0
    if kind == "wide":
        # as many different index blocks as fit
        pats = [bytes(rng.choice([0, rng.randint(1, 17)]) for _ in range(64)) for _ in range(3)]
        for k in rng.sample(range(1, 272), rng.choice([100, 200, 240, 244, 248, 250, 252, 254, 255, 256, 260, 271])):
            for bit in range(9):
                if (k + 1) >> bit & 1:
                    p = k * 4096 + 64 * (bit * 7 + k % 5)
                    if not 0xD800 <= p <= 0xDFFF:
                        t[p:p + 64] = pats[bit % 3]
    if kind == "huge":
        # one long run of one class and isolated exceptions
        a = rng.choice(EDGES + [rng.randrange(0x80, 0x100000)])
        b = min(0x110000, a + rng.choice([0x40, 0x1000, 0x10000, 0x80000]))
        t[a:b] = bytes([rng.randint(1, 17)]) * (b - a)
    for _ in range(rng.randint(1, 25)):
        a = rng.choice(EDGES + [rng.randrange(0x80, 0x3000), rng.randrange(0x80, 0x20000), rng.randrange(0x80, 0x110000)])
        n = rng.choice([1, 1, 2, 3, 63, 64, 65, rng.randint(1, 300)])
        b = min(0x110000, a + n)
        t[a:b] = bytes([rng.randint(0, 17)]) * (b - a)
    # The code may rely on what no Unicode version changes.
    t = t.replace(bytes([RI]), bytes([RI + 1]))
    t[:128] = base[:128]
    t[0x1F1E6:0x1F200] = bytes([RI]) * 26
    if rng.random() < 0.3:
        t[0x10FFFF] = rng.randint(1, 17)
    t[0xD800:0xE000] = bytes(0x800)
    # every class needs somebody for the contexts
    for c in range(18):
        if t.find(bytes([c])) < 0:
            p = 0x3400 + 64 + c
            while t[p] and t.count(bytes([t[p]])) < 2:
                p += 1
            t[p] = c
    return t


def ranges(t):
    ret = []
    i = 0
    while i < 0x110000:
        c = t[i]
        j = i
        if c == 0:
            # skip quickly
            while j < 0x110000 and t[j] == 0:
                step = 4096
                if t[j:j + step] == bytes(len(t[j:j + step])):
                    j += step
                else:
                    j += 1
            i = min(j, 0x110000)
            continue
        while j < 0x110000 and t[j] == c:
            j += 1
        ret.append((i, j - 1, c))
        i = j
    return ret


def write_ucd(rng, t, d):
    """The three files, in one of many layouts."""
    rs = []
    # now and then with a line of its own for almost every code point
    often = 0.999 if rng.random() < 0.05 and sum(1 for v in t if v) < 300000 else 0.15
    for a, b, c in ranges(t):
        while b > a and rng.random() < often:
            m = rng.randint(a, b - 1) if often < 0.5 else a
            rs.append((a, m, c))
            a = m + 1
        rs.append((a, b, c))
    if rng.random() < 0.3 and all(not (a <= 0xD800 <= b) for a, b, _ in rs):
        rs.append((0xD800, 0xDFFF, 3))  # older versions list the surrogates
    style = rng.randrange(4)
    eol = "\r\n" if rng.random() < 0.15 else "\n"

    def hx(v):
        return {0: "%04X", 1: "%04x", 2: "%06X", 3: "%X"}[style] % v

    def line(a, b, *fields):
        r = hx(a) if a == b and rng.random() < 0.9 else hx(a) + ".." + hx(b)
        pad = " " * rng.choice([0, 1, 4]) if style else " " * max(1, 14 - len(r))
        s = r + pad + ";" + rng.choice(["", " ", "\t"]) + ("%s;%s" % (rng.choice(["", " "]), rng.choice(["", " "]))).join(fields)
        return s + rng.choice(["", " ", "  # note", " # Lo [3] 0041..005A ; Extend", "#", " # " + "x" * rng.choice([10, 5000])])

    def noise(n):
        out = []
        for _ in range(n):
            out.append(rng.choice(["", "# comment", "   ", "# 0041..005A ; Extend", "#;", "# @missing: 0000..10FFFF; Other", "############"]))
        return out

    def ignored(n, names):
        return [line(a, min(0x10FFFF, a + rng.randint(0, 2000)), *rng.choice(names)) for a in (rng.randrange(0x10F000) for _ in range(n))]

    g = [line(a, b, PAIRS[c][0]) for a, b, c in rs if PAIRS[c][0] not in ("", "ExtPict")]
    e = [line(a, b, "Extended_Pictographic") for a, b, c in rs if PAIRS[c][0] == "ExtPict"]
    i = [line(a, b, "InCB", PAIRS[c][1]) for a, b, c in rs if PAIRS[c][1] and not (a == 0xD800)]
    e += ignored(rng.randint(0, 40), [("Emoji",), ("Emoji_Presentation",), ("Emoji_Modifier",), ("Emoji_Component",)])
    i += ignored(rng.randint(0, 200), [("Math",), ("Alphabetic",), ("Grapheme_Extend",), ("Grapheme_Link",), ("Default_Ignorable_Code_Point",), ("XID_Start", "InCB"), ("Lowercase", "Consonant")])
    for _ in range(rng.choice([0, 0, 3, 12])):  # defaults may be listed
        a = rng.randrange(0x80, 0x10FF00)
        b = a
        while b < a + 500 and t[b + 1] == 0:
            b += 1
        if t[a] == 0 and not (a <= 0xDFFF and b >= 0xD800):
            g.append(line(a, b, "Other"))
            i.append(line(a, b, "InCB", "None"))
    for lines, f in ((g, FILES[0]), (e, FILES[1]), (i, FILES[2])):
        lines = lines + noise(rng.randint(0, 40))
        if rng.random() < 0.6:
            rng.shuffle(lines)
        text = eol.join(lines)
        if rng.random() < 0.8:
            text += eol
        p = os.path.join(d, "ucd", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(text.encode())


def judge18(x, d, t):
    """Runs the generator on d/ucd and judges its table. Returns (outcome, details)."""
    ck = x.ck
    n, idx, clash, raw = blocks_of(t) if t is not None else (999, 999, True, 0)
    info = {"distinct blocks": n, "index blocks": idx, "blocks with properties": raw}
    r = x.generate(d)
    if r.returncode != 0:
        if not r.stderr.strip():
            raise ck.Violated("the generator fails without a message", {"kind": "gen-data", "files": pack(d)})
        if n <= 250 and idx <= 250 and not clash:
            raise ck.Violated("the generator rejects well-formed data of ordinary size (%s): %s" % (info, r.stderr[:1500]), {"kind": "gen-data", "files": pack(d), "sizes": info})
        return "refused", info
    first = read(d + "/property_table_raw.go")
    r = x.generate(d, {"GOMAXPROCS": "3"})
    if r.returncode != 0 or read(d + "/property_table_raw.go") != first:
        raise ck.Violated("two runs of the generator on the same data differ (status %d)" % r.returncode, {"kind": "gen-data", "files": pack(d)})
    vmon, r = x.build_with(d + "/property_table_raw.go", d)
    if r.returncode != 0:
        if "property_table_raw.go" not in r.stderr and "charprops" not in r.stderr:
            raise ck.Inconclusive("build: " + r.stderr[:2000])
        raise ck.Violated("the generator succeeded, but the library does not build with its table: " + r.stderr[:2000], {"kind": "gen-data", "files": pack(d)})
    res = x.observe(vmon, d + "/ucd", d)
    if res["verdict"] == "violated":
        raise ck.Violated("the table generated from made-up data is wrong (%s): %s" % (info, res["violation"]["message"]), {"kind": "gen-data", "files": pack(d), "sizes": info})
    info["cov"] = res["coverage"]
    return "right", info


# ---- many tables in one process (mon/overlay/c18.go.txt)

def deep_build(ck, table=None, tag="deep"):
    over = {ck.REPO + "/textseg/internal/verifvint/set.go": "%s/overlay/%s.go.txt" % (ck.MON, "c18fix" if table else "c18set"),
            TABLE: table or ck.MON + "/overlay/table.go.txt"}
    return ck.build_vint("C18", tag, over)


def deep18(x):
    """Returns the coverage, or a note on why there is none. What it finds is
    reported only if the generator and the library show it when used as intended."""
    ck = x.ck
    name = "tables built and used within a process"
    try:
        binary = deep_build(ck)
    except ck.Inconclusive as e:  # the internal packages have another shape
        return {"variant": name, "note": "not run: " + str(e)[:500]}
    env = {"VERIF_SCRATCH": x.dir, "GOGC": "400"}
    mk = lambda k: ck.Runner(binary, "C18", "vint/deep-%d" % k, extra=["-workers", "1", "-seed", str(ck.SEED * 64 + k)], env=env)
    if mk(0).only(0, 0)[0] != "ok":
        return {"variant": name, "note": "not run: the shipped data do not come out right this way"}

    def one(k):
        r = mk(k)
        try:
            return r.run(), None
        except ck.Violated as v:
            return r, v
        except ck.Inconclusive as e:
            return None, e
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(8)))
    covs, notes = [], []
    for r, e in res:
        if e is None:
            covs.append(r)
        elif r is None:
            notes.append(str(e)[:300])
        else:
            notes.append("not confirmed: " + e.message[:300])
            confirm(x, r, e)
    ret = {"variant": name, "evaluations": sum(c["evaluations"] for c in covs), "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in covs), "observed": {}, "samples": covs[0]["samples"][:4] if covs else []}
    for c in covs:
        for k, n in c["observed"].items():
            ret["observed"][k] = ret["observed"].get(k, 0) + n
    if notes:
        ret["note"] = "; ".join(notes)
    return ret


def confirm(x, runner, v):
    """Shows the same data to the generator itself and builds the library with its table."""
    ck = x.ck
    if "fam" not in v.witness:
        return
    d = x.scratch()
    env = dict(runner.env, VERIF_KEEP=d)
    ck.run(runner.args + ["-only", "%d:%d" % (v.witness["fam"], v.witness["index"])], env=env, timeout=300)
    if not os.path.exists(d + "/values"):
        return
    try:
        confirm_in(x, d)
    except ck.Violated as w:
        w.message = "%s\n(in one process: %s)" % (w.message, v.message[:600])
        raise w


def confirm_in(x, d):
    ck = x.ck
    t = bytearray(read(d + "/values"))
    n, idx, clash, raw = blocks_of(t)
    info = {"distinct blocks": n, "index blocks": idx, "blocks with properties": raw}
    w = {"kind": "gen-deep", "files": pack(d), "values": base64.b64encode(zlib.compress(bytes(t))).decode(), "sizes": info}
    r = x.generate(d, witness=w)
    if r.returncode != 0:
        if not r.stderr.strip():
            raise ck.Violated("the generator fails without a message", w)
        if n <= 250 and idx <= 250 and not clash:
            raise ck.Violated("the generator rejects well-formed data of ordinary size (%s): %s" % (info, r.stderr[:1500]), w)
        return
    b = deep_build(ck, d + "/property_table_raw.go", "deep-confirm")
    r = ck.run([b, "-prop", "C18", "-only", "2:0"], env=dict(os.environ, VERIF_VALUES=d + "/values"), timeout=300)
    if r.returncode == 1:
        raise ck.Violated("the table generated from made-up data is wrong (%s): %s" % (info, r.stdout[:1500]), w)


KINDS = ["edited", "twins", "edited", "sparse", "periodic", "twins", "huge", "edited", "edited", "twins", "crowded", "sparse", "periodic", "wide", "huge", "edited"]


def one18(x, base, k):
    rng = random.Random(x.ck.SEED * 1000003 + k)
    kind = KINDS[k % len(KINDS)]
    for _ in range(50):
        t = mutate(rng, base, kind)
        n, idx, clash, raw = blocks_of(t)
        if n <= 250 and idx <= 250 and not clash or kind in ("crowded", "wide") or rng.random() < 0.02:
            break
    d = x.scratch()
    write_ucd(rng, t, d)
    out, info = judge18(x, d, t)
    with open(d + "/ucd/" + FILES[0], errors="replace") as f:
        sample = "%s: %s" % (kind, [l.rstrip()[:60] for l in f.readlines()[:3]])
    shutil.rmtree(d)
    return kind, out, info, sample, hashlib.sha256(bytes(t)).hexdigest()


def c18(x):
    ck = x.ck
    base = parse_shipped()
    total = 3000 if ck.TIER == "thorough" else 200
    right, refused, seen, samples, cps, maxraw, over = 0, 0, set(), [], 0, 0, 0
    kinds = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one18, x, base, k) for k in range(total)]
        try:
            for f in futs:
                if ck.remaining() < 60:
                    raise ck.Inconclusive("out of time")
                kind, out, info, sample, h = f.result()
                kinds[kind + ", " + out] = kinds.get(kind + ", " + out, 0) + 1
                if out == "right":
                    right += 1
                    seen.add(h)
                    cps += info["cov"]["observed"]["code points"]
                    maxraw = max(maxraw, info["blocks with properties"])
                    over += info["blocks with properties"] > 1024
                else:
                    refused += 1
                if len(samples) < 6:
                    samples.append(sample)
        except BaseException:
            for f in futs:
                f.cancel()
            raise
    deep = deep18(x)
    if right < total * 0.8 or over < 2:
        raise ck.Inconclusive("only %d of %d data sets were accepted, %d of them large" % (right, total, over))
    return {"variant": "generator", "evaluations": right + refused, "distinct_nontrivial": len(seen),
            "rule": "Sets of property files made by editing the shipped data, or made up (sparse, long runs, block patterns repeated over planes so that there are thousands of raw blocks, about as many different blocks as can be numbered or more), in many layouts and line orders; the library is rebuilt with the generated table and every code point observed in contexts that tell all classes apart. Non-trivial: distinct data sets for which a table was generated and judged.",
            "samples": samples, "further": deep, "observed": dict(kinds, **{"tables judged right": right, "data sets refused with an error": refused, "code points observed": cps, "most raw blocks": maxraw, "tables with more than 1024 raw blocks": over})}


# ------------------------------------------------------------------ C19

def inject_line(rng, path, line, at=None):
    lines = read(path).split(b"\n")
    if at is None:
        at = rng.randrange(len(lines))
    lines.insert(at, line)
    with open(path, "wb") as f:
        f.write(b"\n".join(lines))
    return at


FIELDS = {FILES[0]: b"Extend", FILES[1]: b"Extended_Pictographic", FILES[2]: b"InCB; Extend"}


# Entries that are cut short or name no existing value.
SHORT = {FILES[0]: [b"0300", b"0300..036F", b"0300..036", b"0300 Extend", b"0300 ;", b"0300..036F ; Ext", b"0300 ; extend", b"0300 ; Extend Extend", b"0300 ; SM", b"0300 ; Error", b"Extend", b"0300, Extend", b"0300 ; LVTT", b"0300 ; Regional Indicator", b"0300 ; None"],
         FILES[1]: [b"1F600", b"1F600..1F610", b"1F600 Extended_Pictographic", b"1F600 ;", b"1F600..1F610;", b"Extended_Pictographic", b"1F600: Extended_Pictographic"],
         FILES[2]: [b"0915", b"0915..0917", b"0915 InCB", b"0915 ;", b"0915 ; InCB", b"0915 ; InCB ;", b"0915 ; InCB; Conso", b"0915 ; InCB; consonant", b"0915 ; InCB; Consonant Linker", b"InCB", b"0915 ; InCB; Error"]}


def is_short(line, f):
    """The entry is surely cut short."""
    line = line.strip()
    if not line:
        return False
    p = [s.strip().decode() for s in line.split(b";")]
    if len(p) == 1 or p[1] == "":
        return True
    if f == FILES[0]:
        return p[1] != "Other" and p[1] not in (q[0] for q in PAIRS)
    return f == FILES[2] and p[1] == "InCB" and (len(p) < 3 or p[2] not in ("None", "Consonant", "Linker", "Extend"))


def cut_short(rng, path, f):
    """Ends the file within an entry."""
    text = read(path)
    while True:
        at = text.find(b"\n", rng.randrange(len(text))) + 1
        line = text[at:text.find(b"\n", at)].split(b"#")[0]
        if b";" not in line or f == FILES[2] and b"InCB" not in line:
            continue
        n = rng.randint(1, len(line.rstrip()) - 1)
        if is_short(line[:n], f):
            break
    with open(path, "wb") as fh:
        fh.write(text[:at + n] + rng.choice([b"", b"\n", b"\n# EOF\n"]))


def contradict(rng, path, f):
    """Adds an entry that gives a listed code point another value of the same property."""
    entries = [l.split(b"#")[0] for l in read(path).split(b"\n")]
    entries = [l for l in entries if b";" in l and (f == FILES[0] or b"InCB" in l)]
    while True:
        e = [p.strip() for p in rng.choice(entries).split(b";")]
        a, _, b = e[0].partition(b"..")
        a, b = int(a, 16), int(b or a, 16)
        if not (a <= 0xDFFF and b >= 0xD800):
            break
    v = rng.choice(sorted({p[f == FILES[2]] for p in PAIRS if p[f == FILES[2]] not in ("", "ExtPict", e[-1].decode())}))
    c = rng.randint(a, b)
    r = rng.choice([b"%04X" % c, b"%04X..%04X" % (c, b), b"%04X..%04X" % (a, c)])
    inject_line(rng, path, r + b" ; " + (b"InCB; " if f == FILES[2] else b"") + v.encode())


def pictograph_too(rng, d, v):
    """Makes a character that has the break property v a pictograph as well."""
    entries = [l.split(b"#")[0].split(b";") for l in read(os.path.join(d, "ucd", FILES[0])).split(b"\n")]
    entries = [e[0].strip() for e in entries if len(e) == 2 and e[1].strip() == v.encode() and e[0][:1] != b"@"]
    while True:
        a, _, b = rng.choice(entries).partition(b"..")
        a, b = int(a, 16), int(b or a, 16)
        if not (a <= 0xDFFF and b >= 0xD800):
            break
    c = rng.randint(a, b)
    r = rng.choice([b"%04X" % c, b"%04X..%04X" % (c, b), b"%04X..%04X" % (a, c)])
    inject_line(rng, os.path.join(d, "ucd", FILES[1]), r + b" ; Extended_Pictographic")


class CaseRng:
    """The random numbers of the case that the thread is about."""
    local = threading.local()

    def __getattr__(self, name):
        return getattr(self.local.rng, name)


def faults(rng, reps):
    """(name, touches output?, function that damages directory d)"""
    out = []
    for f in FILES:
        def p(d, f=f):
            return os.path.join(d, "ucd", f)
        out.append(("missing: " + f, False, lambda d, p=p: os.unlink(p(d))))
        out.append(("dangling link: " + f, False, lambda d, p=p: (os.unlink(p(d)), os.symlink("nowhere", p(d)))))
        out.append(("directory in its place: " + f, False, lambda d, p=p: (os.unlink(p(d)), os.mkdir(p(d)))))
        out.append(("link loop: " + f, False, lambda d, p=p: (os.unlink(p(d)), os.symlink(os.path.basename(p(d)), p(d)))))
        for bad in (b"zzzz", b"", b"12G4", b"0041..", b"..0041", b"0041..xyz", b"0041 0042", b"110000", b"10FFFF..110000", b"0042..0041", b"10FFFF..0000", b"FFFFFFFF", b"0300..FFFFFFFF", b"80000000",
                    b"100000300", b"-300", b"0x300", b"0300...0301", b"0300..0301..0302", b"7FFFFFFF", b"D800..110000", b"FFFFFFFFFFFFFFFF0300"):
            for _ in range(reps):
                out.append(("range %r: %s" % (bad.decode(), f), False, lambda d, p=p, bad=bad, f=f: inject_line(rng, p(d), bad + b" ; " + FIELDS[f] + b" # x")))
        for bad in SHORT[f]:
            for _ in range(reps):
                out.append(("entry %r: %s" % (bad.decode(), f), False, lambda d, p=p, bad=bad: inject_line(rng, p(d), bad + rng.choice([b"", b" ", b" # x", b" # 0041 ; Extend", b"\r"]))))
        for _ in range(4 * reps):
            out.append(("cut short in an entry: " + f, False, lambda d, p=p, f=f: cut_short(rng, p(d), f)))
        for where in (0, None, -1):
            out.append(("overlong line (%s): %s" % (where, f), False, lambda d, p=p, w=where: inject_line(rng, p(d), b"# " + b"x" * rng.randint(70000, 200000), w if w != -1 else 10 ** 9)))
        out.append(("overlong data line: " + f, False, lambda d, p=p, f=f: inject_line(rng, p(d), (b"1F600 ; " if f == FILES[1] else b"0300 ; ") + FIELDS[f] + b" # " + b"x" * 70000)))
    for cp in (b"0300", b"0300..0310", b"1F1E6", b"000A", b"AC00", b"1100..1101"):
        out.append(("Extended_Pictographic on %s, which has a break property" % cp.decode(), False, lambda d, cp=cp: inject_line(rng, os.path.join(d, "ucd", FILES[1]), cp + b" ; Extended_Pictographic#")))
    for v in sorted({p[0] for p in PAIRS} - {"", "ExtPict"}):
        for _ in range(2 * reps):
            out.append(("Extended_Pictographic on a character that is " + v, False, lambda d, v=v: pictograph_too(rng, d, v)))
    for f in (FILES[0], FILES[2]):
        for _ in range(12 * reps):
            out.append(("contradiction: " + f, False, lambda d, f=f: contradict(rng, os.path.join(d, "ucd", f), f)))

    def crowd(d):
        with open(os.path.join(d, "ucd", FILES[0]), "ab") as f:
            f.write(b"\n")
            for k in range(400):
                for bit in range(10):
                    if k >> bit & 1:
                        f.write(b"%X ; Extend\n" % (0x20000 + k * 64 + bit))
    out.append(("more distinct blocks than the table can number", False, crowd))
    out.append(("no directory of data", False, lambda d: shutil.rmtree(os.path.join(d, "ucd"))))
    t = lambda d: os.path.join(d, "property_table_raw.go")
    rm = lambda d: os.path.exists(t(d)) and os.unlink(t(d))
    out.append(("output is a full device", True, lambda d: (rm(d), os.symlink("/dev/full", t(d)))))
    out.append(("output is a directory", True, lambda d: (rm(d), os.mkdir(t(d)))))
    out.append(("output is a link into a missing directory", True, lambda d: (rm(d), os.symlink("no/such/dir", t(d)))))
    out.append(("output is a link loop", True, lambda d: (rm(d), os.symlink("property_table_raw.go", t(d)))))
    for lim in (0, 1, 4096, 50000):
        out.append(("file size limit %d" % lim, lim, None))
    return out


def one19(x, name, kind, harm, k):
    ck = x.ck
    d = x.shipped()
    rng = random.Random(k)
    old = rng.choice([None, b"", b"package charprops // the previous table\n"])
    if old is not None:
        with open(d + "/property_table_raw.go", "wb") as f:
            f.write(old)
    pre = None
    CaseRng.local.rng = random.Random(k * 31 + 7)
    if harm is not None:
        harm(d)
    else:
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (kind, kind))
    w = {"kind": "gen-fault", "fault": name, "files": pack(d)} if kind is False else {"kind": "gen-fault", "fault": name}
    r = x.generate(d, preexec=pre, witness=w)
    if r.returncode == 0:
        p = d + "/property_table_raw.go"
        if kind is not False:
            # it found a way round: then the table must be there, and complete
            ok = os.path.isfile(p) and read(p) == x.clean()
        elif name.startswith(("overlong", "more distinct blocks")):
            # a limit of the implementation is not reached: then the table must be right
            shutil.copytree(d + "/ucd", d + "-again/ucd")
            ok = judge18(x, d + "-again", None)[0] == "right" and read(p) == read(d + "-again/property_table_raw.go")
        else:
            ok = False
        if not ok:
            raise ck.Violated("fault (%s): the generator reports success" % name, w)
        shutil.rmtree(d)
        return name, "(success, with a complete table)"
    if not r.stderr.strip():
        raise ck.Violated("fault (%s): the generator fails without a message" % name, w)
    if kind is False:
        p = d + "/property_table_raw.go"
        now = read(p) if os.path.exists(p) else None
        if now != old:
            raise ck.Violated("fault (%s): the generator failed but replaced the previous table with %s" % (name, None if now is None else now[:80]), w)
    msg = r.stderr.strip().split("\n")[0][:160]
    shutil.rmtree(d)
    return name, msg


def c19(x):
    ck = x.ck
    # without a fault it succeeds, or nothing would be shown
    for _ in range(2):
        d = x.shipped()
        r = x.generate(d)
        if r.returncode != 0 or len(read(d + "/property_table_raw.go")) < 10000:
            raise ck.Inconclusive("the generator fails without any fault: " + r.stderr[:1000])
    fs = faults(CaseRng(), 20 if ck.TIER == "thorough" else 3)
    msgs, names = {}, set()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one19, x, n, k, h, ck.SEED * 7919 + i) for i, (n, k, h) in enumerate(fs)]
        try:
            for f in futs:
                name, msg = f.result()
                names.add(name)
                msgs[msg] = msgs.get(msg, 0) + 1
        except BaseException:
            for f in futs:
                f.cancel()
            raise
    return {"variant": "generator", "evaluations": len(fs), "distinct_nontrivial": len(names),
            "rule": "Single faults injected into a run of the generator over the shipped data: each input missing, replaced, unreadable or holding one malformed, impossible or overlong line at random positions, contradictory data, too much data, an output that cannot be written or only in part; the run must exit with a nonzero status and a message, and after input faults the previous table must be untouched. Non-trivial: every case; distinct by kind of fault and file.",
            "samples": sorted(names)[:8], "observed": {"faults injected": len(fs), "distinct faults": len(names), "distinct messages": len(msgs), "messages": dict(sorted(msgs.items(), key=lambda m: -m[1])[:12])}}


def run_check(ck, prop):
    x = Ctx(ck)
    try:
        return {"C17": c17, "C18": c18, "C19": c19}[prop](x)
    finally:
        x.close()


def replay(ck, w):
    if w["kind"] == "gen-shipped":
        return ck.check("C17")
    x = Ctx(ck)
    try:
        if w["kind"] == "gen-fault" and "files" not in w:
            return ck.check("C19")
        d = x.scratch()
        unpack(w["files"], d)
        if w["kind"] == "gen-deep":
            with open(d + "/values", "wb") as f:
                f.write(zlib.decompress(base64.b64decode(w["values"])))
            try:
                confirm_in(x, d)
            except ck.Violated as v:
                print("REPRODUCED", v.message[:3000])
                return 1
            return 0
        if w["kind"] == "gen-fault":
            r = x.generate(d)
            print("exit status %d\n%s" % (r.returncode, r.stderr[:2000]))
            return 1 if r.returncode == 0 else 0
        try:
            n = w.get("sizes") or {}
            t = None
            if n.get("distinct blocks", 999) <= 250:
                t = bytearray(0x110000)  # small enough: refusing it is wrong
                t[0] = 3
            print(judge18(x, d, t))
        except ck.Violated as v:
            print("REPRODUCED", v.message[:3000])
            return 1
        return 0
    finally:
        x.close()
