"""A standard library in which clocks, counts of processors and goroutines,
process number, host name and environment differ from one call to the next: what
depends on nothing but its arguments does not notice."""
import json
import os
import re
import shutil

HOOKS = (("time/time.go", r"sec, nsec, mono := runtimeNow\(\)\n(?=\tif mono == 0 \{)", 'sec, nsec, mono := runtimeNow()\n\tahead, wall := runtime.VerifAhead()\n\tmono += ahead\n\tsec += wall + ahead/1e9\n'),
         ("time/time.go", r"subMono\(runtimeNano\(\)-startNano, t\.ext\)", "subMono(verifNano()-startNano, t.ext)"),
         ("time/time.go", r"subMono\(t\.ext, runtimeNano\(\)-startNano\)", "subMono(t.ext, verifNano()-startNano)"),
         ("runtime/debug.go", r"func NumCPU\(\) int \{\n", "func NumCPU() int {\n\tif n := VerifSome(64); n > 0 {\n\t\treturn n\n\t}\n"),
         ("runtime/debug.go", r"func NumGoroutine\(\) int \{\n", "func NumGoroutine() int {\n\tif n := VerifSome(100); n > 0 {\n\t\treturn n * n * n\n\t}\n"),
         ("os/exec.go", r"func Getpid\(\) int \{ return ", "func Getpid() int { return runtime.VerifSome(100) + "),
         ("os/sys.go", r"func Hostname\(\) \(name string, err error\) \{\n", 'func Hostname() (name string, err error) {\n\tif n := runtime.VerifSome(4); n > 0 {\n\t\treturn "localhost"[:n], nil\n\t}\n'),
         ("os/env.go", r"testlog\.Getenv\(key\)\n", 'testlog.Getenv(key)\n\tif n := runtime.VerifSome(4); n > 0 && len(key) > 1 && key[:2] != "GO" && key[0] != \'V\' {\n\t\treturn VALUE\n\t}\n'))
TAIL = """
func verifNano() int64 {
	ahead, _ := runtime.VerifAhead()
	return runtimeNano() + ahead
}
"""


def overlay(ck, go=None):
    """The path of the overlay, and what could not be made erratic."""
    root = ck.run([ck.find_go(go), "env", "GOROOT"], env=ck.go_env(), timeout=60).stdout.strip()
    d = os.path.join(ck.BUILD, "erratic-%s" % (go or "default"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text, missed = {}, []
    for f, pat, new in HOOKS:
        src = os.path.join(root, "src", f)
        if f not in text:
            with open(src) as fh:
                text[f] = fh.read()
        count = [0]

        def put(m):
            count[0] += 1
            return new.replace("VALUE", '"10"[:n%3]' if count[0] == 1 else '"10"[:n%3], n%3 != 0')
        t = re.sub(pat, put, text[f])
        if count[0] != (2 if f == "os/env.go" else 1):
            missed.append(f + ": " + pat)
            continue
        text[f] = t
    rep = {os.path.join(root, "src/runtime/verif_erratic.go"): os.path.join(ck.MON, "erratic", "verif_erratic.go.txt")}
    for f, t in text.items():
        if "runtime.Verif" in t and not re.search(r'(?m)^(import )?\s*"runtime"$', t):
            t = re.sub(r"(?m)^(package \w+)$", r'\1\n\nimport "runtime"', t, count=1)
        if f == "time/time.go":
            t += TAIL
        p = os.path.join(d, f.replace("/", "_"))
        with open(p, "w") as fh:
            fh.write(t)
        rep[os.path.join(root, "src", f)] = p
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    return ov, missed
