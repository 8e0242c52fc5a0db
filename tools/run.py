#!/usr/bin/env python3
"""Build the harnesses from /repo's working tree (go build -overlay) and run one property's checks."""
import json, os, shutil, subprocess, sys, tempfile
V = os.environ.get("VERIF_DIR", "/verif"); R = os.environ.get("VERIF_REPO", "/repo")
CONC = {"C05", "C11", "C13", "C14", "C15", "C16", "C24"}
CMD = {"C21", "C24", "C25", "C26"}  # checks that start the adapter as a process

def env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on",
             GOROOT="/opt/veriftools/go1.23.12", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GODEBUG"] = "goindex=0"  # the module index does not see overlays
    for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT", "CLUSTER_ROOT", "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy"):
        e.pop(k, None)
    e.update(kw)
    return e

def die(msg):
    print(msg[-6000:]); print("harness build failed"); sys.exit(2)

def go(args, cwd=R):
    r = subprocess.run(["go"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: die(r.stdout + r.stderr)
    return r.stdout

def dirs(*pkgs):
    """Where the packages' sources are; go.mod stays as it is, and a package nobody needs has none."""
    r = subprocess.run(["go", "list", "-mod=readonly", "-e", "-f", "{{.Dir}}", *pkgs], cwd=R, env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return [d for d in r.stdout.split() if os.path.isdir(d)]

def harness_files():
    rep = {}
    for pkg in sorted(os.listdir(f"{V}/mc")):
        d = f"{V}/mc/{pkg}"
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".go"): rep[f"{R}/verifmc/{pkg}/{f}"] = f"{d}/{f}"
    return rep

def write_overlay(tmp, name, rep):
    p = f"{tmp}/{name}.json"; json.dump({"Replace": rep}, open(p, "w")); return p

def sources():
    l = []
    for d, dirs, files in os.walk(f"{R}/adapter"):
        dirs[:] = sorted(x for x in dirs if x not in ("testdata", "fake", "tests", "client"  if d.endswith("/pkg") else "fake"))
        l += [f"{d}/{f}" for f in sorted(files) if f.endswith(".go") and not f.endswith("_test.go")]
    return l

def instrument(tmp, conc, extra=()):
    """Rewritten copies of the adapter's sources (clock; with conc: scheduler)."""
    tool = f"{tmp}/instr-tool"
    if not os.path.exists(tool):
        go(["build", "-o", tool, f"{V}/mc/instr/main.go"])
    out = f"{tmp}/src-{'conc' if conc else 'seq'}"; os.makedirs(out, exist_ok=True)
    r = subprocess.run([tool, "-out", out] + (["-conc"] if conc else []) + sources() + list(extra), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: die(r.stderr)
    return json.loads(r.stdout)

def no_reuse_pool(tmp):
    """The standard library's own sync.Pools order threads through reused buffers; without reuse races stay visible."""
    src = f"{env()['GOROOT']}/src/sync/pool.go"
    t = open(src).read()
    put, get = "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
    if put not in t or get not in t: return {}
    t = t.replace(put, put + "\tif race.Enabled {\n\t\treturn\n\t}\n").replace(get, get + "\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
    out = f"{tmp}/pool.go"; open(out, "w").write(t)
    return {src: out}

def random_writes(tmp):
    """crypto/rand.Read fills its buffer by system call, which the race detector does not see."""
    src = f"{env()['GOROOT']}/src/crypto/rand/rand.go"
    t = open(src).read()
    read, imp = "func Read(b []byte) (n int, err error) {\n", '\nimport "io"\n'
    if read not in t or imp not in t: return {}
    t = t.replace(imp, '\nimport (\n\t"internal/race"\n\t"io"\n\t"unsafe"\n)\n')
    t = t.replace(read, read + "\tif race.Enabled && len(b) > 0 {\n\t\trace.WriteRange(unsafe.Pointer(&b[0]), len(b))\n\t}\n")
    out = f"{tmp}/rand.go"; open(out, "w").write(t)
    return {src: out}

def build(tmp, pkg, conc):
    rep = harness_files()
    # the cookie codec's own time stamps follow the explored clock
    extra = [f"{d}/securecookie.go" for d in dirs("github.com/gorilla/securecookie")]
    extra = [f for f in extra if os.path.exists(f)]
    if conc:
        for d in dirs("golang.org/x/sync/singleflight", "github.com/golang/groupcache/singleflight"):
            extra += [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".go") and not f.endswith("_test.go")]
        rep.update(no_reuse_pool(tmp))
        rep.update(random_writes(tmp))
    rep.update(instrument(tmp, conc, extra))
    out = f"{tmp}/{pkg}"
    flags = ["-race"] if conc else []
    go(["build", "-overlay", write_overlay(tmp, pkg, rep), *flags, "-o", out, f"./verifmc/{pkg}"])
    return out

def build_cmd(tmp):
    """The adapter's own binary, without any instrumentation."""
    out = f"{tmp}/adp"
    go(["build", "-o", out, "./cmd"])
    return out

def crashed(prop, text):
    """The process under test died. If a goroutine that runs the adapter's code brought it down, that is a violation: the adapter would have died too."""
    i = min([k for k in (text.find("fatal error: "), text.find("panic: ")) if k >= 0] or [-1])
    if i < 0: return 2
    text = text[i:]
    what, _, rest = text.partition("\n")
    first = rest[rest.find("goroutine "):].split("\n\n")[0] if "goroutine " in rest else ""
    frames = [l for l in first.split("\n")[1:] if "(" in l and not l.startswith("\t")]
    own = [l for l in frames if "/app-identity-and-access-adapter/adapter" in l or "/app-identity-and-access-adapter/verifmc/" in l]
    # the innermost frame that is neither the runtime's nor a library's must be the adapter's own
    if "HarnessError" in what or "concurrent map" not in what and "panic: " not in what or not own or "/app-identity-and-access-adapter/adapter" not in own[0]: return 2
    os.makedirs(f"{V}/replays", exist_ok=True)
    p = f"{V}/replays/{prop}-crash.txt"
    open(p, "w").write(text[:50000])
    print(f"VIOLATION property={prop} replay={p}\n  the adapter's own code brought the process down: {what}\n  at {own[0]}")
    return 1

def main():
    prop = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if prop == "keep": # development: leave the binaries in a directory
            d = sys.argv[2]; os.makedirs(d, exist_ok=True)
            for p, c in (("conc", True), ("seq", False)): shutil.copy(build(tmp, p, c), f"{d}/{p}")
            shutil.copy(build_cmd(tmp), f"{d}/adp")
            return 0
        if prop == "setup":
            build(tmp, "seq", False)
            build_cmd(tmp)
            if os.path.isdir(f"{V}/mc/conc"): build(tmp, "conc", True)
            return 0
        e = env()
        if prop in CONC:
            e["VERIF_CONC_BIN"] = build(tmp, "conc", True)
        if prop in CMD:
            e["VERIF_CMD_BIN"] = build_cmd(tmp)
        out = build(tmp, "seq", False)
        err = f"{tmp}/stderr"
        with open(err, "wb") as f:
            rc = subprocess.run([out, prop] + sys.argv[2:], env=e, cwd=tmp, stderr=f).returncode
        text = open(err, errors="replace").read()
        sys.stderr.write(text if len(text) < 60000 else text[:40000] + "\n...\n" + text[-15000:])
        return crashed(prop, text) if rc == 2 or rc < 0 else rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(main())
