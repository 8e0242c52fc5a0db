#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in defs/*.py and confirms each change in a scratch copy:
it builds, the stable tests pass, the demonstration fails with the change and passes without it.

usage: gen.py [ID...]      (no id: all definitions without a directory)"""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = "/verif/seeded"
SCR = "/tmp/seedscr"

R = "github.com/ibm-cloud-security/app-identity-and-access-adapter/"
IMPORTS = "import (\n" + "".join(f'\t{a} "{p}"\n' for a, p in [
    ("k8sfake", "k8s.io/client-go/kubernetes/fake"), ("k8sv1", "k8s.io/api/core/v1"), ("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"),
    ("k8stesting", "k8s.io/client-go/testing"), ("runtime", "k8s.io/apimachinery/pkg/runtime"), ("v1", R + "adapter/pkg/apis/policies/v1"),
    ("", R + "adapter/networking"), ("", R + "adapter/config"), ("authnz", R + "config/template"), ("", "errors"), ("", "testing"), ("", "time"),
    ("", R + "adapter/policy"), ("", R + "adapter/authserver"), ("", R + "adapter/client"), ("", R + "adapter/policy/controller"),
    ("", R + "adapter/validator"), ("", R + "adapter/authserver/keyset"), ("", "k8s.io/client-go/util/workqueue"), ("", "k8s.io/client-go/tools/cache")]) + ")\n\n"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def defs():
    out = {}
    for f in sorted(glob.glob(HERE + "/defs/*.py")):
        env = {}
        exec(open(f).read(), {"seed": lambda **d: out.__setitem__(d["id"], d)}, env)
    return out

def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    sh(f"cp -a /repo {SCR} && git -C {SCR} checkout -q -- .")

def demo(d, cwd):
    return sh(f"bash {d}/demo.sh", cwd=cwd)

def make(s, full):
    d = f"{SEEDED}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    for path, old, new in s["edits"]:
        p = f"{SCR}/{path}"
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], path, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", SCR, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    pkg = s.get("pkg", "adapter")
    open(d + "/demo.sh", "w").write(open(HERE + "/demo.sh").read().replace("PKG", pkg).replace("FLAGS", s.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    for f in glob.glob(d + "/*_test.go"):
        os.remove(f)
    if s.get("world", pkg == "adapter"):
        shutil.copy(HERE + "/world_test.go", d)
    head = "package " + s.get("package", os.path.basename(pkg)) + "\n\n" + IMPORTS
    open(d + "/demo_test.go", "w").write(head + s["demo"].strip() + "\n")
    sh(f"goimports -w {d}/demo_test.go; gofmt -w {d}/demo_test.go", cwd="/repo", env=dict(os.environ, GOFLAGS="-mod=mod"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = demo(d, SCR)
    bad = r.returncode
    ok = demo(d, "/repo")
    msg = []
    if bad == 0: msg.append("demo passes WITH the change")
    if ok.returncode != 0: msg.append("demo fails WITHOUT the change:\n" + ok.stdout[-1500:])
    if "build failed" in r.stdout or "setup failed" in r.stdout: msg.append("does not build: " + r.stdout[-800:])
    if full:
        b = sh(f". /opt/vp/env.sh; cd {SCR} && go build ./... && go vet ./adapter/... >/dev/null 2>&1; go test ./adapter/... 2>&1 | grep -E '^(FAIL|---|panic)|FAIL' | grep -v TestDemo", cwd=SCR)
        base = BASE
        new = sorted(set(re.sub(r"\s+\(?[\d.]+s\)?", "", l) for l in b.stdout.splitlines()) - base)
        if new: msg.append("tests: " + "; ".join(new))
    print(s["id"], "OK" if not msg else "PROBLEM " + "\n".join(msg), "| with change:", [l for l in r.stdout.splitlines() if "demo_test.go" in l or "DATA RACE" in l or "panic" in l][:3], flush=True)
    sh(f"git -C {SCR} checkout -q -- .")

if __name__ == "__main__":
    D = defs()
    ids = sys.argv[1:] or [i for i in D if not os.path.exists(f"{SEEDED}/{i}/patch.diff")]
    fresh()
    b = sh(f". /opt/vp/env.sh; cd {SCR} && go test ./adapter/... 2>&1 | grep -E '^(FAIL|---|panic)|FAIL'")
    BASE = set(re.sub(r"\s+\(?[\d.]+s\)?", "", l) for l in b.stdout.splitlines())
    print("baseline failures:", BASE)
    for i in ids:
        make(D[i], True)
    shutil.rmtree(SCR, ignore_errors=True)
