#!/usr/bin/env python3
"""Runs the quick checks against the changes of drafts/*.py in scratch copies of /repo (mutation catalogue, no demonstrations).

usage: draft.py [-p PROP] [ID...]       results are appended to /tmp/draft.log"""
import glob, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
D = {}
for f in sorted(glob.glob(HERE + "/drafts/*.py")):
    def draft(id, property, *edits, equiv=None):
        assert id not in D, id
        D[id] = (property, edits, equiv)
    exec(open(f).read(), {"draft": draft})
def fails(scr):
    b = sh(f". /opt/vp/env.sh; cd {scr} && go build ./... 2>&1 && go vet ./adapter/strategy/web >/dev/null 2>&1; cd {scr} && go test ./adapter/... 2>&1 | grep -E '^(FAIL|---|panic)|FAIL|cannot|undefined'")
    return set(re.sub(r"\s+\(?[\d.]+s\)?", "", l) for l in b.stdout.splitlines())
args = sys.argv[1:]
prop = None
if args and args[0] == "-p": prop, args = args[1], args[2:]
ids = args or list(D)
log = open("/tmp/draft.log", "a")
def say(*a):
    print(*a, flush=True); print(*a, file=log, flush=True)
base = None
for i in ids:
    p, edits, equiv = D[i]
    scr = f"/tmp/draft_{i}"
    shutil.rmtree(scr, ignore_errors=True)
    sh(f"cp -a {os.environ.get("DRAFT_BASE", "/repo")} {scr}")
    if base is None: base = fails(scr)
    bad = None
    for path, old, new in edits:
        t = open(f"{scr}/{path}").read()
        if t.count(old) != 1: bad = f"EDIT count={t.count(old)}: {old[:60]!r}"; break
        open(f"{scr}/{path}", "w").write(t.replace(old, new))
    if not bad:
        new = sorted(fails(scr) - base)
        if new: bad = "TESTS/BUILD " + "; ".join(new)[:400]
    if bad: say(i, p, bad)
    else:
        for q in ([prop] if prop else p.split(",")):
            t0 = time.time()
            r = sh(f"cd /verif; VERIF_REPO={scr} timeout 900 ./run.sh {q} quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            say(i, q, "caught" if r.returncode == 1 and v else ("QUIET(equivalent)" if equiv and r.returncode == 0 else f"MISSED rc={r.returncode}"), f"{time.time()-t0:.0f}s", r.stdout.strip().splitlines()[-1][:150] if not v else "")
    shutil.rmtree(scr, ignore_errors=True)
