#!/usr/bin/env python3
"""run.py OUT [FILE-SUBSTRING...]: every single-point mutation of the given files that builds and passes
the tests is given to the checks; those nothing alarms on are listed in OUT."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
PK = [".", "./bind", "./graceful/...", "./web/..."]
out = open(sys.argv[1], "a")
want = [a for a in sys.argv[2:] if not a.startswith("@")]
# @FILE: only the mutations that FILE, an earlier result, says were missed
again = [l.split("' => ")[0] for a in sys.argv[2:] if a.startswith("@") for l in open(a[1:]) if " => MISSED" in l]
again = None if not any(a.startswith("@") for a in sys.argv[2:]) else set(l + "'" for l in again) | set(l.split('" => ')[0] + '"' for l in again)
R = ["R08", "R01", "R04", "R05", "R07", "R02", "R03", "R06", "M01", "M02", "M03", "B01", "B02"]
def props(f):
    b = os.path.basename(f)
    if "/middleware/" in f:
        return {"logger": ["B05"], "terminal": ["B05"], "nocache": ["B07"], "options": ["B02"], "realip": ["B07"], "recoverer": ["B04"],
                "request_id": ["B03"], "subrouter": ["B01"], "urlquery": ["B07"], "envinit": ["B07"]}[b[:-3]]
    if "/mutil/" in f: return ["B06", "B05", "B02"]
    if "/listener/" in f: return ["L01", "L05", "L03", "L04", "L02", "G01", "G07"]
    if "/graceful/" in f: return ["G03", "G02", "G01", "G06", "G04", "G05", "G07", "A01"]
    if "/bind/" in f: return ["D01", "D02", "D03", "A01"]
    if "/web/" in f:
        if "pattern" in b: return ["R02", "R03", "R01", "R04", "R05", "R07", "R08"]
        if b in ("middleware.go", "cpool.go", "mux.go", "func_equal.go", "handler.go"): return ["M01", "M02", "M03", "B01", "R07", "R01", "R06", "R08"]
        return R
    return ["A01", "M03"]
gofiles = subprocess.run(["go", "list", "-f", "{{range .GoFiles}}{{$.Dir}}/{{.}} {{end}}"] + PK, cwd="/repo", env=ENV, capture_output=True, text=True).stdout.split()
gofiles = [f for f in gofiles if not want or any(w in f for w in want)]
ms = [json.loads(l) for l in subprocess.run(["/tmp/automut"] + gofiles, capture_output=True, text=True).stdout.splitlines()]
if again is not None:
    ms = [m for m in ms if f"{m['File'][6:]}:{m['Line']}: {m['What'][:160]!r}" in again]
lock = threading.Lock()
local = threading.local()

def sh(cmd, cwd, t, env=ENV):
    try: return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t, env=env)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "", "")

def one(m):
    if not hasattr(local, "d"):
        local.d = tempfile.mkdtemp(prefix="am-")
        shutil.copytree("/repo", local.d + "/repo")
    repo = local.d + "/repo"
    f = m["File"].replace("/repo", repo, 1)
    src = open(m["File"], "rb").read()
    open(f, "wb").write(src[:m["Off"]] + m["New"].encode() + src[m["End"]:])
    try:
        sh(["goimports", "-w", f], repo, 60)
        if sh(["go", "build"] + PK, repo, 120).returncode: return m, "build", ""
        if "/web/" in f: t = ["./web/..."]
        elif "/listener/" in f: t = ["./graceful/listener"]
        else: t = []
        if t and sh(["go", "test", "-vet=off", "-count=1", "-timeout=60s", "-skip", "^TestReadFrom$"] + t, repo, 90).returncode: return m, "test", ""
        wd = tempfile.mkdtemp(prefix="am-w-")
        os.chmod(wd, 0o755)
        try:
            code = """
import sys, json, os
sys.argv = ['x']; sys.path.insert(0, %r)
import run_check as r
import re
last = ''
bs = {}
def builds(p, k):
    t = r.PLAN[p].get('tags', '')
    if t not in bs:
        os.makedirs(%r + '/t' + t, exist_ok=True)
        bs[t] = r.Build(%r + '/t' + t, t), {}
    b, ex = bs[t]
    if k not in ex: ex[k] = getattr(b, k)()
    return b, ex[k]
ps = %r
for p, k, ph in [(p, 'plain', 'main') for p in ps] + [(p, k, ph) for p in ps for k, ph in r.PLAN[p]['phases'] if (k, ph) != ('plain', 'main')]:
    b, exe = builds(p, k)
    res = r.phase(b, exe, p, k, ph)
    if res['violations']:
        print('CAUGHT', p, k, ph, res['violations'][0]['what'][:100].replace('\\n', ' ')); break
    if res['inconclusive']: last += p + ': ' + res['inconclusive'][0][:100].replace('\\n', ' ') + '; '
    kf = set((res['data'].get('known') or {})) - {i for (q, i) in r.known_findings() if q == p}
    if kf: print('CAUGHT', p, 'finding', kf); break
else: print('MISSED', last)
""" % (V, wd, wd, props(m["File"]))
            r = sh([sys.executable, "-c", code], V, 900, dict(ENV, VH_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            l = (r.stdout.strip().splitlines() or ["MISSED (no answer) " + r.stderr[-200:]])[-1]
            return m, l.split()[0], l
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    finally:
        open(f, "wb").write(src)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)

n = {}
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for m, k, l in ex.map(one, ms):
        n[k] = n.get(k, 0) + 1
        if k not in ("build", "test"):
            out.write(f"{m['File'][6:]}:{m['Line']}: {m['What'][:160]!r} => {l}\n"); out.flush()
out.write(f"total {n}\n")
