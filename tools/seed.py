#!/usr/bin/env python3
"""Builds and judges planted bugs: seed.py [-c] [ID...]

tools/seeds/*.py define S = [dict(id, prop, needs, breaks, edits=[(path, old, new)], demo="...go...", [race=True])].
Each is confirmed in a scratch copy (builds, the stable tests pass, the demonstration
passes without and fails with it) and then written to seeded/<id>/. With -c the
property's check runs against it as well.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
S = []
for f in sorted(glob.glob(T + "/seeds/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    S += ns["S"]
assert len({s["id"] for s in S}) == len(S)
only = [a for a in sys.argv[1:] if not a.startswith("-")]
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = r'''#!/bin/bash
# Exits 0 if the guarantee holds, nonzero if it does not. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/ || exit 3
cat > "$d/go.mod" <<EOF
module demo

go 1.20

require github.com/zenazn/goji v0.0.0

replace github.com/zenazn/goji => $repo
EOF
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
cd "$d" || exit 3
go build @RACE@-o demo . || exit 3
timeout 120 ./demo
'''


def sh(cmd, cwd, t=300, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t, env=dict(env, **kw))
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout", "")


def one(s):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        repo, out = d + "/repo", d + "/out"
        shutil.copytree("/repo", repo)
        os.makedirs(out)
        open(out + "/main.go", "w").write(s["demo"].lstrip("\n"))
        shutil.copy(T + "/seeds/lib.go", out + "/lib.go")
        sh(["goimports", "-w", out + "/main.go"], d)
        open(out + "/demo.sh", "w").write(DEMO.replace("@RACE@", "-race " if s.get("race") else ""))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        for i in range(3):
            r = sh(["bash", out + "/demo.sh"], repo)
            if r.returncode:
                return s, f"demo fails on the unchanged tree ({r.returncode}): " + (r.stdout + r.stderr)[-1500:]
        for path, old, new in s["edits"]:
            t = open(f"{repo}/{path}").read()
            if t.count(old) < 1:
                return s, "no match in " + path + ": " + old
            open(f"{repo}/{path}", "w").write(t.replace(old, new, 1))
        sh(["gofmt", "-l", "."], repo)
        diff = sh(["git", "diff"], repo).stdout
        open(out + "/patch.diff", "w").write(diff)
        r = sh(["go", "build", ".", "./bind", "./graceful/...", "./web/..."], repo)
        if r.returncode:
            return s, "does not build: " + r.stderr[-800:]
        r = sh(["go", "test", "-vet=off", "-json", "-count=1", "-timeout=100s", "-skip", "^TestReadFrom$", ".", "./bind", "./graceful/...", "./web/..."], repo)
        ok = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "." + e["Test"]); ok.add(e["Test"]); ok.add(e["Package"] + "::" + e["Test"]); ok.add(e["Package"] + "/" + e["Test"])
        miss = [b for b in base if b not in ok]
        if miss:
            return s, f"tests fail: {miss}"
        for i in range(3):
            r = sh(["bash", out + "/demo.sh"], repo)
            if r.returncode == 0 or r.returncode == 3:
                return s, f"demo does not fail with the change ({r.returncode}): " + (r.stdout + r.stderr)[-800:]
        dst = f"{V}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        msg = "ok (" + (r.stdout + r.stderr).strip()[:100].replace("\n", " ") + ")"
        if "-c" in sys.argv:
            for p in s.get("checks", [s["prop"]]):
                r = sh([sys.executable, V + "/run_check.py", p], V, 1000, VH_REPO=repo, VH_EVIDENCE=d, VERIF_SEED="1", VERIF_TIER="quick")
                v = [l for l in r.stdout.splitlines() if l.startswith("----") or l.startswith("inconcl")][:2]
                msg += f"\n    {p}: " + ("CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else f"missed (exit {r.returncode})") + " " + "; ".join(v)
        return s, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [s for s in S if not only or any(s["id"].startswith(o) for o in only)]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for s, msg in ex.map(one, todo):
        print(s["id"], "->", msg, flush=True)
