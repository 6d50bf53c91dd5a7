#!/usr/bin/env python3
"""Mutation trials on scratch copies: mut.py FILE [NAME...]

FILE is Python defining M = [(name, [properties], [(path, old, new), ...]), ...].
For each, says whether the 42 stable tests pass and which properties' checks alarm.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(a for a in sys.argv[2:] if not a.startswith("-"))
tests = "-t" in sys.argv


def one(m):
    name, props, edits = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo)
        for path, old, new in edits:
            s = open(f"{repo}/{path}").read()
            if s.count(old) < 1:
                return name, "NO MATCH in " + path, []
            s = s.replace(old, new, 1)
            open(f"{repo}/{path}", "w").write(s)
        r = subprocess.run(["go", "build", ".", "./bind", "./graceful/...", "./web/..."], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return name, "DOES NOT BUILD " + r.stderr[-400:], []
        t = ""
        if tests:
            r = subprocess.run(["go", "test", "-count=1", "-timeout=100s", "-skip", "^TestReadFrom$", ".", "./bind", "./graceful/...", "./web/..."], cwd=repo, capture_output=True, text=True)
            bad = [l.split()[2] for l in (r.stdout + r.stderr).splitlines() if l.strip().startswith("--- FAIL")]
            bad = [b for b in bad if b != "TestReadFrom"]
            t = "tests pass" if not bad and "panic: test timed out" not in r.stdout else "TESTS FAIL " + " ".join(bad)
        res = []
        for p in props:
            e = dict(os.environ, VH_REPO=repo, VH_EVIDENCE=d)
            try:
                r = subprocess.run([sys.executable, V + "/run_check.py", p], capture_output=True, text=True, env=e, timeout=900)
                lines = r.stdout.splitlines()
                w = next((lines[i + 1] for i, l in enumerate(lines) if l.startswith("----")), lines[-1] if lines else "")
                res.append((p, r.returncode, w[:160]))
            except subprocess.TimeoutExpired:
                res.append((p, "TIMEOUT", ""))
        return name, t, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

todo = [m for m in ns["M"] if not only or m[0] in only]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for name, t, res in ex.map(one, todo):
        caught = any(r[1] == 1 for r in res)
        print(("caught " if caught else "MISSED "), name, t)
        for p, rc, w in res:
            print("      ", p, rc, w)
        sys.stdout.flush()
