#!/usr/bin/env python3
"""Runs the checks against the planted bugs as committed: seedcheck.py SEEDED [ID...]

Prints in the format of seed.py -c. SEEDED is the directory of planted bugs; the
checks are those next to this file.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, only = sys.argv[1], sys.argv[2:]


def one(i):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        shutil.copytree("/repo", d + "/repo")
        p = json.load(open(f"{S}/{i}/meta.json"))["property"]
        if subprocess.run(["git", "apply", f"{S}/{i}/patch.diff"], cwd=d + "/repo").returncode:
            return i, "does not apply"
        try:
            r = subprocess.run([sys.executable, V + "/run_check.py", p], cwd=V, capture_output=True, text=True, errors="replace", timeout=900,
                               env=dict(os.environ, VH_REPO=d + "/repo", VH_EVIDENCE=d, VERIF_SEED="1", VERIF_TIER="quick"))
        except subprocess.TimeoutExpired:
            return i, f"ok\n    {p}: missed (timeout)"
        v = [l for l in r.stdout.splitlines() if l.startswith("----") or l.startswith("inconcl")][:2]
        ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        return i, f"ok\n    {p}: " + ("CAUGHT" if ok else f"missed (exit {r.returncode})") + " " + "; ".join(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [i for i in sorted(os.listdir(S)) if not only or any(i.startswith(o) for o in only)]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, msg in ex.map(one, todo):
        print(i, "->", msg, flush=True)
