#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

    run_check.py PROPERTY            run (VERIF_SEED, VERIF_TIER from the environment)
    run_check.py --replay FILE       run again just the case a replay file names
    run_check.py --setup             build once, to fill the build cache

Exit 0: held on everything observed. 1: VIOLATION. 2: could not decide.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
GOJI = "github.com/zenazn/goji"

# property -> [(build, phase)]; "plain" is an ordinary build, "pert" has schedule
# perturbation before every statement of goji, "race" the race detector as well.
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))


def die(msg):
    print("inconclusive: " + msg)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", CGO_ENABLED="1")
    for k in ("GODEBUG", "GORACE", "GOMAXPROCS", "GOJI_BIND", "PORT", "LISTEN_PID", "LISTEN_FDS", "EINHORN_MASTER_PID", "TZ"):
        e.pop(k, None)
    return e


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        die("timed out: " + " ".join(cmd))


class Build:
    """Builds of the worker against the current working tree, in a scratch directory."""

    def __init__(self, wd, tags=""):
        self.wd, self.notes, self.sites, self.tags = wd, [], [], tags

    def base_overlay(self):
        rep = {}
        if not os.path.exists(REPO + "/go.mod"):
            rep[REPO + "/go.mod"] = HARNESS + "/goji.mod"
        if REPO != "/repo":
            with open(self.wd + "/go.mod", "w") as f:
                f.write(open(HARNESS + "/go.mod").read().replace("=> /repo", "=> " + REPO))
            rep[HARNESS + "/go.mod"] = self.wd + "/go.mod"
        return rep

    def go(self, out, args, overlay):
        ov = os.path.join(self.wd, os.path.basename(out) + ".overlay.json")
        json.dump({"Replace": overlay}, open(ov, "w"))
        if self.tags:  # importing package goji changes defaults of the others, so only its own monitor does
            args = ["-tags", self.tags] + args
        return run(["go", "build", "-overlay", ov, "-o", out] + args + ["./mon"], 840, cwd=HARNESS, env=goenv())

    def plain(self):
        out = self.wd + "/mon.plain"
        r = self.go(out, [], self.base_overlay())
        if r.returncode:
            die("the harness does not build against the working tree:\n" + r.stdout[-3000:])
        return out

    def instr(self):
        """Instrumented copies of goji's sources; returns an overlay, or None."""
        if hasattr(self, "_instr"):
            return self._instr
        self._instr, idir = None, self.wd + "/instr"
        os.makedirs(idir, exist_ok=True)
        r = run(["go", "build", "-o", self.wd + "/instr.bin", "./cmd/instr"], 300, cwd=HARNESS, env=goenv())
        if not r.returncode:
            r = run([self.wd + "/instr.bin", REPO, idir], 60)
        if r.returncode:
            self.notes.append("instrumentation failed, perturbation off: " + r.stdout[-500:])
        else:
            self._instr = json.load(open(idir + "/overlay.json"))["Replace"]
            self.sites = json.load(open(idir + "/sites.json"))
        return self._instr

    def instrumented(self, name, args):
        out, extra = self.wd + "/mon." + name, self.instr()
        if extra is not None:
            ov = self.base_overlay()
            ov.update(extra)
            r = self.go(out, args, ov)
            if not r.returncode:
                return out
            self.notes.append("instrumented build failed, perturbation off: " + r.stdout[-500:])
            self._instr, self.sites = None, []
        r = self.go(out, args, self.base_overlay())
        if r.returncode:
            die("the harness does not build against the working tree:\n" + r.stdout[-3000:])
        return out

    def race(self):
        return self.instrumented("race", ["-race"])

    def pert(self):
        return self.instrumented("pert", [])


def races(wd, tag):
    """Race reports that involve goji, deduplicated by their innermost goji frames."""
    found, other = {}, 0
    for p in glob.glob(f"{wd}/race.{tag}.*"):
        for block in open(p, errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            if GOJI not in block:
                other += 1
                continue
            frames = re.findall(r"\n  (" + re.escape(GOJI) + r"\S*)\(", block)
            found.setdefault(tuple(sorted(set(frames[:6]))), block.strip())
    return list(found.values()), other


def crash(text):
    """A description of why a worker died, if that was goji's doing."""
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault.*|runtime: goroutine stack exceeds.*)", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    first = tail.split("\n\ngoroutine ")
    head = "\n\ngoroutine ".join(first[:2])
    if GOJI in head or (m.group(1).startswith("fatal error") and GOJI in tail):
        return head[:6000]
    return None


def phase(b, exe, prop, build, ph, only=None):
    wd, tag = b.wd, f"{prop}.{build}.{ph}"
    out = f"{wd}/{tag}.json"
    env = goenv()
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    env.update(VH_OUT=out, VH_TMP=wd, VH_SITES=str(len(b.sites) if build != "plain" else 0), GOTRACEBACK="all",
               GORACE=f"log_path={wd}/race.{tag} halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0")
    env.pop("VH_ONLY", None)
    env.pop("VH_SITEFILE", None)
    if build != "plain" and b.sites:
        env["VH_SITEFILE"] = b.wd + "/instr/sites.json"
    if only:
        env["VH_ONLY"] = only
    limit = 780 if env["VERIF_TIER"] == "quick" else 6 * 3600
    err = open(f"{wd}/{tag}.err", "w+b")
    t0 = time.time()
    p = subprocess.Popen([exe, prop, ph], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err, env=env,
                         start_new_session=True, cwd=wd)
    timed_out = False
    try:
        so, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
        so = b""
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err.seek(0)
    text = err.read()[-2_000_000:].decode("utf-8", "replace")
    res = {"tag": tag, "build": build, "phase": ph, "violations": [], "inconclusive": [], "undecided": [], "wall": time.time() - t0, "data": {}}
    if os.path.exists(out):
        d = res["data"] = json.load(open(out))
        res["violations"] += d["violations"] or []
        # Single cases may have been undecided for reasons of the machine.
        und = d["inconclusive"] or []
        few = len(und) <= 5 and d["evaluations"] >= 20 * len(und) and not any(u.startswith("case ") for u in und)
        res["undecided" if few else "inconclusive"] += und
    elif timed_out:
        res["inconclusive"].append("the worker did not finish in time")
    else:
        c = crash(text)
        if c:
            res["violations"].append({"label": "crash", "index": 0, "what": "the process died:\n" + c})
        elif p.returncode == 1:
            res["violations"].append({"label": "exit", "index": 0, "what": "goji ended the process:\n" + text[-1500:]})
        else:
            res["inconclusive"].append(f"the worker ended with {p.returncode}: " + text[-3000:])
    rs, other = races(wd, tag)
    for r in rs[:5]:
        res["violations"].append({"label": "race", "index": 0, "what": r[:6000]})
    if other:
        res["inconclusive"].append(f"{other} data races inside the harness")
    res["nraces"] = len(rs)
    return res


def known_findings():
    l = {}
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m:
            l[m.group(1), m.group(2)] = m.group(3).strip()
    return l


def main():
    args = sys.argv[1:]
    if not args:
        die("usage: run_check.py PROPERTY")
    wd = tempfile.mkdtemp(prefix="vh-")
    os.chmod(wd, 0o755)
    try:
        if args[0] == "--setup":
            b = Build(wd)
            b.plain()
            b.race()
            b.pert()
            b.tags = "app"
            b.plain()
            b.race()
            b.pert()
            print("built;", "; ".join(b.notes) or f"{len(b.sites)} perturbation sites")
            return 1 if b.notes else 0
        only = None
        if args[0] == "--replay":
            rp = json.load(open(args[1]))
            prop, only = rp["property"], rp
            os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(rp["seed"]), rp["tier"]
        else:
            prop = args[0]
        return check(prop, wd, only)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check(prop, wd, only):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]["phases"]
    if only and only.get("phase"):
        plan = [p for p in plan if p == [only["build"], only["phase"]]]
    b = Build(wd, PLAN[prop].get("tags", ""))
    exe = {k: getattr(b, k)() for k in sorted({p[0] for p in plan})}
    tb = time.time() - t0
    results = []
    for build, ph in plan:
        o = None
        if only and only.get("case") and not only["case"].split(":")[0] in ("race", "crash", "exit"):
            o = only["case"]
        results.append(phase(b, exe[build], prop, build, ph, o))
    viol = [(r, v) for r in results for v in r["violations"]]
    inc = [f"{r['tag']}: {i}" for r in results for i in r["inconclusive"]]
    for r in results:
        for u in r["undecided"]:
            print("undecided:", f"{r['tag']}: {u}"[:300].replace("\n", " "))
    listed, told = known_findings(), set()
    for r in results:
        for kid, what in (r["data"].get("known") or {}).items():
            if (prop, kid) in told:
                continue
            if (prop, kid) in listed:
                told.add((prop, kid))
                print(f"KNOWN-FINDING: property={prop} id={kid} {listed[prop, kid]}")
            else:
                viol.append((r, {"label": "finding", "index": 0, "what": f"{kid}: {what}"}))
    D = [r["data"] for r in results]
    evals = sum(d.get("evaluations", 0) for d in D)
    distinct = sum(d.get("distinct", 0) for d in D)
    counters = {}
    for r in results:
        for k, v in (r["data"].get("counters") or {}).items():
            counters[f"{r['build']}/{r['phase']}: {k}"] = v
        if r["data"].get("sites"):
            counters[f"{r['build']}/{r['phase']}: perturbation sites reached in the worker process"] = r["data"]["sites"]
            counters[f"{r['build']}/{r['phase']}: times they were reached"] = r["data"]["site_hits"]
        if r["build"] == "race":
            counters[f"{r['build']}/{r['phase']}: race reports"] = r["nraces"]
        if r["undecided"]:
            counters[f"{r['build']}/{r['phase']}: cases left undecided"] = len(r["undecided"])
    rules = []
    for d in D:
        if d.get("rule") and d["rule"] not in rules:
            rules.append(d["rule"])
    samples, size = [], 0
    for d in D:
        for s in d.get("samples") or []:
            n = len(json.dumps(s))
            if size + n < 24000:
                samples.append(s)
                size += n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": " | ".join(rules), "samples": samples,
                     "observed": counters, "builds": sorted(exe), "build_s": round(tb, 1), "notes": b.notes,
                     "exhaustive": False},
        "assumptions": PLAN[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    evdir = os.environ.get("VH_EVIDENCE", VERIF + "/evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(f"{evdir}/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print(f"{prop}: {evals} evaluations, {distinct} distinct non-trivial; built in {tb:.1f} s, ran in {time.time() - t0 - tb:.1f} s")
    for r in results:
        print(f"  {r['tag']}: {r['wall']:.1f} s, {r['data'].get('evaluations', 0)} evaluations, {r['data'].get('distinct', 0)} distinct")
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for r, v in viol[:8]:
            body = {"property": prop, "seed": seed, "tier": tier, "build": r["build"], "phase": r["phase"],
                    "case": f"{v['label']}:{v['index']}", "what": v["what"], "detail": v.get("case", "")}
            h = hashlib.sha1(json.dumps(body).encode()).hexdigest()[:8]
            path = f"{VERIF}/replays/{prop}-{h}.json"
            json.dump(body, open(path, "w"), indent=1)
            print("----", r["tag"], f"case {v['label']}:{v['index']}")
            print(v["what"][:2500])
            if v.get("case"):
                print("case:", v["case"][:1500])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inc:
        for i in inc[:5]:
            print("inconclusive:", i[:3000])
        return 2
    if evals == 0 or distinct == 0:
        die("nothing was observed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
