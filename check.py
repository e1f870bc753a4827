#!/usr/bin/env python3
"""Orchestrator of the simulation checks.

  check.py build                 build every simulator (setup_cmd)
  check.py PROP [--tier T]       run the check of one property
  check.py --replay FILE         replay a recorded violation in a fresh process
  check.py selftest [N [PROP..]] prove determinism: run seeds twice in separate processes, diff

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check
itself failed.
"""
import collections, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from props import PROPS, SIMS  # noqa: E402

GOROOT25 = "/opt/veriftools/go1.25.14"
GOROOT23 = "/opt/veriftools/go1.23.12"
WORKERS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def go_env(goroot, cgo):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    e.update(GOROOT=goroot, GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED=cgo,
             GOPROXY="off", GOWORK="off", GOSUMDB="off", GOPATH="/root/go",
             GOCACHE=os.path.join(BUILD, "gocache"), PATH=goroot + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    e.setdefault("HOME", "/root")
    return e


def build(sim):
    """Builds a simulator from /repo's working tree and returns the binary's path."""
    conf = SIMS[sim]
    os.makedirs(BUILD, exist_ok=True)
    goroot = GOROOT25 if conf["go"] == "1.25" else GOROOT23
    moddir = os.path.join(ROOT, conf["module"])
    # the go command may rewrite go.mod and go.sum: let it do that to a copy
    mod = os.path.join(BUILD, sim + ".mod")
    shutil.copy(os.path.join(moddir, "go.mod"), mod)
    shutil.copy(os.path.join(moddir, "go.sum"), os.path.join(BUILD, sim + ".sum"))
    ov = os.path.join(BUILD, "overlay-" + conf["go"])
    out = os.path.join(BUILD, "bin", sim)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["go", "build", "-modfile", mod, "-o", out]
    if conf["go"] == "1.25":
        subprocess.run([sys.executable, os.path.join(ROOT, "overlay", "gen.py"), goroot, ov], check=True)
        cmd += ["-tags", "faketime", "-overlay", os.path.join(ov, "overlay.json")]
    cmd += ["./" + conf["package"]]
    p = subprocess.run(cmd, cwd=moddir, env=go_env(goroot, conf.get("cgo", "0")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("building %s failed:\n%s" % (sim, p.stdout[-4000:]))
    return out


def sim_env():
    e = {"PATH": "/usr/bin:/bin", "HOME": "/root", "GOGC": "off", "GOTRACEBACK": "all", "TZ": "UTC"}
    return e


REPO_FRAME = re.compile(r"^\s+(/repo/\S+\.go:\d+)", re.M)


def classify_crash(stderr):
    """A worker died. If code under test is on the dying goroutine's stack it is the code's crash."""
    m = re.search(r"^(panic: |fatal error: ).*$", stderr, re.M)
    if not m:
        return None
    rest = stderr[m.start():]
    if m.group(0).startswith("panic") or "unexpected signal" in m.group(0):
        # frames of the first goroutine only
        first = rest.split("\n\n")
        body = "\n\n".join(first[:2])
    else:
        body = rest
    frames = REPO_FRAME.findall(body)
    if not frames:
        return None
    return m.group(0)[:300] + " at " + ", ".join(frames[:6])


class Worker:
    def __init__(self, cmd, errdir, first, limit):
        self.first = first
        self.err = tempfile.NamedTemporaryFile("w+", dir=errdir, delete=False)
        self.out = tempfile.NamedTemporaryFile("w+", dir=errdir, delete=False)
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=self.err, env=sim_env(), start_new_session=True,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        self.deadline = time.time() + limit

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def done(self):
        if self.p.poll() is None:
            if time.time() > self.deadline:
                self.kill()
                self.timed_out = True
                return True
            return False
        self.timed_out = False
        return True

    def lines(self):
        self.out.flush()
        with open(self.out.name) as f:
            for l in f:
                l = l.strip()
                if l.startswith("{"):
                    try:
                        yield json.loads(l)
                    except ValueError:
                        pass

    def stderr(self):
        with open(self.err.name, errors="replace") as f:
            return f.read()

    def cleanup(self):
        for f in (self.err, self.out):
            f.close()
            os.unlink(f.name)


def run_json(cmd, limit=150):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=sim_env(), timeout=limit)
    objs = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            objs.append(json.loads(l))
    return p.returncode, objs, p.stderr


def known_findings(prop):
    """Lines `known: property=ID class=CLASS match=REGEX :: what` of the findings file."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = PROPS[prop]
    sim = conf["sim"]
    sconf = SIMS[sim]
    binary = build(sim)
    t_build = time.time() - t0
    budget = conf.get("quick_s", 35) if tier == "quick" else conf.get("thorough_s", 600)
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return search(prop, tier, seed, conf, sconf, binary, budget, known, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def is_known(known, viol):
    for k in known:
        if k["class"] == viol["class"] and re.search(k["match"], viol["msg"]):
            return k
    return None


def search(prop, tier, seed, conf, sconf, binary, budget, known, scratch, t0, t_build):
    base = [binary, "-prop", prop, "-seed", str(seed), "-scratch", scratch] + conf.get("args", [])
    single = sconf.get("single", False)
    t_start = time.time()
    agg = {"runs": 0, "nontrivial": 0, "foreign": 0, "sim_ns": 0}
    stats, foreign, seen_known = collections.Counter(), collections.Counter(), collections.Counter()
    distinct, samples = set(), []
    violation = None
    next_first = 0
    active = []

    def spawn():
        nonlocal next_first
        left = budget - (time.time() - t_start)
        if single:
            cmd = base + ["-first", str(next_first), "-n", "1", "-wall", "%.1f" % max(left, 1)]
            limit = sconf.get("run_limit", 120)
        else:
            cmd = base + ["-first", str(next_first), "-step", str(WORKERS), "-wall", "%.1f" % left]
            limit = left + sconf.get("run_limit", 60)
        for k in known:
            cmd += ["-skip", k["class"] + "=" + k["match"]]
        active.append(Worker(cmd, scratch, next_first, limit))
        next_first += 1

    for _ in range(WORKERS):
        spawn()
    errors = []
    while active and violation is None:
        time.sleep(0.02)
        for w in list(active):
            if not w.done():
                continue
            active.remove(w)
            last_run = w.first
            for o in w.lines():
                if o["type"] == "run":
                    last_run = o["k"]
                elif o["type"] == "violation":
                    k = is_known(known, o["violation"])
                    if k:
                        seen_known[k["what"]] += 1
                    elif violation is None:
                        violation = o
                elif o["type"] == "report":
                    for k in agg:
                        agg[k] += o.get(k, 0)
                    stats.update(o.get("stats") or {})
                    foreign.update(o.get("foreign_by") or {})
                    distinct.update(o.get("distinct") or [])
                    if len(samples) < 3:
                        samples += (o.get("samples") or [])[:1]
            if w.timed_out:
                errors.append("run %d did not finish within its time limit" % last_run)
            elif w.p.returncode != 0 and violation is None:
                err = w.stderr()
                c = classify_crash(err)
                if c:
                    violation = {"type": "violation", "seed": last_run, "trace": {"property": prop, "run": last_run, "seed": seed},
                                 "violation": {"props": ["*"], "class": "process-crash", "msg": c, "op": 0}}
                    k = is_known(known, violation["violation"])
                    if k:
                        seen_known[k["what"]] += 1
                        violation = None
                else:
                    errors.append("simulator process failed (%s):\n%s" % (w.p.returncode, err[-3000:]))
            w.cleanup()
            if single and violation is None and time.time() - t_start < budget and not errors:
                spawn()
    for w in active:
        w.kill()
        w.cleanup()
    wall = time.time() - t_start
    if violation is None and errors:
        raise CheckError("\n".join(errors[:3]))

    replay_path = None
    if violation is not None:
        replay_path = record(prop, seed, binary, base, violation, scratch)

    write_evidence(prop, tier, seed, conf, sconf, agg, stats, foreign, distinct, samples, wall, t_build, time.time() - t0, violation, seen_known)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d runs (%d distinct non-trivial), %.0f s simulated, %d s wall, build %d s" % (
        prop, agg["runs"], len(distinct), agg["sim_ns"] / 1e9, wall, t_build))
    if foreign:
        print("note: runs cut short by other properties' violations: %s" % dict(foreign))
    if violation is not None:
        print("violation: class=%s %s" % (violation["violation"]["class"], violation["violation"]["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    return 0


def record(prop, seed, binary, base, violation, scratch):
    """Minimises, verifies and stores the replay file of a violation."""
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (prop, str(violation["seed"])))
    doc = {"property": prop, "verif_seed": seed, "sim": PROPS[prop]["sim"], "seed": violation["seed"],
           "violation": violation["violation"], "trace": violation["trace"]}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    cls = violation["violation"]["class"]
    if cls == "process-crash":
        ok = replay(path, quiet=True)
        if ok != 1:
            raise CheckError("crash did not reproduce: %s" % violation["violation"]["msg"])
        return path
    if SIMS[doc["sim"]].get("single"):
        minimise_single(prop, path, doc, binary, scratch)
        if replay(path, quiet=True, binary=binary) != 1:
            raise CheckError("violation did not reproduce on replay: %s" % json.dumps(doc["violation"]))
        return path
    try:
        rc, objs, err = run_json([binary, "-prop", prop, "-minimize", path, "-scratch", scratch], 200)
        ms = [o for o in objs if o["type"] == "minimised"]
        if rc == 0 and ms and ms[0].get("violation") and ms[0]["violation"]["class"] == cls:
            doc["trace"], doc["violation"], doc["hash"] = ms[0]["trace"], ms[0]["violation"], ms[0]["hash"]
            doc["minimised"] = {k: ms[0][k] for k in ms[0] if k in ("ops_before", "ops_after", "tries")}
            with open(path + ".min", "w") as f:
                json.dump(doc, f, indent=1)
            if replay(path + ".min", quiet=True, binary=binary) == 1:
                os.replace(path + ".min", path)
                return path
            os.unlink(path + ".min")
    except subprocess.TimeoutExpired:
        pass
    if replay(path, quiet=True, binary=binary) != 1:
        raise CheckError("violation did not reproduce on replay: %s" % json.dumps(violation["violation"]))
    return path


def minimise_single(prop, path, doc, binary, scratch, limit=100):
    """Delta debugging over the events of a run whose simulator executes one run per process:
    candidates (more events disabled, or goroutines scheduled first in, first out) run in parallel."""
    t0 = time.time()
    cls = doc["violation"]["class"]
    trace = doc["trace"]
    enabled = [e["id"] for e in trace.get("events") or []]
    before, tries, number = len(enabled), 0, 0
    best = None

    def run_all(cands):
        nonlocal tries, number
        procs, res = [], []
        for c in cands:
            number += 1
            f = os.path.join(scratch, "cand%d.json" % number)
            t = dict(trace, disabled_events=sorted(set(trace.get("disabled_events") or []) | (set(enabled) - set(c["on"]))), fifo=c["fifo"], events=[])
            with open(f, "w") as h:
                json.dump({"trace": t}, h)
            procs.append((t, subprocess.Popen([binary, "-prop", prop, "-replay", f, "-scratch", os.path.join(scratch, "c%d" % number)],
                                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=sim_env())))
        for t, p in procs:
            try:
                out, _ = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                out = ""
            tries += 1
            r = None
            for l in out.splitlines():
                if l.startswith("{"):
                    o = json.loads(l)
                    if o["type"] == "replay" and o.get("violation") and o["violation"]["class"] == cls:
                        r = (t, o)
            res.append(r)
        return res

    on, fifo = list(enabled), bool(trace.get("fifo"))
    r = run_all([{"on": [], "fifo": fifo}, {"on": [], "fifo": True}, {"on": on, "fifo": True}])
    if r[1] or r[0]:
        best = r[1] or r[0]
        on = []
    elif r[2]:
        best, fifo = r[2], True
    chunks = 8
    while on and time.time() - t0 < limit:
        k = min(chunks, len(on))
        parts = [on[i * len(on) // k:(i + 1) * len(on) // k] for i in range(k)]
        good = []
        for i in range(0, k, WORKERS):
            batch = parts[i:i + WORKERS]
            res = run_all([{"on": [e for e in on if e not in p], "fifo": fifo} for p in batch])
            good += [(p, x) for p, x in zip(batch, res) if x]
        if not good:
            if k >= len(on):
                break
            chunks = k * 2
            continue
        drop = [e for p, _ in good for e in p]
        both = run_all([{"on": [e for e in on if e not in drop], "fifo": fifo}])[0] if len(good) > 1 else None
        if both:
            best = both
            on = [e for e in on if e not in drop]
        else:
            best = good[0][1]
            on = [e for e in on if e not in good[0][0]]
        chunks = max(8, chunks // 2)
    if best:
        t, o = best
        t["events"] = [e for e in trace["events"] if e["id"] in on]
        doc["trace"], doc["violation"], doc["hash"] = t, o["violation"], o["hash"]
    doc["minimised"] = {"ops_before": before, "ops_after": len(on), "tries": tries}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)


def replay(path, quiet=False, binary=None):
    doc = json.load(open(path))
    prop = doc["property"]
    if binary is None:
        binary = build(doc["sim"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        want = doc["violation"]["class"]
        t = doc["trace"]
        if want == "process-crash" and "run" in t:
            cmd = [binary, "-prop", prop, "-seed", str(t["seed"]), "-scratch", scratch, "-first", str(t["run"]), "-n", "1", "-wall", "100"] + PROPS[prop].get("args", [])
            rc, objs, err = run_json(cmd)
            c = classify_crash(err) if rc else None
            if not quiet:
                print(c or "no crash")
            return 1 if c else 0
        rc, objs, err = run_json([binary, "-prop", prop, "-replay", path, "-scratch", scratch])
        c = classify_crash(err) if rc else None
        rs = [o for o in objs if o["type"] == "replay"]
        if c:
            if not quiet:
                print(c)
            return 1
        if rc or not rs:
            raise CheckError("replay failed: %s" % err[-2000:])
        v = rs[0].get("violation")
        if not quiet:
            print(json.dumps(rs[0], indent=1))
        if v and v["class"] == want:
            if doc.get("hash") and rs[0].get("hash") != doc["hash"]:
                if not quiet:
                    print("same violation, but the execution differs from the recorded one (the code changed since)")
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, tier, seed, conf, sconf, agg, stats, foreign, distinct, samples, wall, t_build, total, violation, seen_known):
    faults = {k: v for k, v in sorted(stats.items()) if any(k.startswith(p) for p in sconf["fault_keys"])}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe_")}
    work = {k: v for k, v in sorted(stats.items()) if k not in faults and not k.startswith("probe_")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": conf["rule"],
            "samples": samples or [{"note": "the first run already violated the property"}],
            "runs_per_hour": int(agg["runs"] / max(wall, 0.001) * 3600),
            "distinct_measure": sconf["distinct"],
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 1),
            "faults_injected": faults,
            "rare_conditions_reached": probes,
            "work_done": work,
            "runs_cut_short_by_other_properties": dict(foreign),
            "components_real": sconf["real"],
            "components_stubbed": sconf["stub"],
        },
        "assumptions": conf.get("assumptions", []) + sconf.get("assumptions", []),
        "wall_s": round(total, 1),
        "violations": 1 if violation is not None else 0,
    }
    if seen_known:
        ev["coverage"]["known_findings_hit"] = dict(seen_known)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def selftest(n, props=()):
    """Runs the same seeds in different processes and worker layouts and compares event hashes."""
    bad = 0
    for prop, conf in PROPS.items():
        if props and prop not in props:
            continue
        sim = conf["sim"]
        binary = build(sim)
        single = SIMS[sim].get("single", False)
        hashes = []
        for attempt in range(2):
            scratch = tempfile.mkdtemp(prefix="verif-self-")
            per = 1 if single else 5
            procs, got, pending = [], {}, list(range(0, n, per))
            par = WORKERS if attempt == 0 else 3
            while pending or procs:
                while pending and len(procs) < par:
                    k = pending.pop(0)
                    sc = os.path.join(scratch, "p%d" % k)
                    procs.append((k, subprocess.Popen([binary, "-prop", prop, "-seed", "77", "-first", str(k), "-n", str(per), "-wall", "600",
                                 "-hashes", "-scratch", sc] + conf.get("args", []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=sim_env())))
                k, p = procs.pop(0)
                out, _ = p.communicate()
                for l in out.splitlines():
                    if l.startswith("{"):
                        o = json.loads(l)
                        if o["type"] == "report":
                            got[k] = o.get("run_hashes")
                if k not in got:
                    got[k] = "rc%d" % p.returncode
            hashes.append(got)
            shutil.rmtree(scratch, ignore_errors=True)
        diff = [k for k in hashes[0] if hashes[0][k] != hashes[1].get(k)]
        fails = [k for k in hashes[0] if isinstance(hashes[0][k], str)]
        print("%s: %d processes twice, %d differ, %d failed" % (prop, len(hashes[0]), len(diff), len(fails)), flush=True)
        bad += len(diff) + len(fails)
    return 2 if bad else 0


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "build":
        for s in SIMS:
            t = time.time()
            build(s)
            print("built %s in %.1f s" % (s, time.time() - t), flush=True)
        return 0
    if args[0] == "--replay":
        rc = replay(args[1])
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (json.load(open(args[1]))["property"], args[1]))
        return rc
    if args[0] == "selftest":
        return selftest(int(args[1]) if len(args) > 1 else 40, args[2:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    return check(args[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
