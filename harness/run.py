#!/usr/bin/env python3
"""Driver of one check: builds the property's test binary from /repo's working
tree, runs it in shards, and turns the results into evidence, KNOWN-FINDING and
VIOLATION lines.

  run.py C01              decide property C01 (VERIF_SEED, VERIF_TIER from env)
  run.py --replay FILE    run one saved case again (exit 1 if it still fails)
  run.py --setup          build everything once (offline)

Exit 0: held on everything explored. Exit 1: VIOLATION. Anything else: error.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")
SUT = "sourcegraph.com/sourcegraph/appdash"
DEADLINE = time.time() + 860

# property -> package, number of plain shards, number of race-detector shards
CONF = json.load(open(os.path.join(HERE, "props.json")))


def err(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    root = "/opt/veriftools/go1.27.3"
    if os.path.isdir(root):
        e["GOROOT"] = root
        e["PATH"] = root + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOPATH=e.get("GOPATH", "/root/go"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             GO111MODULE="on", GOWORK="off", GOSUMDB="off", CGO_ENABLED="1")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("RAPID_CHECKS", "RAPID_SEED", "GODEBUG", "GOEXPERIMENT", "GOMEMLIMIT", "GOGC", "GORACE"):
        e.pop(k, None)
    return e


def overlay(out):
    """/repo's go.mod is untracked: stand in for it when it is missing."""
    flags = []
    rep = {}
    for n, src in (("go.mod", "repo.go.mod"),):
        if not os.path.exists(os.path.join(REPO, n)):
            rep[os.path.join(REPO, n)] = os.path.join(HERE, src)
    if rep:
        f = os.path.join(out, "overlay.json")
        json.dump({"Replace": rep}, open(f, "w"))
        flags = ["-overlay", f]
    return flags


def build(pkg, out, race):
    name = os.path.join(out, pkg.replace("/", "_") + (".race" if race else "") + ".test")
    cmd = ["go", "test", "-c", "-vet=off"] + overlay(out) + (["-race"] if race else []) + ["-o", name]
    if REPO != "/repo":  # for our own experiments on copies
        mod = os.path.join(out, "alt.mod")
        s = open(os.path.join(HERE, "go.mod")).read().replace("=> /repo", "=> " + REPO).replace("=> ./", "=> " + HERE + "/")
        open(mod, "w").write(s)
        shutil.copy(os.path.join(HERE, "go.sum"), os.path.join(out, "alt.sum"))
        cmd += ["-modfile", mod]
    cmd += ["./" + pkg]
    p = subprocess.run(cmd, cwd=HERE, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        err("BUILD FAILED:", " ".join(cmd))
        err(p.stdout[-8000:])
        sys.exit(2)
    return name


def build_cmd(out):
    """The appdash command itself (for the checks that run the real binary)."""
    exe = os.path.join(out, "appdash.bin")
    cmd = ["go", "build"] + overlay(out) + ["-o", exe]
    if REPO != "/repo":
        cmd += ["-modfile", os.path.join(out, "alt.mod")]
    cmd += ["sourcegraph.com/sourcegraph/appdash/cmd/appdash"]
    p = subprocess.run(cmd, cwd=HERE, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        err("BUILD FAILED:", " ".join(cmd))
        err(p.stdout[-8000:])
        sys.exit(2)
    return exe


def childenv(prop, out, tier, seed, shard, shards, race, extra=None):
    e = goenv()
    e.update(VERIF_PROP=prop, VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard),
             VERIF_SHARDS=str(shards), VERIF_RACE="1" if race else "0", VERIF_KNOWN=KNOWN,
             GORACE="halt_on_error=1 exitcode=66 history_size=3", GOTRACEBACK="all", TZ="UTC")
    if extra:
        e.update(extra)
    return e


class Proc:
    def __init__(self, exe, env, out, tag):
        self.log = os.path.join(out, "log-" + tag)
        self.f = open(self.log, "wb")
        self.p = subprocess.Popen([exe, "-test.run=^TestVerif$", "-test.timeout=0"], cwd=out, env=env,
                                  stdin=subprocess.DEVNULL, stdout=self.f, stderr=subprocess.STDOUT,
                                  start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def text(self, limit=400000):
        self.f.flush()
        with open(self.log, "rb") as g:
            b = g.read()
        if len(b) > 2 * limit:
            b = b[:limit] + b"\n[...]\n" + b[-limit:]
        return b.decode("utf-8", "replace")


def classify(rc, text):
    """What an abnormal process end means: ('violation', why) or ('error', why)."""
    if rc == 3 or "INFRA-ERROR:" in text or "TIMEOUT: case" in text:
        return "error", text[-4000:]
    if rc == 4 and "HANG:" in text:
        i = text.index("HANG:")
        return "violation", text[i:i + 6000]
    if "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        rep = text[i:]
        j = rep.find("==================")
        rep = rep[:j] if j > 0 else rep[:8000]
        if re.search(r"^\s+" + re.escape(SUT) + r"[./]", rep, re.M):
            return "violation", rep[:8000]
        return "error", "data race outside the code under test:\n" + rep[:8000]
    if "out of memory" in text or rc in (-9, 137):
        return "error", "killed or out of memory\n" + text[:2000]
    m = re.search(r"^(panic: |fatal error: |unexpected fault|runtime: goroutine stack exceeds)", text, re.M)
    if m:
        rest = text[m.start():]
        gs = re.split(r"\n\n(?=goroutine )", rest)
        first = "\n\n".join(gs[:2])  # message and crashing goroutine
        if "all goroutines are asleep" in rest or "deadlock" in gs[0]:
            first = rest
        if re.search(r"^" + re.escape(SUT) + r"[./]", first, re.M):
            return "violation", first[:8000]
        return "error", "crash outside the code under test:\n" + rest[:6000]
    return "error", "exit status %s\n%s" % (rc, text[-4000:])


def drop(out):
    """Removes a scratch directory and its counterpart on another file system."""
    shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree("/dev/shm/" + os.path.basename(out), ignore_errors=True)


def replay_once(exe, case_file, prop, tier, seed, race, extra, timeout=150):
    """True/False: the case fails/passes; None: no answer. Returns (fails, why)."""
    out = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        x = dict(extra or {})
        x["VERIF_REPLAY"] = case_file
        p = Proc(exe, childenv(prop, out, tier, seed, 0, 1, race, x), out, "r")
        try:
            rc = p.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            return None, "timeout"
        p.kill() if False else None
        rf = os.path.join(out, "replay-result.json")
        if rc == 0 and os.path.exists(rf):
            r = json.load(open(rf))
            return (r["Error"] != ""), r["Error"] or r.get("Known", "")
        kind, why = classify(rc, p.text())
        return (True, why) if kind == "violation" else (None, why)
    finally:
        drop(out)


def arrays(v, path=()):
    if isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from arrays(x, path + (i,))
    elif isinstance(v, dict):
        for k in v:
            yield from arrays(v[k], path + (k,))


def without(v, path, i, n):
    v = json.loads(json.dumps(v))
    t = v
    for k in path:
        t = t[k]
    del t[i:i + n]
    return v


def shrink_crash(exe, viol, prop, tier, seed, race, extra, budget=45):
    """Crashing cases kill the process, so rapid cannot shrink them: delete
    array elements of the JSON case while the replay still fails."""
    end = time.time() + budget
    tmp = tempfile.mkdtemp(prefix="verif-shrink-")
    cur = json.loads(json.dumps(viol))
    try:
        def fails(case):
            f = os.path.join(tmp, "c.json")
            json.dump({"Prop": viol["Prop"], "Sub": viol["Sub"], "Case": case}, open(f, "w"))
            r, why = replay_once(exe, f, prop, tier, seed, race, extra, timeout=max(5, min(60, end - time.time())))
            return r, why
        r, why = fails(cur["Case"])
        cur["Reproduced"] = bool(r)
        if not r:
            return cur
        progress = True
        while progress and time.time() < end:
            progress = False
            for path, arr in sorted(arrays(cur["Case"]), key=lambda t: -len(t[1])):
                n = len(arr)
                step = max(1, n // 2)
                while step >= 1 and n > 0 and time.time() < end:
                    i = 0
                    hit = False
                    while i < n and time.time() < end:
                        cand = without(cur["Case"], path, i, step)
                        r, why = fails(cand)
                        if r:
                            cur["Case"], cur["Error"] = cand, why
                            n = max(0, n - step)
                            hit = progress = True
                        else:
                            i += step
                    if step == 1 and not hit:
                        break
                    step = step // 2 if step > 1 else (1 if hit else 0)
                if progress:
                    break
        return cur
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        out = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for pkg, race in sorted({(c["pkg"], r) for c in CONF.values() for r in (False, True) if c.get("race") or not r}):
                build(pkg, out, race)
            if any(c.get("cmd") for c in CONF.values()):
                build_cmd(out)
        finally:
            drop(out)
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        prop = v["Prop"]
    elif len(sys.argv) == 2:
        v, prop = None, sys.argv[1]
    else:
        err(__doc__)
        return 2
    conf = CONF[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        start = time.time()
        extra = {}
        if v is not None:
            race = bool(v.get("Race"))
            exe = build(conf["pkg"], out, race)
            if conf.get("cmd"):
                extra["VERIF_APPDASH"] = build_cmd(out)
            r, why = replay_once(exe, os.path.abspath(sys.argv[2]), prop, tier, seed, race, extra)
            if r is None:
                err("no answer:", why)
                return 2
            print(why)
            if r:
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
                return 1
            print("case passes")
            return 0
        return decide(prop, conf, tier, seed, out, procs, extra, start)
    finally:
        for p in procs:
            p.kill()
        drop(out)


def decide(prop, conf, tier, seed, out, procs, extra, start):
    ns, nr = conf.get("shards", 4), conf.get("race", 0)
    if "VERIF_SHARDS" in os.environ:
        ns = min(ns, int(os.environ["VERIF_SHARDS"]))
    exes = {}
    if ns:
        exes[False] = build(conf["pkg"], out, False)
    if nr:
        exes[True] = build(conf["pkg"], out, True)
    if conf.get("cmd"):
        extra["VERIF_APPDASH"] = build_cmd(out)
    built = time.time() - start
    jobs = [(False, i, ns) for i in range(ns)] + [(True, i, nr) for i in range(nr)]
    running = {}
    for race, i, n in jobs:
        d = out
        p = Proc(exes[race], childenv(prop, d, tier, seed, i, n, race, extra), d, "%d-%s" % (i, race))
        procs.append(p)
        running[(race, i)] = p
    deadline = DEADLINE if tier == "quick" else time.time() + float(os.environ.get("VERIF_THOROUGH_MAX", "36000"))
    viols, errors, results = [], [], []
    while running:
        if time.time() > deadline:
            errors.append("time is up; still running: %s" % sorted(running))
            break
        done = [k for k, p in running.items() if p.p.poll() is not None]
        if not done:
            time.sleep(0.05)
            continue
        for k in done:
            race, i = k
            p = running.pop(k)
            rc = p.p.returncode
            rf = os.path.join(out, "result-%d-%s.json" % (i, str(race).lower()))
            if rc == 0 and os.path.exists(rf):
                rs = json.load(open(rf)) or []
                for r in rs:
                    r["Race"] = race
                    results.append(r)
                    if r.get("Violation"):
                        w = r["Violation"]
                        w["Race"] = race
                        viols.append(w)
                continue
            kind, why = classify(rc, p.text())
            if kind == "violation":
                cf = os.path.join(out, "current-%d-%s.json" % (i, str(race).lower()))
                try:
                    w = json.load(open(cf))
                except (OSError, ValueError):
                    errors.append("crash without a current case: " + why)
                    continue
                w["Race"] = race
                w["Error"] = why
                w["Crash"] = True
                viols.append(w)
            else:
                errors.append("shard %d (race=%s): %s" % (i, race, why))
        if viols:
            break  # one violation decides; stop the other shards
    for p in procs:
        p.kill()
    replay = None
    if viols:
        w = min(viols, key=lambda x: (bool(x.get("Crash")), len(json.dumps(x.get("Case")))))
        if w.get("Crash"):
            w = shrink_crash(exes[w["Race"]], w, prop, tier, seed, w["Race"], extra)
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, "%s-%s.json" % (prop, w["Sub"]))
        with open(replay, "w") as f:
            json.dump(w, f, indent=1)
    write_evidence(prop, conf, tier, seed, results, viols, out, start, built)
    known = {}
    for r in results:
        for k, c in r.get("Known", {}).items():
            known[k] = known.get(k, 0) + c
    for line in open(KNOWN) if os.path.exists(KNOWN) else []:
        f = line.split(None, 3)
        if len(f) >= 4 and f[0] == "finding:" and f[1] == "property=" + prop:
            print("KNOWN-FINDING: property=%s %s: %s (hit %d times in this run)" % (prop, f[2], f[3].strip(), known.get(f[2], 0)))
    if viols:
        print("failing case (%s): %s" % (w["Sub"], json.dumps(w["Case"])[:3000]))
        print("why: " + w.get("Error", "")[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors:
            err("CHECK ERROR:", e)
        return 2
    ev = json.load(open(os.path.join(VERIF, "evidence", prop + ".json")))
    c = ev["coverage"]
    print("property=%s held on %d cases (%d distinct non-trivial), %.1f s" % (prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    return 0


def write_evidence(prop, conf, tier, seed, results, viols, out, start, built):
    by = {}
    for r in results:
        s = by.setdefault(r["Sub"], {"rule": r["Rule"], "evaluations": 0, "classes": {}, "samples": [], "hashes": set(), "cpu_s": 0})
        s["evaluations"] += r["Evaluations"]
        s["cpu_s"] += r["WallS"]
        for k, c in r["Classes"].items():
            s["classes"][k] = s["classes"].get(k, 0) + c
        if len(s["samples"]) < 2:
            s["samples"] += (r.get("Samples") or [])[:1]
    for fn in os.listdir(out):
        m = re.match(r"hashes-\d+-(?:true|false)-(.*)\.bin$", fn)
        if m and m.group(1) in by:
            b = open(os.path.join(out, fn), "rb").read()
            by[m.group(1)]["hashes"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
    total = sum(s["evaluations"] for s in by.values())
    nontriv = sum(len(s["hashes"]) for s in by.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": total, "distinct_nontrivial": nontriv,
            "rule": " || ".join("%s: %s" % (n, s["rule"]) for n, s in sorted(by.items())) or "no sub-check finished",
            "samples": [{"sub": n, "case": c} for n, s in sorted(by.items()) for c in s["samples"]],
            "sub_checks": {n: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["hashes"]), "classes": dict(sorted(s["classes"].items())), "process_s": round(s["cpu_s"], 2)} for n, s in sorted(by.items())},
            "exhaustive": False,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(viols),
    }
    ev["coverage"]["build_s"] = round(built, 2)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
