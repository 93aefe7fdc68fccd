#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--secs N] [--workers N]

Builds the harness of a property from /repo's working tree, runs seeded simulations in parallel, replays and reports
what they find. Exit 0: held on everything explored. Exit 1: a VIOLATION line. Anything else: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS, DERIVED  # noqa: E402

HANG_S = 90


def die(msg):
    print(f"check error: {msg}", flush=True)
    sys.exit(2)


def repo_hash():
    h = hashlib.sha256()
    for root in ("crates", "packages"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not f.endswith((".rs", ".ts", ".toml", ".json", ".js")) or os.path.islink(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


def build(packages):
    """cargo build of the named harness packages; freshness is decided by content, not only by mtime."""
    os.makedirs(os.path.join(SIM, "target"), exist_ok=True)
    with open(os.path.join(SIM, "target", ".verif_lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(SIM, "target", ".repo_hash")
        now = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            fp = os.path.join(SIM, "target", "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.rsplit("-", 1)[0] in DERIVED:
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--quiet"]
        for p in packages:
            cmd += ["-p", p]
        r = subprocess.run(cmd, cwd=SIM, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r.stdout[-6000:]
        with open(stamp, "w") as f:
            f.write(now)
    return None


def command(spec):
    if spec["engine"] == "rust":
        return [os.path.join(SIM, "target", "debug", spec["package"])]
    return ["node", os.path.join(VERIF, spec["script"])]


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=\[(.*?)\] (.*)$", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def sh(cmd, timeout):
    """(returncode or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


def main():
    a = sys.argv[1:]
    if not a or a[0] not in PROPS:
        die("usage: check.py PROPERTY [--tier quick|thorough]; properties: " + " ".join(PROPS))
    prop = a[0]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = 1
    spec = PROPS[prop]
    secs = float(opt("--secs", spec[tier]))
    workers = int(opt("--workers", min(8, os.cpu_count() or 8)))
    t0 = time.time()

    if spec["engine"] == "rust":
        err = build([spec["package"]])
        if err:
            die(f"the harness does not build against {REPO}:\n{err}")
    else:
        rc, out = sh(command(spec) + ["build"], 300)
        if rc != 0:
            die(f"the harness does not build against {REPO}:\n{out[-6000:]}")
    build_s = time.time() - t0
    base = command(spec)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rc = explore(prop, spec, tier, vseed, secs, workers, base, work, t0, build_s)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def explore(prop, spec, tier, vseed, secs, workers, base, work, t0, build_s):
    known = known_findings(prop)
    kf = os.path.join(work, "known")
    with open(kf, "w") as f:
        f.write("\n".join(known) + "\n")
    first = (vseed * 1_000_003) % (1 << 52)

    # the same seeds in two processes give the same event log
    det = []
    nd = 24 if tier == "quick" else 200
    ps = [
        subprocess.Popen(base + ["hash", "--prop", prop, "--seed", str(first), "--count", str(nd), "--stride", str(st)],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
        for st in (1, 1, 1)
    ]
    until = time.time() + HANG_S
    for p in ps:
        try:
            out, _ = p.communicate(timeout=max(0.1, until - time.time()))
            det.append(dict(l.split() for l in out.splitlines() if len(l.split()) == 2) if p.returncode == 0 else None)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            det.append(None)
    diverged = []
    if None not in det:
        diverged = sorted(s for s in det[0] if any(d.get(s) != det[0][s] for d in det[1:]))

    shrink = 15 if tier == "quick" else 60
    ws = []
    for w in range(workers):
        out, st, er = (os.path.join(work, f"{n}{w}") for n in ("out", "state", "err"))
        cmd = base + ["run", "--prop", prop, "--seed", str(first + w), "--stride", str(workers), "--secs", str(secs),
                      "--shrink-secs", str(shrink), "--out", out, "--state", st, "--known", kf]
        e = open(er, "w")
        p = subprocess.Popen(cmd, stdout=e, stderr=e, start_new_session=True)
        ws.append({"p": p, "out": out, "state": st, "err": er, "seen": None, "since": time.time(), "dead": None})
    deadline = time.time() + secs + 4 * shrink + HANG_S
    while any(w["p"].poll() is None for w in ws):
        time.sleep(0.2)
        now = time.time()
        for w in ws:
            if w["p"].poll() is not None:
                continue
            try:
                s = (os.path.getmtime(w["state"]), open(w["state"]).read())
            except OSError:
                s = None
            if s != w["seen"]:
                w["seen"], w["since"] = s, now
            limit = HANG_S if not (s and s[1].startswith("shrink")) else 4 * shrink + HANG_S
            if now - w["since"] > limit or now > deadline:
                os.killpg(w["p"].pid, signal.SIGKILL)
                w["p"].wait()
                w["dead"] = "hang"

    results, violations, problems = [], [], []
    hung = False
    for w in ws:
        if w["p"].returncode == 0 and os.path.exists(w["out"]):
            try:
                results.append(json.load(open(w["out"])))
                continue
            except ValueError:
                pass
        st = open(w["state"]).read() if os.path.exists(w["state"]) else ""
        m = re.search(r"\d+", st)
        text = open(w["err"]).read()[-800:]
        what = "hang" if w["dead"] else f"process-crash"
        if not m:
            problems.append(f"worker ended with {w['p'].returncode} before its first run: {text}")
            continue
        seed = int(m.group())
        if hung and w["dead"]:
            continue  # one confirmed hang is enough to report
        # does this seed do it on its own?
        rc, out = sh(base + ["one", "--prop", prop, "--seed", str(seed), "--brief"], HANG_S)
        if rc is None or rc != 0:
            hung = hung or rc is None
            violations.append({"property": prop, "seed": seed, "class": "hang" if rc is None else "process-crash",
                               "detail": ("the process does not come back" if rc is None else f"exit status {rc}: {out[-600:]}"),
                               "streams": None, "reproduces": True, "history": out.splitlines()[-100:]})
        else:
            problems.append(f"worker: {what} (status {w['p'].returncode}) at seed {seed}, not seen again on its own: {text}")
    for r in results:
        for v in r["violations"]:
            violations.append(v)
    # one report per class, the smallest history
    best = {}
    for v in violations:
        k = v["class"]
        size = len(json.dumps(v.get("streams")))
        if k not in best or (v.get("reproduces"), -size) > (best[k][0].get("reproduces"), -best[k][1]):
            best[k] = (v, size)

    tot = lambda k: sum(r[k] for r in results)
    merge = {}
    for key in ("faults", "runs_with_fault", "probes"):
        m = {}
        for r in results:
            for k, v in r[key].items():
                m[k] = m.get(k, 0) + v
        merge[key] = dict(sorted(m.items()))
    inter = set()
    for w in ws:
        f = w["out"] + ".inter"
        if os.path.exists(f):
            b = open(f, "rb").read()
            inter.update(b[i:i + 8] for i in range(0, len(b), 8))
    kh = {}
    for r in results:
        for c, n, s in r.get("known", []):
            e = kh.setdefault(c, [0, s])
            e[0] += n

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lines = []
    for k, (v, _) in sorted(best.items()):
        slug = re.sub(r"[^a-z0-9]+", "-", k.lower()).strip("-")[:60]
        path = os.path.join(VERIF, "replays", f"{prop}-{slug}.json")
        v["harness"] = " ".join(base)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        rc, out = sh(base + ["replay", path], HANG_S)
        lines.append((k, v, path, rc == 1 or rc is None or (v["streams"] is None and rc != 0)))

    wall = time.time() - t0
    runs = tot("runs") if results else 0
    rw = sum(r["wall_s"] for r in results) / max(1, len(results))
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(best),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(inter),
            "rule": "One evaluation is one simulated run: a workload, a fault sequence and an interleaving all drawn from one seed. "
                    "It is non-trivial when the scheduler made more than 3 decisions with more than one runnable thread or task and "
                    "switched more than 3 times, or made more than 3 operations of a history that has no threads; distinct by the hash of its sequence of scheduling decisions and observed events. "
                    + spec.get("rule", ""),
            "samples": [s for r in results[:3] for s in r["samples"][:2]],
            "seeds": {"first": first, "stride": 1, "workers": workers},
            "runs_per_hour": int(runs / rw * 3600) if rw else 0,
            "simulated_seconds": round(tot("sim_s"), 3) if results else 0,
            "scheduler_steps": tot("steps") if results else 0,
            "scheduler_decisions": tot("decisions") if results else 0,
            "history_operations": sum(r.get("ops", 0) for r in results),
            "nontrivial_runs": tot("nontrivial") if results else 0,
            "max_threads": max([r["max_threads"] for r in results] or [0]),
            "fault_kinds": merge["faults"],
            "runs_with_fault_kind": merge["runs_with_fault"],
            "conditions_reached": merge["probes"],
            "determinism": {"seeds_run_in_three_processes": len(det[0]) if det[0] else 0, "diverged": diverged[:20]},
            "real_components": spec["real"],
            "stub_components": spec["stub"],
            "build_s": round(build_s, 1),
            "known_findings_seen": {k: v[0] for k, v in kh.items()},
            "harness_problems": problems[:5],
        },
        "assumptions": spec.get("assumptions", []) + [
            "threads are switched at synchronisation, blocking and I/O points only (sequentially consistent memory)",
            "a sample of schedules and faults, not all of them",
        ],
    }
    if lines:
        ev["coverage"]["violation_reports"] = [{"class": k, "detail": str(v.get("detail"))[:400], "seed": v.get("seed"), "replay": p,
                                                "replayed": ok} for k, v, p, ok in lines[:4]]
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))

    print(f"{prop} {tier}: {runs} runs, {len(inter)} distinct non-trivial, {sum(merge['faults'].values())} faults of "
          f"{len(merge['faults'])} kinds, {round(wall, 1)} s (build {round(build_s, 1)} s)")
    if diverged:
        print(f"note: {len(diverged)} of {len(det[0])} seeds gave different logs in different processes: {diverged[:5]}")
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={prop} [{k}] {what} (seen in {kh.get(k, [0])[0]} runs)")
    for k, v, path, ok in lines:
        print(f"  {k}: {str(v.get('detail'))[:600]}  (seed {v.get('seed')}, {'reproduced' if ok else 'NOT reproduced'} from the file)")
        print(f"VIOLATION property={prop} replay={path}")
    for p in problems:
        print(f"problem: {p}")
    if lines:
        return 1
    if problems or not results:
        return 2
    return 0


if __name__ == "__main__":
    main()
