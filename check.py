#!/usr/bin/env python3
"""check.py <property> [--only name#index] : decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: violated;
exit 2: inconclusive (error of the check).
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
LOGS = os.path.join(TARGET, "logs")
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"

# flavour -> (cargo args, extra rustflags, binary directory)
FLAVOURS = {
    "plain": ([], "", "plain", "debug"),
    "tsan": (["-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=thread", "tsan", TRIPLE + "/debug"),
    "asan": (["--target", TRIPLE], "-Zsanitizer=address", "asan", TRIPLE + "/debug"),
}


def say(*a, **k):
    print(*a, flush=True, **k)


def sources_digest():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
    files += sorted(glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True))
    files += sorted(glob.glob(os.path.join(HARNESS, "src", "**", "*"), recursive=True))
    files += [os.path.join(HARNESS, "Cargo.toml")]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(x.read())
    return h.hexdigest()


def build(flavour="plain"):
    """Build the monitors against /repo as it is now; returns (binary, hooks on?)."""
    args, flags, sub, bindir = FLAVOURS[flavour]
    tgt = os.path.join(TARGET, sub)
    os.makedirs(tgt, exist_ok=True)
    os.makedirs(LOGS, exist_ok=True)
    binary = os.path.join(tgt, bindir, "mon")
    stamp = os.path.join(tgt, "built-from")
    with open(os.path.join(tgt, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = sources_digest()
        try:
            old, hooks = open(stamp).read().split()
            if old == digest and os.path.exists(binary):
                return binary, hooks == "1"
        except (OSError, ValueError):
            pass
        if os.path.exists(stamp):
            os.unlink(stamp)
        cargo = ["cargo"] + ([f"+{NIGHTLY}"] if flavour != "plain" else [])
        env = dict(os.environ, CARGO_TARGET_DIR=tgt)
        env.pop("RUSTC_WRAPPER", None)
        # contents decide, not time stamps: always recompile the library
        subprocess.run(cargo + ["clean", "--offline", "-p", "libmcaptcha", "-p", "mon"]
                       + (["--target", TRIPLE] if flavour != "plain" else []),
                       cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for hooks, feat in ((True, []), (False, ["--no-default-features"])):
            env["RUSTFLAGS"] = ("--cfg libmcaptcha_verif " if hooks else "") + flags
            log = os.path.join(LOGS, f"build-{flavour}-{int(hooks)}.log")
            with open(log, "w") as f:
                r = subprocess.run(cargo + ["build", "--offline"] + args + feat, cwd=HARNESS, env=env,
                                   stdout=f, stderr=subprocess.STDOUT)
            if r.returncode == 0 and os.path.exists(binary):
                with open(stamp, "w") as f:
                    f.write(f"{digest} {int(hooks)}")
                return binary, hooks
    say(open(log).read()[-6000:])
    say(f"check error: the monitors do not build against {REPO}")
    sys.exit(2)


def run(binary, prop, seed, tier, tag, only=None, budget=0, env=None, timeout=800, prefix=()):
    os.makedirs(LOGS, exist_ok=True)
    out = os.path.join(LOGS, f"{prop}-{tag}.json")
    log = os.path.join(LOGS, f"{prop}-{tag}.log")
    if os.path.exists(out):
        os.unlink(out)
    cmd = list(prefix) + [binary, prop, "--seed", str(seed), "--tier", tier, "--out", out]
    if only:
        cmd += ["--only", only]
    if budget:
        cmd += ["--budget", str(budget)]
    e = dict(os.environ, RUST_BACKTRACE="0", **(env or {}))
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=f, env=e, cwd=LOGS)
    return p, out, log, time.time() + timeout


def finish(h):
    p, out, log, end = h
    try:
        rc = p.wait(max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = None
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        res = None
    return rc, res, log


def tail(path, n=4000):
    try:
        with open(path, errors="replace") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read()
    except OSError:
        return ""


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matches(k, v):
    return v["case"] == k["case"] and v["sig"] == k["sig"] and all(t in v["detail"] for t in k["detail_contains"])


def stalled_cases(binary, prop, seed, tier, res):
    """Re-run, alone, the cases that were running when everything stood still."""
    viol = []
    running = res.get("running", [])[:8]
    hs = []
    for i, (name, index, _) in enumerate(running):
        hs.append((name, index, run(binary, prop, seed, tier, f"stall{i}", only=f"{name}#{index}", timeout=200)))
    for name, index, h in hs:
        rc, r, log = finish(h)
        if r and r["status"] == "stalled":
            viol.append(dict(case=name, index=index, case_seed=0, sig="no-progress",
                             detail="nothing happens any more: a request is never answered (no event for 45 s, twice, "
                                    "also when this case runs alone)", events=[]))
        elif r and r["violations"]:
            viol += r["violations"]
    return viol


def write_evidence(prop, tier, seed, res, wall, violations, extra, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"],
               rule="; ".join(res["rules"]), samples=res["samples"] or [{"note": "none recorded"}])
    for k, v in res["counters"].items():
        cov[k] = v
    cov["queue_hooks_available"] = res.get("hooks", False)
    cov.update(extra)
    if res["notes"]:
        cov["notes"] = res["notes"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(violations))
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


ASSUME = [
    "says nothing about inputs, histories and interleavings the workload did not produce",
    "the reference model in harness/src states the property correctly",
]
ASSUME_BY = {
    "virtual": "timing is observed on tokio's paused clock, which the library uses through actix; instants within a few ms of an expiry are not judged",
    "redis": "Redis and its mCaptcha module are represented by an in-process stand-in speaking RESP2",
}


def main():
    prop = sys.argv[1]
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--only" else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    extra = {}
    violations, inconclusive = [], []
    if only and only.startswith("interp-"):
        import interp
        v = interp.replay(sys.modules[__name__], prop, only)
        for x in v:
            say(f"{x['sig']}: {x['detail']}", *x["events"], sep="\n")
        sys.exit(1 if v else 0)
    binary, hooks = build("plain")
    say(f"{prop}: built from {REPO} in {time.time() - t0:.1f} s (queue hooks {'on' if hooks else 'unavailable'})")
    rc, res, log = finish(run(binary, prop, seed, tier, "main", only=only))
    if res is None:
        say(tail(log))
        if rc is not None and rc < 0:
            # killed by a signal: memory error or abort inside the process
            res = dict(evaluations=0, distinct=0, counters={}, samples=[], rules=["process died"], notes=[], running=[],
                       violations=[], inconclusive=[])
            if rc in (-6, -11, -7, -4):
                violations.append(dict(case="process", index=0, case_seed=seed, sig=f"signal{-rc}",
                                       detail=f"the monitored process died of signal {-rc}: {tail(log, 800)}", events=[]))
            else:
                inconclusive.append(f"process ended by signal {-rc}")
        else:
            say(f"{prop}: no result (exit {rc})")
            sys.exit(2)
    violations += res["violations"]
    inconclusive += res["inconclusive"]
    if res.get("status") == "stalled":
        more = stalled_cases(binary, prop, seed, tier, res)
        violations += more
        if not violations:
            inconclusive.append(f"stalled in {res['running'][:8]}, not reproduced")
    if prop == "C23" and not only:
        import sanitize
        v, i, x = sanitize.run_all(sys.modules[__name__], seed, tier)
        violations += v
        inconclusive += i
        extra.update(x)
    if not only and not violations:
        import interp
        deadline = t0 + (700 if tier == "quick" else 1e9)
        v, x = interp.run_all(sys.modules[__name__], prop, seed, tier, deadline)
        violations += v
        extra.update(x)
    kn = known(prop)
    new = [v for v in violations if not any(matches(k, v) for k in kn)]
    hit = [k for k in kn if any(matches(k, v) for v in violations)]
    assumptions = list(ASSUME)
    if prop in ("C04", "C08", "C09", "C10", "C11", "C12", "C26", "C27", "C28"):
        assumptions.append(ASSUME_BY["virtual"])
    if prop in ("C17", "C18", "C19", "C20", "C22", "C24", "C26", "C28"):
        assumptions.append(ASSUME_BY["redis"])
    extra["known_findings_observed"] = [k["what"] for k in hit]
    write_evidence(prop, tier, seed, res, time.time() - t0, new, extra, assumptions)
    for k in hit:
        say(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for n, v in enumerate(new[:5]):
            path = os.path.join(REPLAYS, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier,
                               replay=f"cd {HERE} && VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop} "
                                      f"--only '{v['case']}#{v['index']}'"), f, indent=1, ensure_ascii=False)
            say(f"  {v['case']}#{v['index']} {v['sig']}: {v['detail'][:600]}")
            if n == 0:
                first = path
        say(f"VIOLATION property={prop} replay={first}")
        sys.exit(1)
    if inconclusive:
        for i in inconclusive[:10]:
            say(f"inconclusive: {i}")
        say(tail(log, 1500))
        sys.exit(2)
    say(f"{prop}: held on {res['evaluations']} evaluations, {res['distinct']} distinct situations, "
        f"{json.dumps(res['counters'])}, {time.time() - t0:.1f} s")
    sys.exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "--build":
        for fl in sys.argv[2:] or ["plain"]:
            t = time.time()
            if fl == "interp":
                import interp
                say(f"interp: {interp.build(sys.modules[__name__]) and 'built'} {time.time() - t:.1f} s")
                continue
            b, h = build(fl)
            say(f"{fl}: {b} hooks={h} {time.time() - t:.1f} s")
        sys.exit(0)
    main()
