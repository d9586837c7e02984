"""Small scenarios under an interpreter (Miri): see interp/src/main.rs.

The interpreter switches threads anywhere, has a virtual clock and weak memory, is fully
determined by its seed, and reports undefined behaviour, data races, deadlocks, leaks and threads left
over. It gives evidence where it can run; where it cannot (a build or an operation it does
not support), the other monitors decide alone.
"""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, time

# property -> scenarios, seconds quick, seconds thorough
RUNS = {
    "C02": (["tokens"], 20, 200), "C03": (["tokens"], 20, 200), "C10": (["registry"], 20, 200),
    "C11": (["registry"], 20, 200), "C13": (["queue"], 20, 200), "C16": (["queue", "lives"], 20, 200),
    "C22": (["tokens", "lives", "queue"], 20, 200), "C23": (["tokens", "queue", "registry", "lives"], 50, 400),
}
# what a scenario finds broken -> properties
SIGS = {
    "never-checked": ["C13", "C22"], "twice": ["C13"], "refused-checked": ["C13"], "kept": ["C16"], "late": ["C16"],
    "redeemed-twice": ["C02", "C22"], "refused": ["C02", "C22"], "difficulty": ["C01"], "validated": ["C03", "C22"],
    "expired": ["C04"], "lost": ["C10"], "old-name": ["C10"], "removed": ["C10"], "snapshot": ["C10"],
    "last": ["C10", "C11", "C22"], "count": ["C09", "C11"],
}
# what the interpreter reports -> properties
ERRORS = [
    (r"Undefined Behavior: Data race[^\n]*", "data-race", ["C23"]),
    (r"Undefined Behavior: [^\n]*", "undefined-behaviour", ["C23"]),
    (r"error: memory leaked[^\n]*", "leak", ["C23", "C24"]),
    (r"the main thread terminated without waiting for all remaining threads", "threads-left", ["C16", "C23"]),
    (r"error: (the evaluated program )?deadlock(ed)?[^\n]*", "deadlock", ["C13", "C16", "C10", "C11", "C22", "C23"]),
]
PANIC = re.compile(r"panicked at ([^\n]+):\n?([^\n]*)")


def build(chk):
    """-> (environment, cargo arguments) or None"""
    here = os.path.join(chk.HERE, "interp")
    tgt = os.path.join(chk.TARGET, "interp")
    os.makedirs(tgt, exist_ok=True)
    os.makedirs(chk.LOGS, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    env.pop("RUSTC_WRAPPER", None)
    stamp = os.path.join(tgt, "built-from")
    with open(os.path.join(tgt, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256(chk.sources_digest().encode())
        for f in ("Cargo.toml", "Cargo.lock", "src/main.rs", "../interp.py"):
            with open(os.path.join(here, f), "rb") as x:
                h.update(x.read())
        digest = h.hexdigest()
        try:
            old, hooks = open(stamp).read().split()
            if old == digest:
                hooks = int(hooks)
                if hooks < 0:
                    return None
                env["RUSTFLAGS"] = "--cfg libmcaptcha_verif" if hooks else ""
                return env, [] if hooks else ["--no-default-features"]
        except (OSError, ValueError):
            pass
        clean = dict(env, CARGO_TARGET_DIR=os.path.join(tgt, "miri"))
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", "libmcaptcha", "-p", "interp", "--target", chk.TRIPLE],
                       cwd=here, env=clean, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for hooks, feat in ((1, []), (0, ["--no-default-features"])):
            env["RUSTFLAGS"] = "--cfg libmcaptcha_verif" if hooks else ""
            with open(os.path.join(chk.LOGS, f"build-interp-{hooks}.log"), "w") as f:
                r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline"] + feat + ["--", "none", "1"],
                                   cwd=here, env=env, stdout=f, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                break
        else:
            hooks = -1
        with open(stamp, "w") as f:
            f.write(f"{digest} {hooks}")
        return (env, feat) if hooks >= 0 else None


def one(chk, env, feat, scenario, seed, limit):
    # switch threads rarely, often, very often
    rate = (0.01, 0.1, 0.4)[seed % 3]
    flags = f"-Zmiri-seed={seed} -Zmiri-preemption-rate={rate} -Zmiri-disable-stacked-borrows -Zmiri-backtrace=full"
    env = dict(env, MIRIFLAGS=flags)
    t = time.time()
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline"] + feat + ["--", scenario, str(seed)],
                           cwd=os.path.join(chk.HERE, "interp"), env=env, capture_output=True, text=True, errors="replace", timeout=limit)
        return scenario, seed, r.returncode, r.stdout, r.stderr, time.time() - t
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", f"interp {scenario} {seed}$"])
        return scenario, seed, None, "", "", time.time() - t


def judge(prop, scenario, seed, rc, out, err):
    """-> (violations, note)"""
    if rc == 0 and "FINE" in out:
        return [], None
    found = []
    m = re.search(r"BROKEN ([\w-]+): ([^\n]*)", err)
    if m:
        found.append((m.group(1), m.group(2), SIGS.get(m.group(1), [])))
    else:
        if "unsupported operation" in err:
            return [], f"{scenario} {seed}: the interpreter does not support an operation"
        p = PANIC.search(err)
        if p:
            if "interp/src/" in p.group(1) or p.group(1).startswith("src/main.rs"):
                found.append(("failed-request", f"{p.group(1)}: {p.group(2)}", [prop]))
            else:
                found.append(("panic", f"{p.group(1)}: {p.group(2)}", [prop]))
        for pat, sig, props in ERRORS:
            m = re.search(pat, err)
            if m:
                found.append((sig, m.group(0), props))
                break
    if not found:
        return [], f"{scenario} {seed}: exit {rc}: {err[-300:]!r}"
    mine = [(s, d) for s, d, props in found if prop in props]
    v = [dict(case=f"interp-{scenario}", index=seed, case_seed=seed, sig=s,
              detail=f"under the interpreter, scenario {scenario}, seed {seed}: {d}",
              events=(out + err)[-4000:].split("\n")) for s, d in mine]
    return v, None if v else f"{scenario} {seed}: {found[0][0]}, which contradicts another property"


def replay(chk, prop, only):
    b = build(chk)
    name, _, seed = only.removeprefix("interp-").partition("#")
    if b is None:
        return []
    return judge(prop, name, int(seed), *one(chk, *b, name, int(seed), 600)[2:5])[0]


def run_all(chk, prop, seed, tier, deadline=float("inf")):
    if prop not in RUNS:
        return [], {}
    scenarios, quick, thorough = RUNS[prop]
    t0 = time.time()
    b = build(chk)
    cov = {"runs": 0, "by_scenario": {}, "notes": [], "build_s": round(time.time() - t0, 1)}
    if b is None:
        cov["notes"].append("the scenarios do not build for the interpreter")
        return [], {"interpreter": cov}
    env, feat = b
    if feat:
        scenarios = [s for s in scenarios if s != "queue"]
    if prop == "C23":
        # is the interpreter awake?
        for s, what in (("leak", "memory leaked"), ("thread", "terminated without waiting"), ("race", "Data race")):
            r = one(chk, env, feat, s, 1, 120)
            cov.setdefault("canaries", {})[s] = what in r[4]
    end = min(time.time() + (thorough if tier == "thorough" else quick), deadline - 160)
    viol, late = [], []
    n = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = set()
        while (time.time() < end and not viol) or fs:
            while len(fs) < 8 and time.time() < end and not viol:
                s = scenarios[n % len(scenarios)]
                fs.add(ex.submit(one, chk, env, feat, s, (seed * 1_000_003 + n) % (1 << 40), 150))
                n += 1
            done, fs = concurrent.futures.wait(fs, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                s, k, rc, out, err, t = f.result()
                cov["runs"] += 1
                cov["by_scenario"][s] = cov["by_scenario"].get(s, 0) + 1
                if rc is None:
                    late.append((s, k))
                    if len(late) > 3:
                        end = 0
                    continue
                v, note = judge(prop, s, k, rc, out, err)
                viol += v
                if note and len(cov["notes"]) < 5:
                    cov["notes"].append(note)
    for s, k in late[:2]:
        # the same run again, alone, with more time
        if viol:
            break
        left = min(280, deadline - time.time())
        if left < 150:
            cov["notes"].append(f"{s} {k}: no result in 150 s, no time for a second look")
            continue
        r = one(chk, env, feat, s, k, left)
        if r[2] is None:
            viol.append(dict(case=f"interp-{s}", index=k, case_seed=k, sig="no-progress", events=[],
                             detail=f"under the interpreter, scenario {s}, seed {k} never ends"))
        else:
            viol += judge(prop, s, k, *r[2:5])[0]
    cov["seconds"] = round(time.time() - t0, 1)
    return viol, {"interpreter": cov}
