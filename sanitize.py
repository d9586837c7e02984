"""C23: the monitored workloads again, in builds with the thread and the address sanitizer.

Sanitizer reports, deaths by signal and panics are violations. What the functional monitors
say in these slow builds is not used (they judge the plain build).
"""
import glob, os, re, shutil, subprocess

# (flavour, property, seconds quick, seconds thorough)
RUNS = [
    ("tsan", "C23", 60, 600), ("tsan", "C03", 30, 240), ("tsan", "C13", 30, 240), ("tsan", "C16", 30, 240),
    ("tsan", "C22", 30, 240), ("tsan", "C11", 30, 240), ("tsan", "C19", 30, 120), ("tsan", "C10", 20, 240),
    ("asan", "C23", 60, 600), ("asan", "C03", 30, 240), ("asan", "C13", 30, 240), ("asan", "C16", 30, 240),
    ("asan", "C22", 30, 240), ("asan", "C12", 30, 240), ("asan", "C01", 20, 240), ("asan", "C17", 20, 120),
]
KINDS = re.compile(r"(WARNING: ThreadSanitizer: [^(\n]+|ERROR: AddressSanitizer: [\w-]+|ERROR: LeakSanitizer: detected memory leaks)")


def reports(text):
    """Split a sanitizer log into reports."""
    out = []
    marks = [m.start() for m in KINDS.finditer(text)]
    for a, b in zip(marks, marks[1:] + [len(text)]):
        out.append((KINDS.match(text, a).group(1).strip(), text[a:b]))
    return out


def frames(rep):
    """library and dependency frames of a report, for its signature"""
    fs = re.findall(r"#\d+ (?:0x\w+ in )?(.+?)(?: \S*?([\w.-]+/src/[\w/.-]+\.rs):(\d+)| \(|$)", rep, re.M)
    return [f"{n} {p}:{l}" for n, p, l in fs if p and "rustlib" not in p][:6]


def run_all(chk, seed, tier):
    viol, inconcl = [], []
    extra = {"sanitizer_runs": [], "sanitizer_reports": 0, "sanitizer_canaries": {}}
    bins = {}
    for fl in ("tsan", "asan"):
        try:
            bins[fl] = chk.build(fl)[0]
        except SystemExit:
            inconcl.append(f"the {fl} build failed")
    logs = os.path.join(chk.LOGS, "sanitizers")
    shutil.rmtree(logs, ignore_errors=True)
    os.makedirs(logs)
    # are the sanitizers awake?
    for fl, kind, what in (("tsan", "race", "data race"), ("asan", "freed", "heap-use-after-free"), ("asan", "leak", "memory leaks")):
        if fl in bins:
            path = os.path.join(logs, f"canary-{kind}")
            env = dict(os.environ, TSAN_OPTIONS=f"log_path={path}", ASAN_OPTIONS=f"log_path={path}")
            subprocess.run([bins[fl], "canary", kind], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            text = "".join(open(p, errors="replace").read() for p in glob.glob(path + ".*"))
            extra["sanitizer_canaries"][f"{fl} {kind}"] = what in text
            if what not in text:
                # the leak check may be impossible where threads cannot be stopped; C24 measures leaks by itself
                if kind != "leak":
                    inconcl.append(f"the {fl} build does not see a planted {what}")
    todo = [r for r in RUNS if r[0] in bins]
    todo.sort(key=lambda r: -r[2])
    running = []

    def collect(block):
        for item in list(running):
            (fl, prop, path), h = item
            if not block and h[0].poll() is None:
                continue
            running.remove(item)
            rc, res, log = chk.finish(h)
            text = "".join(open(p, errors="replace").read() for p in sorted(glob.glob(path + ".*")))
            reps = reports(text)
            extra["sanitizer_reports"] += len(reps)
            extra["sanitizer_runs"].append(dict(
                flavour=fl, workload=prop, exit=rc, reports=len(reps),
                evaluations=res["evaluations"] if res else 0, distinct=res["distinct"] if res else 0,
                counters=res["counters"] if res else {}, wall_s=round(res["wall_s"], 1) if res else None,
                leak_check=("unavailable" if "LeakSanitizer has encountered a fatal error" in text else "done") if fl == "asan" else "n/a"))
            for kind, rep in reps[:3]:
                viol.append(dict(case=f"{fl}-{prop}", index=0, case_seed=seed, sig=kind,
                                 detail=f"{kind} in the {fl} build under workload {prop}: " + " <- ".join(frames(rep)),
                                 events=rep[:6000].splitlines()))
            if not reps and rc is not None and rc < 0:
                if rc in (-6, -11, -7, -4):
                    viol.append(dict(case=f"{fl}-{prop}", index=0, case_seed=seed, sig=f"signal{-rc}",
                                     detail=f"the {fl} build died of signal {-rc}: {chk.tail(log, 800)}", events=[]))
                else:
                    inconcl.append(f"{fl} {prop} ended by signal {-rc}")
            for v in (res or {}).get("violations", []):
                if v["sig"] == "panic":
                    viol.append(dict(v, case=f"{fl}-{prop}-{v['case']}"))
            if block:
                return

    for fl, prop, q, t in todo:
        while len(running) >= 5:
            collect(False)
            if len(running) >= 5:
                import time
                time.sleep(0.2)
        path = os.path.join(logs, f"{fl}-{prop}")
        env = {
            "TSAN_OPTIONS": f"log_path={path} halt_on_error=0 exitcode=0 history_size=4 report_thread_leaks=0 second_deadlock_stack=1",
            "ASAN_OPTIONS": f"log_path={path} exitcode=0 detect_leaks=1 halt_on_error=1 abort_on_error=0",
            "LSAN_OPTIONS": "exitcode=0",
        }
        h = chk.run(bins[fl], prop, seed, tier, f"{fl}", budget=t if tier == "thorough" else q, env=env,
                    timeout=900 if tier == "thorough" else 240)
        running.append(((fl, prop, path), h))
    while running:
        collect(True)
    done = [r for r in extra["sanitizer_runs"] if r["evaluations"] > 0]
    if len(done) < len(RUNS) // 2:
        inconcl.append(f"only {len(done)} of {len(RUNS)} sanitizer runs observed anything")
    return viol, inconcl, extra
