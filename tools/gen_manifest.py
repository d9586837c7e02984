#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

REF = "runtime monitoring: random and exhaustive workloads on the real code, every observation judged by an independent reference model"
VT = "runtime monitoring in virtual time: recorded histories of the real actors judged by a sequential reference model"
RED = "runtime monitoring against an instrumented Redis stand-in: command log, key space and replies judged by a model, with fault injection"
Q = "runtime monitoring of the real worker threads: gated instrumented jobs, recorded admission/start/finish log judged offline"

CHECKS = {
    "C07": (REF, "Exhaustive over builder sequences of up to 4 (thorough: 5) levels on a 3x3 value domain; beyond that sampled over the full u32 range. Trusts the reference model."),
    "C08": (VT, "Exhaustive single arrivals over all small defences, counts and levels; sampled over the full 32-bit range, long histories and both actors. States are injected through the public serialised form."),
    "C09": (VT, "Sampled arrival patterns in virtual time through counter and registry, bursts of up to 3000; instants within 3 ms of an expiry are not judged."),
    "C01": (VT, "Sampled multi-party histories (issue, submit, replay, forge, wait) through the public System, sequential in virtual time and concurrent on real worker threads, over a cache proxy that records, delays and fails. Proofs are made and judged by an independent implementation of the scoring rule; boundary results (equal, one below, one above) are constructed."),
    "C02": (VT, "As C01 with repeated submissions: one after the other, interleaved on one thread by delaying the cache, and simultaneous from up to 8 threads; acceptances are counted per challenge, and neighbours are redeemed afterwards."),
    "C03": (VT, "As C01 with altered, foreign, repeated and simultaneous validations; up to thousands of tokens outstanding at once."),
    "C04": (VT, "Sampled lifetimes (up to a year in full, beyond that up to u64::MAX partially) and probe instants in virtual time; instants within a few ms of an expiry are not judged."),
    "C05": (VT, "Sampled histories with changing load, several sites, near-miss names, and caches that delay or fail; judged against the load model, the recorded cache traffic and the registry snapshot."),
    "C06": (REF, "Statistical (symbol and position frequencies, repeats, prefix and cross-thread collisions) over samples of generated strings; distinguishes realistic weak generators, not a good pseudo-random generator from a true one."),
    "C10": (VT, "Sampled request sequences over near-identical names in virtual time, every reply and the whole snapshot compared with a map model; concurrent histories from real threads checked for linearizability."),
    "C11": (VT, "Sampled activity around collections in virtual time, requests placed a few task switches into a collection, plus storms on real threads while collections run all the time."),
    "C12": (VT, "Sampled snapshot/restore histories (same, overlapping or fresh registry, repeated) in virtual time against the timed model."),
    "C13": (Q, "Sampled schedules of the real queue threads; bounded progress is judged by a stall limit of 45 s without any event, twice."),
    "C14": (Q, "Sampled schedules with gated jobs at and around the length limit; judged from the admission log; through hooks and, independently, through the public System."),
    "C15": (Q, "Sampled schedules with gated jobs; the rotation between addresses, order within one and use of free workers are judged from the start log."),
    "C16": (Q, "Managers and systems dropped at sampled moments with jobs running, waiting and arriving; execution log, fate of every job and the operating system's thread list are judged."),
    "C17": (RED, "Sampled operation histories over confusable (site, token) pairs, simultaneous lookups by 2-4 servers with injected delays, and whole systems sharing one Redis; the module is a stand-in whose GET_CHALLENGE consumes the entry."),
    "C18": (RED, "Sampled request sequences and bursts with real and scripted extreme answers; single-node and cluster configuration. Exporting and importing state is a known finding."),
    "C19": (RED, "Every operation under every fault kind at least once per run, sampled beyond that; outages up to 7 s. Connection faults are injected in the single-node configuration only (the cluster client repeats commands by itself)."),
    "C20": (RED, "Sampled module lists, missing commands and connection troubles at every question asked while connecting."),
    "C21": (REF, "Sampled site histories driven in lock-step with their deserialised copy; all public message types round-tripped with boundary values."),
    "C22": (VT, "Sampled suspension points: requests dropped after 0-60 polls, alone, among others on one thread, on several threads, and on Redis; sampled mixes."),
    "C23": ("sanitizers (ThreadSanitizer, AddressSanitizer, LeakSanitizer) and panic monitor over concurrent and extreme workloads on the real code", "Sampled interleavings; the sanitizers see races and memory errors of executed code only. That they are awake is shown in each run by planted canaries in the monitor itself."),
    "C24": ("runtime monitoring with a counting allocator and the operating system's thread and file lists over equal rounds of use", "Sampled round compositions; a resource kept once per something rarer than the workload produces is not seen. Growth that stops within five doublings of the number of rounds counts as capacity."),
    "C25": ("runtime monitoring of the real code on one thread while the worker threads are held by the scheduler: order of replies, wake-ups and processor time", "Sampled mixes of requests served while 1-3 workers are busy with proofs of megabytes; a held worker stands for one that takes long. Where a worker cannot be held the case is undecided."),
    "C26": ("runtime monitoring with fault injection: every failure arranged by stand-ins for registry, cache and Redis, or by the protocol, and compared with what the caller was told", "All 20 kinds of error at each of the five steps, sampled mixes of concurrent requests; errors of Redis in the single-node configuration."),
    "C27": (VT, "Sampled message sequences, alone and several at once, stopping around the end of every entry ever stored; instants within 4 ms of an end are not judged; sampled interleavings of real threads."),
    "C28": (VT + ", several systems on real threads and on the Redis stand-in", "Sampled histories over 2-5 systems, sampled races, held workers in one of two systems. On Redis the systems live on one thread (C17 races them on several)."),
}
NOT = {}
for i in ("C02", "C03", "C10", "C11", "C13", "C16", "C22", "C23"):
    CHECKS[i] = (CHECKS[i][0] + "; small scenarios on real threads under the Miri interpreter (random preemption, virtual clock)", CHECKS[i][1])

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build plain tsan asan interp",
    "hooks": {"guard": "cfg(libmcaptcha_verif)",
              "enable": "RUSTFLAGS='--cfg libmcaptcha_verif' (check.py sets it; without the hooks the checks fall back to the public interface)",
              "source_commits": hooks},
    "checks": [dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
                    thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                    evidence_file=f"evidence/{i}.json", technique=CHECKS[i][0], level="exploration",
                    level_note=CHECKS[i][1]) for i in ids if i in CHECKS],
    "not_applicable": [dict(property=i, reason=NOT.get(i, "check under construction")) for i in ids if i not in CHECKS],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
