#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; checks only read it)."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
by = {l.split(" ", 1)[1]: l.split()[0] for l in log.splitlines()}
FIXED = [
    ("C07", "fix: Defense::visitor_threshold returns the threshold", "reading back a built level's visitor threshold gave its difficulty"),
    ("C08", "fix: don't overflow the visitor count", "the 4294967296th live visitor panicked (debug) or reset the count to 0 (release); also C09, C21"),
    ("C08", "fix: keep the defense level while the load stays the same", "while the count stayed between two thresholds every second visitor was told the lower level's difficulty"),
    ("C11", "fix: clean up survives counters that have stopped", "a collection that met a stopped counter panicked in the registry and ended it"),
    ("C11", "fix: clean up removes only sites that stayed idle", "a site re-added, renamed or visited while a collection was under way was removed by it"),
    ("C12", "fix: visitors of a restored site expire when the site was unknown", "restoring into an empty registry left the restored visitors counted for ever"),
    ("C12", "fix: earlier visitors don't expire from a restored site", "timers of visits before the restore took visitors away from the restored count"),
    ("C13", "fix: dispatch every waiting job to an idle worker, in turn per IP", "an admitted submission waited until another one arrived, or for ever; also C14 (addresses seen once filled the queue for good) and C15 (an address got several turns while others waited)"),
    ("C13", "fix: a proof check sends one verdict and never blocks its worker", "an invalid and insufficient proof sent three verdicts into a channel for two and could block its worker for ever"),
    ("C19", "fix: the Redis cache survives requesters that give up", "dropping a request before its reply panicked in the cache and ended it; also C22"),
    ("C19", "fix: an error of Redis while storing a token is reported, not a panic", "an error reply to SET panicked in the cache and ended it"),
    ("C19", "fix: malformed replies of the Redis module are reported, not a panic", "a reply of ADD_VISITOR or GET_CHALLENGE that is not the expected JSON panicked"),
    ("C19", "fix: a Redis connection can be used by several tasks at once", "a second command on a shared connection while another was awaited panicked (RefCell already borrowed)"),
    ("C17", "fix: tokens of different sites never share a Redis key", "token \"b:c\" of site \"a\" and token \"c\" of site \"a:b\" were the same entry"),
    ("C20", "fix: connecting looks at every module and reports failures", "a server with the mCaptcha module loaded second was refused; an error reply, bad address or unreachable server panicked"),
    ("C10", "fix: master: a visitor and a removal asked for later arrive in that order", "a removal asked for later could overtake a visitor's request, which then failed with a mailbox error, and a visitor after a rename could overtake one before it"),
    ("C25", "fix: a submission that waits for its verdict doesn't block its thread", "verify_pow waited for its verdict in a blocking receive: nothing else on that thread went on, and with one thread per process and long proofs the service stood still"),
    ("C26", "fix: get_pow reports an error of the registry", "get_pow answered Ok(None), no such site, when the registry had failed; also C05, C19"),
    ("C26", "fix: CaptchaDurationZero and StringNotFound say what they mean", "a duration of zero was reported with the text of a zero difficulty factor, an unknown challenge with that of an insufficient one"),
    ("C26", "fix: a visitor of an unknown site is no error of the Redis registry", "a visitor of a site that does not exist was an error on Redis and nothing on the embedded registry; also C18"),
    ("C27", "fix: an entry stored again in the embedded cache isn't removed by an earlier timer", "a challenge or token stored under a text used before was removed when the earlier entry's time was over, also if that one had been redeemed, deleted or replaced; also C04"),
]
FINDINGS = [
    dict(property="C18", case=c, sig="panic", detail_contains=["src/master/redis/master.rs", "not yet implemented"],
         what=f"{m} sent to a Redis-backed registry panics (todo!() in src/master/redis/master.rs) and ends the registry actor")
    for c, m in (("export", "GetInternalData"), ("import", "SetInternalData"))
]
json.dump({
    "comment": "findings: genuine defects that are recorded, not repaired; a violation is one of them only if property, case and sig are equal and detail contains every listed text. fixed: repaired by a fix: commit in /repo; suppresses nothing.",
    "findings": FINDINGS,
    "fixed": [f"fixed: property={p} {by[s]} {w}" for p, s, w in FIXED],
}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(FIXED), "fixed")
