//! C27: the embedded cache, spoken to directly, keeps exactly what was stored last
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::oneshot::Receiver;

#[derive(Clone, Debug, PartialEq)]
struct Kept {
    key: String,
    difficulty: u32,
    duration: u64,
    /// ms
    end: u64,
    /// how often this name was stored before
    nth: u32,
}
/// a request that was sent and what it must answer
enum Sent {
    Stored(Receiver<CaptchaResult<()>>),
    Looked(Receiver<CaptchaResult<Option<CachedPoWConfig>>>, Option<Kept>),
    Validated(Receiver<CaptchaResult<bool>>, bool),
    Deleted,
}
const SLACK: u64 = 4;

/// One cache on virtual time, compared with a map whose entries end at an instant.
fn faithful(case: &Case) {
    let mut rng = case.rng(1);
    virtual_time(async {
        let clock = Clock::new();
        let cache = HashCache::default().start();
        let mut texts: Vec<String> = vec![];
        let few = rng.chance(2, 3);
        for _ in 0..rng.range(2, if few { 4 } else { 14 }) {
            let t = match texts.last() {
                Some(t) if rng.chance(1, 2) => {
                    let t = t.clone();
                    rng.near_miss(&t)
                }
                _ => rng.name(),
            };
            if !texts.contains(&t) {
                texts.push(t);
            }
        }
        let keys: Vec<String> = (0..3).map(|_| rng.name()).collect();
        let filler = if rng.chance(1, 25) { *rng.pick(&[100u64, 1000, 1100, 4200]) } else { 0 };
        let mut pow: HashMap<String, Kept> = HashMap::new();
        let mut tok: HashMap<String, Kept> = HashMap::new();
        // names whose entry may or may not be there
        let mut unsure: HashSet<String> = HashSet::new();
        let mut times: HashMap<(bool, String), u32> = HashMap::new();
        // when something that was stored once would have ended
        let mut ends: Vec<u64> = vec![];
        let durs: Vec<u64> = (0..rng.range(1, 4)).map(|_| *rng.pick(&[0u64, 1, 2, 3, 5, 5, 30, 3600])).collect();
        for i in 0..filler {
            let r = hold(case.ask_rx(&cache, CachePoW { string: format!("filler{i}"), difficulty_factor: i as u32 + 1, duration: 100_000, key: "f".into() }, "CachePoW")).await;
            case.must(r, "CachePoW");
            let r = hold(case.ask_rx(&cache, CacheResult { token: format!("filler{i}"), key: format!("f{i}"), duration: 100_000 }, "CacheResult")).await;
            case.must(r, "CacheResult");
        }
        for _ in 0..rng.range(10, 60) {
            // some time passes, often to just before or after an end
            let now = clock.ms();
            let to = match rng.below(8) {
                0 | 1 => now,
                2 => now + rng.below(3000),
                3 => now + 5,
                _ => {
                    let later: Vec<u64> = ends.iter().copied().filter(|e| *e + SLACK + 1 > now && *e < now + 40_000).collect();
                    if later.is_empty() {
                        now + rng.below(1200)
                    } else {
                        let e = *rng.pick(&later);
                        if rng.chance(1, 4) { e.saturating_sub(SLACK + 1).max(now) } else { (e + SLACK + 1).max(now) }
                    }
                }
            };
            if to > now {
                clock.until(to).await;
            }
            // one request, or several sent at once
            let mut sent = vec![];
            let burst = if rng.chance(1, 3) { rng.range(2, 8) } else { 1 };
            for _ in 0..burst {
                let now = clock.ms();
                let text = rng.pick(&texts).clone();
                let token = rng.chance(1, 2);
                let map = if token { &mut tok } else { &mut pow };
                if let Some(k) = map.get(&text) {
                    if dist(k.end, now) <= SLACK {
                        continue;
                    }
                    if k.end < now {
                        map.remove(&text);
                    }
                }
                let what = if token { "token" } else { "challenge" };
                match rng.below(10) {
                    0..=4 => {
                        let duration = *rng.pick(&durs);
                        let nth = times.entry((token, text.clone())).and_modify(|n| *n += 1).or_insert(0);
                        let k = Kept { key: rng.pick(&keys).clone(), difficulty: rng.range(1, 9) as u32, duration, end: now + duration * 1000, nth: *nth };
                        if map.get(&text).is_some() {
                            case.count("replaced", 1);
                        } else if *nth > 0 {
                            case.count("stored_again", 1);
                        }
                        ends.push(k.end);
                        case.ev(format!("{now}ms store {what} {text:?} for {:?}, {duration}s, difficulty {}", k.key, k.difficulty));
                        if token {
                            unsure.remove(&text);
                            let f = cache.send(CacheResult { token: text.clone(), key: k.key.clone(), duration });
                            sent.push(Sent::Stored(case.must(hold(f).await, "CacheResult")));
                        } else {
                            let f = cache.send(CachePoW { string: text.clone(), difficulty_factor: k.difficulty, duration, key: k.key.clone() });
                            sent.push(Sent::Stored(case.must(hold(f).await, "CachePoW")));
                        }
                        map.insert(text, k);
                    }
                    5..=7 if !token => {
                        let want = map.remove(&text);
                        let key = want.as_ref().map_or("k".into(), |k| k.key.clone());
                        case.ev(format!("{now}ms look up {text:?}, there: {want:?}"));
                        let f = cache.send(RetrivePoW(VerifyCaptchaResult { token: text, key }));
                        sent.push(Sent::Looked(case.must(hold(f).await, "RetrivePoW"), want));
                    }
                    5..=7 => {
                        let kept = map.get(&text).cloned();
                        if unsure.contains(&text) {
                            continue;
                        }
                        let key = match &kept {
                            Some(k) if rng.chance(3, 4) => k.key.clone(),
                            _ => rng.pick(&keys).clone(),
                        };
                        let want = kept.as_ref().is_some_and(|k| k.key == key);
                        if want {
                            map.remove(&text);
                        } else if kept.is_some() {
                            unsure.insert(text.clone());
                        }
                        case.ev(format!("{now}ms validate {text:?} for {key:?}, there: {kept:?}"));
                        let f = cache.send(VerifyCaptchaResult { token: text, key });
                        sent.push(Sent::Validated(case.must(hold(f).await, "VerifyCaptchaResult"), want));
                    }
                    _ => {
                        map.remove(&text);
                        case.ev(format!("{now}ms delete {what} {text:?}"));
                        let r = if token {
                            unsure.remove(&text);
                            hold(case.ask(&cache, DeleteCaptchaResult { token: text }, "DeleteCaptchaResult")).await
                        } else {
                            hold(case.ask(&cache, DeletePoW(text), "DeletePoW")).await
                        };
                        case.must(r, "deleting");
                        sent.push(Sent::Deleted);
                    }
                }
            }
            for s in sent {
                case.tick();
                match s {
                    Sent::Stored(r) => {
                        let r = hold(r).await;
                        case.check(matches!(r, Ok(Ok(()))), "not-stored", || format!("storing: {r:?}"));
                    }
                    Sent::Looked(r, want) => {
                        let got = case.must(case.must(hold(r).await, "RetrivePoW"), "RetrivePoW");
                        case.seen(("look", want.is_some(), want.as_ref().map(|w| (w.nth.min(20), w.duration)), (clock.ms() / 250).min(400), got.is_some()));
                        case.count(if want.is_some() { "found" } else { "absent" }, 1);
                        if want.as_ref().is_some_and(|w| w.nth > 0) {
                            case.count("found_later_entries", 1);
                        }
                        let is = got.as_ref().map(|g| (g.key.clone(), g.difficulty_factor, g.duration));
                        let should = want.as_ref().map(|w| (w.key.clone(), w.difficulty, w.duration));
                        case.check(is == should, if is.is_none() { "lost" } else { "wrong-entry" }, || {
                            format!("{}ms: looking up a challenge gave {is:?}, stored last was {should:?} (until {:?})", clock.ms(), want.as_ref().map(|w| w.end))
                        });
                    }
                    Sent::Validated(r, want) => {
                        let got = case.must(case.must(hold(r).await, "VerifyCaptchaResult"), "VerifyCaptchaResult");
                        case.seen(("validate", want, (clock.ms() / 250).min(400), got));
                        case.count(if want { "found" } else { "absent" }, 1);
                        case.check(got == want, if want { "lost" } else { "wrong-entry" }, || format!("{}ms: validated {got}, not {want}", clock.ms()));
                    }
                    Sent::Deleted => {}
                }
            }
            if case.failed() {
                return;
            }
        }
        // nobody touched these
        for i in 0..filler {
            let (a, b) = (
                hold(case.ask_rx(&cache, RetrivePoW(VerifyCaptchaResult { token: format!("filler{i}"), key: "f".into() }), "RetrivePoW")).await,
                hold(case.ask_rx(&cache, VerifyCaptchaResult { token: format!("filler{i}"), key: format!("f{i}") }, "VerifyCaptchaResult")).await,
            );
            if clock.ms() > 99_000_000 {
                break;
            }
            let (a, b) = (case.must(a, "RetrivePoW"), case.must(b, "VerifyCaptchaResult"));
            let ok = b && a.as_ref().is_some_and(|a| a.key == "f" && a.difficulty_factor == i as u32 + 1 && a.duration == 100_000);
            case.count("bystanders", 1);
            if !case.check(ok, "lost", || format!("entries {i} of {filler} that nobody touched: {a:?}, {b}")) {
                return;
            }
        }
        case.sample_events(10);
    });
}

/// Several threads speak to one cache: each has names of its own, where everything is
/// determined, and shares others, where each stored entry is found at most once.
fn together(case: &Case) {
    let mut rng = case.rng(1);
    let threads = rng.range(2, 6) as usize;
    let (tx, rx) = std::sync::mpsc::channel();
    let stop = Arc::new(AtomicBool::new(false));
    let host = {
        let stop = stop.clone();
        std::thread::spawn(move || {
            actix_rt::System::new().block_on(async move {
                let cache = HashCache::default().start();
                tx.send(cache.clone()).unwrap();
                while !stop.load(SeqCst) {
                    actix_rt::time::sleep(Duration::from_millis(2)).await;
                }
            })
        })
    };
    let cache = rx.recv().unwrap();
    let found: Mutex<HashMap<u32, u32>> = Mutex::default();
    let stored: Mutex<HashSet<u32>> = Mutex::default();
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    crate::system::together(threads, |me| {
        let mut rng = Rng::new(seeds[me]);
        let mut own: HashMap<String, (u32, u64)> = HashMap::new();
        let wait = |f: std::pin::Pin<Box<dyn std::future::Future<Output = CaptchaResult<Option<CachedPoWConfig>>> + Send>>| {
            block_on(f, Duration::from_secs(60)).unwrap_or_else(|| case.abort("not-answered", "a request to the cache"))
        };
        for step in 0..120u32 {
            if case.failed() {
                return;
            }
            case.tick();
            let id = me as u32 * 1000 + step + 1;
            let shared = rng.chance(1, 2);
            let text = if shared { format!("shared{}", rng.below(3)) } else { format!("own{me}-{}", rng.below(4)) };
            let c = cache.clone();
            match rng.below(5) {
                0..=2 => {
                    let duration = rng.range(600, 4000);
                    stored.lock().unwrap().insert(id);
                    let m = CachePoW { string: text.clone(), difficulty_factor: id, duration, key: format!("k{me}") };
                    let r = wait(Box::pin(async move { c.send(m).await?.await??; Ok(None) }));
                    case.check(r.is_ok(), "not-stored", || format!("{r:?}"));
                    if !shared {
                        own.insert(text, (id, duration));
                    }
                }
                3 => {
                    let m = RetrivePoW(VerifyCaptchaResult { token: text.clone(), key: format!("k{me}") });
                    let r = wait(Box::pin(async move { c.send(m).await?.await? }));
                    let Ok(r) = r else {
                        case.fail("lookup-failed", format!("{r:?}"));
                        return;
                    };
                    if shared {
                        if let Some(r) = r {
                            *found.lock().unwrap().entry(r.difficulty_factor).or_insert(0) += 1;
                        }
                    } else {
                        let want = own.remove(&text);
                        let is = r.map(|r| (r.difficulty_factor, r.duration, r.key));
                        case.check(is == want.map(|w| (w.0, w.1, format!("k{me}"))), "wrong-entry", || format!("thread {me}, {text}: {is:?}, stored last was {want:?}"));
                        case.count("found_among_threads", 1);
                    }
                }
                _ => {
                    own.remove(&text);
                    let r = wait(Box::pin(async move { c.send(DeletePoW(text)).await??; Ok(None) }));
                    case.check(r.is_ok(), "not-deleted", || format!("{r:?}"));
                }
            }
        }
    });
    let (found, stored) = (found.into_inner().unwrap(), stored.into_inner().unwrap());
    case.check(found.values().all(|n| *n == 1), "found-twice", || format!("an entry was found more than once: {:?}", found.iter().filter(|x| *x.1 > 1).collect::<Vec<_>>()));
    case.check(found.keys().all(|k| stored.contains(k)), "wrong-entry", || "an entry that nobody stored".to_string());
    case.count("found_shared", found.len() as u64);
    case.seen((threads, found.len()));
    stop.store(true, SeqCst);
    drop(cache);
    let _ = host.join();
}

pub fn c27(ctx: &Arc<Ctx>) {
    ctx.rule("messages sent directly to the embedded cache, one by one and several at once, with names that repeat and resemble each other, on virtual time that stops just before and after the end of every entry ever stored; compared with a map whose entries end at an instant; plus several threads on one cache; instants within 4 ms of an end are not judged; distinct = distinct (request, entry, time, answer)");
    run_cases(ctx, "faithful", ctx.n(600, 40_000), 6, faithful);
    run_cases(ctx, "together", ctx.n(40, 600), 2, together);
    ctx.require("found", 2000);
    ctx.require("found_later_entries", 300);
    ctx.require("replaced", 300);
    ctx.require("absent", 2000);
    ctx.require("bystanders", 1000);
    ctx.require("found_shared", 50);
}
