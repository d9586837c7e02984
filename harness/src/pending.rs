//! C25: a submission that waits for its verdict holds up nobody else
use crate::model::*;
use crate::system::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::{AddSite, AddVisitor, GetInternalData, RemoveCaptcha, Rename};
use libmcaptcha::pow::Work;
use libmcaptcha::system::System;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::time::{Duration, Instant};

type Sys = System<HashCache, Master>;
const NEVER: u64 = 20_000_000;
/// a wrong proof claims a result good enough for any of them
const DIFFICULTIES: [u32; 9] = [1, 2, 7, 50, 1000, 5000, 50_000, 5_000_000, u32::MAX];

/// processor time of the calling thread in ns
fn cpu() -> u64 {
    std::fs::read_to_string("/proc/thread-self/schedstat")
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse().ok()))
        .unwrap_or(0)
}
/// a string whose check takes a worker a while: about 20 ms per MB
fn long_string(rng: &mut Rng, mb: usize) -> String {
    let mut s = "x".repeat(mb << 20);
    s.push_str(&rng.alnum(32));
    s
}
fn work(string: String, key: &str) -> Work {
    Work { string, result: u128::MAX.to_string(), nonce: 0, key: key.into() }
}
/// what kept somebody waiting
struct Held {
    sig: &'static str,
    what: String,
}
/// `Ok(None)`: the pending check was over too soon to tell anything
type Seen = Result<Option<u64>, Held>;

/// Everything on one thread. While the workers are busy with long checks, everything that
/// needs no worker must go on at once; `mb` is the size of the long checks.
fn one_thread(case: &Case, seed: u64, mb: usize) -> Seen {
    let mut rng = Rng::new(seed);
    real_time(async {
        let m = Master::new(NEVER).start();
        let cache = HashCache::default().start();
        let workers = *rng.pick(&[1usize, 1, 2, 3]);
        let salt = rng.alnum(26);
        let others = threads_now();
        let sys: Rc<Sys> = Rc::new(build(&m, &cache, &salt, workers, 1000));
        // sometimes one worker stays free
        let spare = workers > 1 && rng.chance(2, 3);
        let busy = if spare { workers - 1 } else { workers };
        let mut count = 0u32;
        for (n, d) in [("s", 1000u64), ("short", 1)] {
            let mc = build_mcaptcha(&[(u32::MAX, 3)], d);
            let r = case.ask_rx(&m, AddSite { id: n.into(), mcaptcha: mc }, "AddSite").await;
            case.must(r, "AddSite");
        }
        let answered: Rc<RefCell<Vec<(bool, CaptchaResult<(String, u32)>)>>> = Rc::default();
        let submit = |w: Work, ip: String, long: bool| {
            let (sys, answered, case) = (sys.clone(), answered.clone(), case.clone());
            actix_rt::spawn(async move {
                let r = sys.verify_pow(w, ip).await;
                case.tick();
                answered.borrow_mut().push((long, r));
            })
        };
        // tokens to validate and proofs to submit later on
        let mut works = vec![];
        let mut tokens = vec![];
        for k in 0..12 {
            let ch = case.must(sys.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
            count += 1;
            let w = proof(&mut rng, Proof::Right, &salt, &ch.string, ch.difficulty_factor, "s").unwrap();
            if k < 6 {
                tokens.push(case.must(sys.verify_pow(w, "early".into()).await, "verify_pow").0);
            } else {
                works.push(w);
            }
        }
        for (i, t) in ["short", "never"].iter().enumerate() {
            let r = case.ask_rx(&cache, CacheResult { token: format!("t{t}"), key: "short".into(), duration: [1, 1000][i] }, "CacheResult").await;
            case.must(r, "CacheResult");
        }
        let mut tasks = vec![];
        let mut gates: Vec<Hold> = vec![];
        let pending = |a: &Vec<(bool, CaptchaResult<_>)>| !a.iter().any(|x| x.0);
        let mut addresses = vec![];
        for k in 0..busy {
            let s = long_string(&mut rng, mb);
            let difficulty_factor = *rng.pick(&DIFFICULTIES);
            let r = case.ask_rx(&cache, CachePoW { string: s.clone(), difficulty_factor, duration: 3600, key: "s".into() }, "CachePoW").await;
            case.must(r, "CachePoW");
            addresses.push(format!("long{k}"));
            let (c, t) = (cpu(), Instant::now());
            tasks.push(submit(work(s, "s"), format!("long{k}"), true));
            // once a worker is at it it is held
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            let (c, t) = (cpu() - c, t.elapsed());
            if !pending(&answered.borrow()) && t > Duration::from_millis(50) && c as u128 * 2 > t.as_nanos() {
                return Err(Held { sig: "held-up", what: format!("to submit a proof of {mb} MB (difficulty {difficulty_factor}) kept the thread at work for {t:?}, {} us of them on the processor", c / 1000) });
            }
            let Some(g) = hold_computing(&others, &gates) else { return Ok(None) };
            gates.push(g);
        }
        // others wait behind them
        let behind = if spare { 0 } else { *rng.pick(&[0usize, 1, 5, 64, 300]) };
        let mut extra = vec![];
        for k in 0..behind {
            // unreadable proofs are quickly refused once it is their turn
            let s = rng.alnum(32);
            let r = case.ask_rx(&cache, CachePoW { string: s.clone(), difficulty_factor: *rng.pick(&DIFFICULTIES), duration: 3600, key: "s".into() }, "CachePoW").await;
            case.must(r, "CachePoW");
            let ip = format!("behind{}", k % 50);
            addresses.push(ip.clone());
            extra.push(submit(Work { string: s, result: "0".into(), nonce: 1, key: "s".into() }, ip, false));
        }
        case.ev(format!("{workers} workers, {busy} of them with a check of {mb} MB, {behind} more submissions waiting, all on one thread"));
        let held = |case: &Case, done: u64, what: &str| -> Seen {
            case.ev(format!("{what}: only after a long check was over ({done} requests were answered before)"));
            Err(Held { sig: "held-up", what: format!("{what} was answered only after a pending submission had its verdict ({done} other requests before it; {workers} workers, {busy} busy, {behind} waiting)") })
        };
        let started = Instant::now();
        let mut other: Option<Sys> = None;
        let mut done = 0u64;
        let rounds = rng.range(15, 40);
        for _ in 0..rounds {
            let op = rng.below(12);
            // anybody, often somebody who waits already
            let ip = if rng.chance(1, 2) { rng.pick(&addresses).clone() } else { format!("10.0.0.{}", rng.below(9)) };
            let what = match op {
                0 | 1 => {
                    let r = sys.get_pow("s".into()).await;
                    count += 1;
                    case.check(matches!(r, Ok(Some(_))), "no-challenge", || format!("get_pow while a submission is pending: {r:?}"));
                    "a request for a challenge"
                }
                2 => {
                    let r = sys.get_pow("nobody".into()).await;
                    case.check(matches!(r, Ok(None)), "unknown-answered", || format!("get_pow of an unknown site: {r:?}"));
                    "a request for a challenge of an unknown site"
                }
                3 | 4 => {
                    let (t, want) = match tokens.pop() {
                        Some(t) => (t, true),
                        None => (rng.alnum(32), false),
                    };
                    let r = sys.validate_verification_tokens(VerifyCaptchaResult { token: t, key: "s".into() }).await;
                    case.check(r == Ok(want), "validation", || format!("validation while a submission is pending: {r:?}, not {want}"));
                    "a validation"
                }
                5 => {
                    let r = case.ask_rx(&m, AddVisitor("s".into()), "AddVisitor").await;
                    case.check(matches!(r, Ok(Some(_))), "visitor", || format!("{r:?}"));
                    count += 1;
                    "a visitor"
                }
                6 => {
                    let n = format!("new{done}");
                    let mc = build_mcaptcha(&[(5, 3)], 30);
                    let r = case.ask_rx(&m, AddSite { id: n.clone(), mcaptcha: mc }, "AddSite").await;
                    case.must(r, "AddSite");
                    let r = case.ask_rx(&m, Rename { name: n.clone(), rename_to: format!("{n}-") }, "Rename").await;
                    case.must(r, "Rename");
                    let r = case.ask_rx(&m, RemoveCaptcha(format!("{n}-")), "RemoveCaptcha").await;
                    case.must(r, "RemoveCaptcha");
                    "adding, renaming and removing a site"
                }
                7 => {
                    // no such challenge: needs no worker
                    let r = sys.verify_pow(work(rng.alnum(32), "s"), ip).await;
                    case.check(r.is_err(), "accepted", || format!("a submission of an unknown challenge: {r:?}"));
                    "the refusal of an unknown challenge"
                }
                8 if spare && !works.is_empty() => {
                    let r = sys.verify_pow(works.pop().unwrap(), ip).await;
                    case.check(r.is_ok(), "refused", || format!("a correct proof, checked by the free worker: {r:?}"));
                    "a submission with a free worker"
                }
                10 => {
                    // another system, with workers of its own, on the same thread
                    let o = other.get_or_insert_with(|| build(&m, &cache, &salt, 1, 1000));
                    let ch = case.must(o.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
                    count += 1;
                    let w = proof(&mut rng, Proof::Right, &salt, &ch.string, ch.difficulty_factor, "s").unwrap();
                    let r = o.verify_pow(w, ip).await;
                    case.check(r.is_ok(), "refused", || format!("a correct proof, checked by another system: {r:?}"));
                    case.count("other_systems", 1);
                    "a submission to another system"
                }
                _ => {
                    actix_rt::time::sleep(Duration::from_millis(rng.below(3))).await;
                    "a timer"
                }
            };
            case.tick();
            if !pending(&answered.borrow()) {
                return held(case, done, what);
            }
            if case.failed() {
                return Ok(None);
            }
            done += 1;
        }
        let s = case.must(case.ask_rx(&m, GetInternalData, "GetInternalData").await, "GetInternalData");
        let v = s.get("s").map(|x| x.get_visitors());
        case.check(v == Some(count), "count", || format!("{count} visitors came, the registry says {v:?}"));
        if !pending(&answered.borrow()) {
            return held(case, done, "a snapshot");
        }
        case.ev(format!("{done} requests answered in {:?} while {busy} checks were under way", started.elapsed()));
        // nobody does anything: the waiting itself costs nothing
        let quiet = Duration::from_millis(120);
        let (c, t) = (cpu(), Instant::now());
        actix_rt::time::sleep(quiet).await;
        let (c, t) = (cpu() - c, t.elapsed());
        if pending(&answered.borrow()) {
            let share = c as f64 / t.as_nanos() as f64;
            case.ev(format!("waiting took {:.1} % of a processor", share * 100.0));
            case.count("quiet_waits", 1);
            if share > 0.5 {
                return Err(Held { sig: "busy-waiting", what: format!("a thread on which {} submissions wait and nothing else happens uses {:.0} % of a processor", busy + behind, share * 100.0) });
            }
        }
        // with enough time left: what expires meanwhile has expired
        if case.index % 6 == 5 {
            let rest = Duration::from_millis(1400).saturating_sub(started.elapsed());
            actix_rt::time::sleep(rest).await;
            let a = sys.validate_verification_tokens(VerifyCaptchaResult { token: "tshort".into(), key: "short".into() }).await;
            let b = sys.validate_verification_tokens(VerifyCaptchaResult { token: "tnever".into(), key: "short".into() }).await;
            if pending(&answered.borrow()) {
                case.check(a == Ok(false) && b == Ok(true), "expiry", || format!("a token of 1 s after 1.4 s: {a:?}, one of 1000 s: {b:?}"));
                case.count("expiries_meanwhile", 1);
            }
        }
        // in the end everybody has their verdict
        let rescued = started.elapsed();
        let was = pending(&answered.borrow());
        drop(gates);
        let all = async {
            for t in tasks.into_iter().chain(extra) {
                let _ = t.await;
            }
        };
        if tokio::time::timeout(MAX, all).await.is_err() {
            case.abort("not-answered", format!("only {} of {} submissions were answered", answered.borrow().len(), busy + behind));
        }
        let a = answered.borrow();
        case.check(a.len() == busy + behind && a.iter().all(|x| x.1.is_err()), "verdict", || {
            format!("{} wrong proofs, answers {:?}", busy + behind, a.iter().map(|x| x.1.is_ok()).collect::<Vec<_>>())
        });
        case.seen((workers, busy, behind, done));
        case.ev(format!("let go after {rescued:?}"));
        Ok(was.then_some(done))
    })
}

/// The future of a pending submission, polled by hand: each poll returns at once, and nothing
/// wakes it before there is something to do.
fn by_hand(case: &Case, seed: u64, mb: usize) -> Seen {
    let mut rng = Rng::new(seed);
    let others = threads_now();
    let r = Real::new(case, &mut rng, 1, 100);
    r.add(case, "s", &[(u32::MAX, 3)], 3600);
    let n = rng.range(1, 6) as usize;
    let mut works = vec![];
    for k in 0..n {
        let s = if k == 0 { long_string(&mut rng, mb) } else { rng.alnum(32) };
        r.plant(case, &s, *rng.pick(&DIFFICULTIES), "s", 3600);
        works.push(work(s, "s"));
    }
    let sys = r.sys().clone();
    let mut futs: Vec<_> = works.into_iter().enumerate().map(|(k, w)| Some(Box::pin(sys.verify_pow(w, format!("ip{k}"))))).collect();
    let flags: Vec<Arc<WakeFlag>> = futs.iter().map(|_| Arc::new(WakeFlag(AtomicUsize::new(1)))).collect();
    let mut woken = vec![0u64; n];
    let mut polls = 0u64;
    let mut over = 0;
    let t0 = Instant::now();
    let mut quiet: Option<(Instant, Vec<u64>)> = None;
    let mut judged = false;
    let mut worst = Duration::ZERO;
    let mut gate = None;
    while over < n {
        if t0.elapsed() > MAX {
            case.abort("not-answered", format!("{over} of {n} submissions were answered"));
        }
        let mut any = false;
        for i in 0..n {
            if futs[i].is_none() || flags[i].0.swap(0, SeqCst) == 0 {
                continue;
            }
            any = true;
            woken[i] += 1;
            polls += 1;
            let w = std::task::Waker::from(flags[i].clone());
            let mut cx = std::task::Context::from_waker(&w);
            let t = Instant::now();
            let p = std::future::Future::poll(futs[i].as_mut().unwrap().as_mut(), &mut cx);
            if over == 0 {
                worst = worst.max(t.elapsed());
            }
            case.tick();
            if let std::task::Poll::Ready(v) = p {
                case.check(v.is_err(), "verdict", || format!("a wrong proof: {v:?}"));
                futs[i] = None;
                over += 1;
            }
        }
        if !any {
            std::thread::sleep(Duration::from_micros(50));
        }
        if over > 0 {
            continue;
        }
        if gate.is_none() && !any && !judged {
            // the actors' threads sleep by now
            gate = hold_computing(&others, &[]);
            if gate.is_none() {
                return Ok(None);
            }
        }
        // after the first 50 ms every one has been admitted; for 200 ms nothing may happen
        match &quiet {
            None if t0.elapsed() > Duration::from_millis(50) => quiet = Some((Instant::now(), woken.clone())),
            Some((t, before)) if !judged && t.elapsed() > Duration::from_millis(200) => {
                judged = true;
                gate = None;
                let more: u64 = woken.iter().zip(before).map(|(a, b)| a - b).sum();
                case.count("quiet_waits", 1);
                case.ev(format!("{n} pending submissions, woken {woken:?} times, {more} of them in 200 ms of waiting"));
                if more > 50 && over == 0 {
                    return Err(Held { sig: "busy-waiting", what: format!("{n} pending submissions were woken {more} times in 200 ms while nothing had happened") });
                }
            }
            _ => {}
        }
    }
    case.count("polls", polls);
    case.ev(format!("{n} submissions took {polls} polls, the longest {worst:?}, first verdict after {:?}", t0.elapsed()));
    case.seen((n, polls.min(200)));
    if worst > Duration::from_millis(300) && worst * 2 > t0.elapsed() {
        return Err(Held { sig: "held-up", what: format!("one poll of a pending submission took {worst:?} of the {:?} until the first verdict", t0.elapsed()) });
    }
    Ok(judged.then_some(polls))
}

/// A slow machine can make the long check the faster one: a finding must repeat with ever
/// longer checks.
fn patiently(case: &Case, first: usize, f: impl Fn(&Case, u64, usize) -> Seen) {
    let seed = case.rng(1).u64();
    let mut sizes = vec![first, 3 * first, 8 * first];
    let mut last = None;
    while !sizes.is_empty() {
        let mb = sizes.remove(0);
        match f(case, seed, mb) {
            Ok(Some(n)) => {
                case.count("answered_meanwhile", n);
                case.count("pending_situations", 1);
                case.sample_events(8);
                return;
            }
            Ok(None) => {
                if case.failed() {
                    return;
                }
            }
            Err(h) => {
                case.count("repeated_with_longer_checks", 1);
                last = Some(h);
            }
        }
    }
    match last {
        Some(h) => case.fail(h.sig, h.what),
        None => case.count("undecided_slow_machine", 1),
    }
}

pub fn c25(ctx: &Arc<Ctx>) {
    ctx.rule("workers that have begun to check a proof are held by the scheduler (lowest priority on a processor kept busy); meanwhile challenges, validations, registry requests, timers and submissions for free workers are served on the very same thread, and each must be answered before the pending submission is; processor time and wake-ups of the waiting are measured; distinct = distinct (workers, busy, waiting, requests answered)");
    // one at a time: their threads are told apart by when they appear
    run_cases(ctx, "by-hand", ctx.n(8, 40), 1, |case| patiently(case, 20, by_hand));
    run_cases(ctx, "one-thread", ctx.n(24, 150), 1, |case| patiently(case, 20, one_thread));
    ctx.require("pending_situations", 10);
    ctx.require("answered_meanwhile", 200);
    ctx.require("quiet_waits", 6);
}
