//! C28: systems that share a cache and a registry act as one
use crate::model::*;
use crate::redisfake::*;
use crate::system::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::{AddSite, GetInternalData};
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::pow::Work;
use libmcaptcha::system::{System, SystemBuilder};
use mcaptcha_pow_sha256::ConfigBuilder;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Sys = System<HashCache, Master>;
const NEVER: u64 = 20_000_000;
const MAX: Duration = Duration::from_secs(60);

fn at_once<T>(case: &Case, what: &str, f: impl std::future::Future<Output = T>) -> T {
    block_on(f, MAX).unwrap_or_else(|| case.abort("not-answered", what))
}
fn late(e: &CaptchaError) -> bool {
    matches!(e, CaptchaError::RedisError(r) if r.is_timeout())
}

/// Threads present the same proofs and tokens to several systems at once.
fn races(case: &Case) {
    let mut rng = case.rng(1);
    let mut r = Real::new(case, &mut rng, 1, 50);
    r.add(case, "s", &[(3, 2), (9, 20)], 3600);
    r.add(case, "other", &[(1000, 5)], 3600);
    let salt = r.salt.clone();
    let n = rng.range(2, 4) as usize;
    let mut systems: Vec<Option<Arc<Sys>>> = vec![r.sys.take()];
    while systems.len() < n {
        systems.push(Some(Arc::new(build(&r.m, &r.cache, &salt, rng.range(1, 3) as usize, rng.range(8, 40) as usize))));
    }
    let foreign_salt = rng.near_miss(&salt);
    let foreign = build(&r.m, &r.cache, &foreign_salt, 1, 40);
    let mut visitors = 0u32;
    for round in 0..rng.range(3, 8) {
        // challenges, each from any system
        let k = rng.range(1, 4) as usize;
        let threads = rng.range(2, 5) as usize;
        let mut works: Vec<(Work, u32, bool)> = vec![];
        for _ in 0..k {
            let site = *rng.pick(&["s", "s", "other"]);
            let live: Vec<_> = systems.iter().flatten().collect();
            let from = *rng.pick(&live);
            let ch = match at_once(case, "get_pow", from.get_pow(site.into())) {
                Ok(Some(c)) => c,
                x => case.abort("no-challenge", format!("get_pow: {x:?}")),
            };
            visitors += (site == "s") as u32;
            let right = rng.chance(3, 4);
            let kind = if right { Proof::Right } else { *rng.pick(&[Proof::TooEasy, Proof::Inflated, Proof::OffByOne, Proof::Garbage]) };
            let Some(w) = proof(&mut rng, kind, &salt, &ch.string, ch.difficulty_factor, site) else { continue };
            works.push((w, ch.difficulty_factor, right));
        }
        // sometimes one goes while the others are at work
        let leaving = (systems.iter().flatten().count() > 1 && rng.chance(1, 3)).then(|| {
            let live: Vec<usize> = (0..systems.len()).filter(|i| systems[*i].is_some()).collect();
            *rng.pick(&live)
        });
        let leaver: Mutex<Option<Arc<Sys>>> = Mutex::new(leaving.and_then(|l| systems[l].take()));
        let live: Vec<Arc<Sys>> = systems.iter().flatten().cloned().collect();
        let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
        let granted: Mutex<Vec<(usize, String, u32)>> = Mutex::default();
        let refused: Mutex<Vec<(usize, CaptchaError)>> = Mutex::default();
        together(threads + 1, |t| {
            if t == threads {
                let gone = leaver.lock().unwrap().take();
                if gone.is_some() {
                    drop(gone);
                    case.count("systems_dropped", 1);
                }
                return;
            }
            let mut rng = Rng::new(seeds[t]);
            let mut order: Vec<usize> = (0..works.len()).collect();
            rng.shuffle(&mut order);
            for i in order {
                let sys = rng.pick(&live);
                spin(rng.below(30));
                let got = at_once(case, "verify_pow", sys.verify_pow(works[i].0.clone(), format!("{t}.{}", rng.below(3))));
                case.tick();
                match got {
                    Ok((token, d)) => granted.lock().unwrap().push((i, token, d)),
                    Err(e) => refused.lock().unwrap().push((i, e)),
                }
            }
        });
        let granted = granted.into_inner().unwrap();
        let refused = refused.into_inner().unwrap();
        for (i, (w, d, right)) in works.iter().enumerate() {
            let tokens: Vec<_> = granted.iter().filter(|g| g.0 == i).collect();
            let errors: Vec<_> = refused.iter().filter(|g| g.0 == i).map(|g| &g.1).collect();
            case.ev(format!("round {round}: {} to {threads} threads and {} systems: {} tokens, {errors:?}", w.string, live.len(), tokens.len()));
            case.check(tokens.len() == *right as usize, if tokens.len() > 1 { "redeemed-twice" } else if *right { "refused" } else { "accepted" }, || {
                format!("a {} proof presented to {} systems by {threads} threads earned {} tokens; the others were told {errors:?}", if *right { "right" } else { "wrong" }, live.len(), tokens.len())
            });
            case.check(tokens.iter().all(|t| t.2 == *d), "difficulty", || format!("issued at {d}, redeemed at {tokens:?}"));
            case.check(!*right || errors.iter().all(|e| **e == CaptchaError::StringNotFound), "cause", || format!("the losers of a race were told {errors:?}"));
            case.count("races_decided", 1);
            case.seen((live.len(), threads, right, tokens.len()));
        }
        if case.failed() {
            return;
        }
        // each token is presented to all of them
        let yes: Mutex<Vec<usize>> = Mutex::default();
        together(threads, |t| {
            let mut rng = Rng::new(seeds[t] ^ 1);
            for (k, (i, token, _)) in granted.iter().enumerate() {
                let key = works[*i].0.key.clone();
                let sys = rng.pick(&live);
                let v = at_once(case, "validation", sys.validate_verification_tokens(VerifyCaptchaResult { token: token.clone(), key }));
                case.tick();
                match v {
                    Ok(true) => yes.lock().unwrap().push(k),
                    Ok(false) => {}
                    v => case.fail("validation", format!("{v:?}")),
                }
            }
        });
        let yes = yes.into_inner().unwrap();
        for k in 0..granted.len() {
            let n = yes.iter().filter(|y| **y == k).count();
            case.check(n == 1, if n == 0 { "not-validated" } else { "validated-twice" }, || format!("a token presented to {} systems by {threads} threads validated {n} times", live.len()));
            case.count("tokens_decided", 1);
        }
        // another salt: another service, for proofs
        let ch = match at_once(case, "get_pow", live[0].get_pow("s".into())) {
            Ok(Some(c)) => c,
            x => case.abort("no-challenge", format!("get_pow: {x:?}")),
        };
        visitors += 1;
        let own = rng.chance(1, 2);
        let (mine, theirs) = if own { (&foreign_salt, &salt) } else { (&salt, &foreign_salt) };
        let w = proof(&mut rng, Proof::Right, mine, &ch.string, ch.difficulty_factor, "s").unwrap();
        let honest = score(theirs, &ch.string, w.nonce).to_string() != w.result;
        let v = at_once(case, "verify_pow", foreign.verify_pow(w, "f".into()));
        case.check(!honest || v.is_ok() == own, "salt", || format!("a proof under {} salt: {v:?}", if own { "its own" } else { "another" }));
        if systems.iter().flatten().count() < 2 || rng.chance(1, 3) {
            systems.push(Some(Arc::new(build(&r.m, &r.cache, &salt, rng.range(1, 3) as usize, rng.range(8, 40) as usize))));
        }
    }
    // all of them counted into the same registry
    let snap = at_once(case, "GetInternalData", async { r.m.send(GetInternalData).await.unwrap().await.unwrap() });
    let v = snap.ok().and_then(|s| s.get("s").map(|x| x.get_visitors()));
    case.check(v == Some(visitors), "count", || format!("{visitors} visitors came through {} systems, the registry says {v:?}", systems.len()));
    case.sample_events(6);
    drop(foreign);
    drop(systems);
}

/// One system's workers are busy and its queue is full; the other does not notice, nor when the
/// first one goes.
fn neighbours(case: &Case, mb: usize) -> bool {
    let mut rng = case.rng(0);
    real_time(async {
        let m = Master::new(NEVER).start();
        let cache = HashCache::default().start();
        let salt = rng.alnum(26);
        let limit = *rng.pick(&[1usize, 1, 2, 5, 30]);
        let workers = rng.range(1, 2) as usize;
        let first = rng.chance(1, 2);
        let idle = first.then(|| build(&m, &cache, &salt, rng.range(1, 2) as usize, limit));
        let others = threads_now();
        let busy: Rc<Sys> = Rc::new(build(&m, &cache, &salt, workers, limit));
        let mine = threads_now();
        let idle = idle.unwrap_or_else(|| build(&m, &cache, &salt, rng.range(1, 2) as usize, limit));
        let r = case.ask_rx(&m, AddSite { id: "s".into(), mcaptcha: build_mcaptcha(&[(u32::MAX, 30)], 1000) }, "AddSite").await;
        case.must(r, "AddSite");
        let out: Rc<RefCell<Vec<(usize, CaptchaResult<(String, u32)>)>>> = Rc::default();
        let submit = |k: usize, w: Work, ip: String| {
            let (sys, out, case) = (busy.clone(), out.clone(), case.clone());
            actix_rt::spawn(async move {
                let r = sys.verify_pow(w, ip).await;
                case.tick();
                out.borrow_mut().push((k, r));
            })
        };
        let mut tasks = vec![];
        let mut gates: Vec<Hold> = vec![];
        const LONG: usize = 1_000_000;
        // only the busy system's threads are held
        let mut not_mine: Vec<u64> = threads_now().into_iter().filter(|t| !mine.contains(t)).collect();
        not_mine.extend(others);
        for k in 0..workers {
            let mut s = "x".repeat(mb << 20);
            s.push_str(&rng.alnum(32));
            let r = case.ask_rx(&cache, CachePoW { string: s.clone(), difficulty_factor: 1, duration: 3600, key: "s".into() }, "CachePoW").await;
            case.must(r, "CachePoW");
            tasks.push(submit(LONG + k, Work { string: s, result: u128::MAX.to_string(), nonce: 0, key: "s".into() }, format!("long{k}")));
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            let Some(g) = hold_computing(&not_mine, &gates) else { return false };
            gates.push(g);
        }
        let mut works = vec![];
        for k in 0..limit + 3 {
            let ch = case.must(idle.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
            let w = proof(&mut rng, Proof::Right, &salt, &ch.string, ch.difficulty_factor, "s").unwrap();
            works.push(w.clone());
            tasks.push(submit(k, w, format!("a{k}")));
            tokio::task::yield_now().await;
        }
        actix_rt::time::sleep(Duration::from_millis(10)).await;
        let full = out.borrow().iter().filter(|x| x.1 == Err(CaptchaError::QueueFull)).count();
        let over = |out: &Vec<(usize, CaptchaResult<_>)>| out.iter().any(|x| x.0 >= LONG);
        case.ev(format!("a system with {workers} busy workers, queue length {limit}: {full} turned away"));
        // the same addresses, at the other one
        let rounds = limit + rng.range(2, 9) as usize;
        for k in 0..rounds {
            let ch = case.must(idle.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
            let w = proof(&mut rng, Proof::Right, &salt, &ch.string, ch.difficulty_factor, "s").unwrap();
            let v = tokio::time::timeout(MAX, idle.verify_pow(w, format!("a{k}"))).await;
            case.tick();
            if over(&out.borrow()) {
                return false;
            }
            let Ok(v) = v else {
                case.fail("not-answered", format!("a submission to a system with idle workers, while another system is busy ({workers} workers, queue {limit})"));
                break;
            };
            case.check(v.is_ok(), "disturbed", || format!("a right proof at a system with idle workers while another one is busy and full: {v:?}"));
            case.count("served_next_to_a_full_one", v.is_ok() as u64);
            if let Ok((t, _)) = v {
                let msg = VerifyCaptchaResult { token: t, key: "s".into() };
                let v = if rng.chance(1, 2) { busy.validate_verification_tokens(msg).await } else { idle.validate_verification_tokens(msg).await };
                case.check(v == Ok(true), "disturbed", || format!("its token: {v:?}"));
            }
            if case.failed() {
                break;
            }
        }
        case.seen((workers, limit, full, rounds, first));
        drop(gates);
        let n = tasks.len();
        for t in tasks {
            if tokio::time::timeout(MAX, t).await.is_err() {
                case.abort("not-answered", "a submission to the busy system");
            }
        }
        let ok = out.borrow().iter().filter(|x| x.1.is_ok()).count();
        case.check(out.borrow().len() == n && ok + full == limit + 3, "verdict", || format!("{} right proofs, {full} turned away, {ok} accepted: {:?}", limit + 3, out.borrow().iter().filter(|x| x.0 < LONG).collect::<Vec<_>>()));
        // the busy one goes
        drop(out);
        case.check(Rc::strong_count(&busy) == 1, "harness", || "somebody still holds the system".to_string());
        drop(busy);
        for k in 0..3 {
            let ch = case.must(idle.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
            let w = proof(&mut rng, Proof::Right, &salt, &ch.string, ch.difficulty_factor, "s").unwrap();
            match tokio::time::timeout(MAX, idle.verify_pow(w, format!("a{k}"))).await {
                Ok(v) => case.check(v.is_ok(), "disturbed", || format!("after another system was dropped: {v:?}")),
                Err(_) => case.check(false, "not-answered", || "a submission after another system was dropped".to_string()),
            };
            case.count("served_after_a_drop", 1);
        }
        case.sample_events(3);
        true
    })
}

/// Systems with Redis connections of their own, on one server.
fn on_redis(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let salt = rng.alnum(26);
        let n = rng.range(2, 3) as usize;
        let mut systems: Vec<System<RedisCache, RMaster>> = vec![];
        let give_up = |what: &str, e: &CaptchaError| -> ! {
            if late(e) {
                case.count("undecided_slow_machine", 1);
                std::panic::resume_unwind(Box::new(Abort))
            }
            case.abort("request-failed", format!("{what}: {e:?}"))
        };
        let mut new = Vec::new();
        for _ in 0..n + 2 {
            let c = match RedisCache::new(fake.config(false)).await {
                Ok(c) => c.start(),
                Err(e) => give_up("connecting", &e),
            };
            let m = match RMaster::new(fake.config(false)).await {
                Ok(m) => m.start(),
                Err(e) => give_up("connecting", &e),
            };
            let pow = ConfigBuilder::default().salt(salt.clone()).build().unwrap();
            new.push(SystemBuilder::default().master(m).cache(c).pow(pow).runners(rng.range(1, 2) as usize).queue_length(20).build());
        }
        while systems.len() < n {
            systems.push(new.pop().unwrap());
        }
        let sites: Vec<String> = {
            let a = rng.name();
            vec![rng.near_miss(&a), a]
        };
        for s in &sites {
            let m = AddSite { id: s.clone(), mcaptcha: build_mcaptcha(&[(2, 3), (6, 30)], 1000) };
            match rng.pick(&systems).master.send(m).await.unwrap().await.unwrap() {
                Ok(()) => {}
                Err(e) => give_up("AddSite", &e),
            }
        }
        let mut load: Vec<u32> = vec![0; sites.len()];
        for _ in 0..rng.range(5, 12) {
            if systems.len() > 1 && rng.chance(1, 6) {
                let k = rng.below(systems.len() as u64) as usize;
                drop(systems.swap_remove(k));
                if let Some(s) = new.pop() {
                    systems.push(s);
                }
                case.count("systems_dropped", 1);
            }
            let i = rng.below(sites.len() as u64) as usize;
            let (a, b, c) = (rng.pick(&systems), rng.pick(&systems), rng.pick(&systems));
            let ch = match a.get_pow(sites[i].clone()).await {
                Ok(Some(c)) => c,
                Ok(None) => case.abort("no-challenge", "get_pow of a registered site: no such site"),
                Err(e) => give_up("get_pow", &e),
            };
            load[i] += 1;
            let right = rng.chance(4, 5);
            let kind = if right { Proof::Right } else { *rng.pick(&[Proof::Inflated, Proof::Garbage, Proof::OffByOne]) };
            let Some(w) = proof(&mut rng, kind, &salt, &ch.string, ch.difficulty_factor, &sites[i]) else { continue };
            // at one, or at all at once
            let many = rng.chance(1, 3);
            let verdicts = if many {
                let (w, v) = (&w, Rc::new(RefCell::new(vec![])));
                let mut futs: Vec<_> = systems
                    .iter()
                    .enumerate()
                    .map(|(k, s)| {
                        let v = v.clone();
                        Box::pin(async move {
                            let r = s.verify_pow(w.clone(), format!("ip{k}")).await;
                            v.borrow_mut().push(r);
                        })
                    })
                    .collect();
                std::future::poll_fn(|cx| {
                    futs.retain_mut(|f| std::future::Future::poll(f.as_mut(), cx).is_pending());
                    if futs.is_empty() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                })
                .await;
                drop(futs);
                Rc::try_unwrap(v).unwrap().into_inner()
            } else {
                vec![b.verify_pow(w.clone(), "ip".into()).await]
            };
            if let Some(Err(e)) = verdicts.iter().find(|v| matches!(v, Err(e) if late(e))) {
                give_up("verify_pow", e);
            }
            let tokens: Vec<_> = verdicts.iter().filter_map(|v| v.as_ref().ok()).collect();
            case.ev(format!("{:?} {} at {} of {} systems: {verdicts:?}", sites[i], if right { "right" } else { "wrong" }, verdicts.len(), systems.len()));
            case.check(tokens.len() == right as usize, if tokens.len() > 1 { "redeemed-twice" } else if right { "refused" } else { "accepted" }, || {
                format!("a {} proof presented to {} systems on one server: {verdicts:?}", if right { "right" } else { "wrong" }, verdicts.len())
            });
            case.check(tokens.iter().all(|t| t.1 == ch.difficulty_factor), "difficulty", || format!("{tokens:?}, issued at {}", ch.difficulty_factor));
            case.seen((systems.len(), verdicts.len(), right, load[i]));
            case.count("redis_journeys", 1);
            if let Some((token, _)) = tokens.first() {
                let msg = |k: usize| VerifyCaptchaResult { token: token.clone(), key: sites[k].clone() };
                let mut said = vec![];
                for s in [c, a, b] {
                    match s.validate_verification_tokens(msg(i)).await {
                        Ok(v) => said.push(v),
                        Err(e) => give_up("validation", &e),
                    }
                }
                case.check(said == [true, false, false], "validation", || format!("a token presented to three systems one after the other: {said:?}"));
            }
            if case.failed() {
                return;
            }
        }
        case.sample_events(4);
    })
}

pub fn c28(ctx: &Arc<Ctx>) {
    ctx.rule("the histories of C01-C05 on virtual time with every request given to one of two to five systems on one cache and one registry, some dropped and others built meanwhile; races of threads over the same proofs and tokens at several systems; a system with idle workers next to one whose held workers and full queue turn everybody away; systems with connections of their own on one Redis server; distinct = distinct situations (systems, threads, proof, verdict)");
    let w = Weights { get: 6, submit: 9, validate: 6, time: 4, load: 2, wrong: 2, family: true };
    run_cases(ctx, "family", ctx.n(900, 20_000), 4, |case| world(case, &w));
    run_cases(ctx, "races", ctx.n(60, 800), 3, races);
    run_cases(ctx, "on-redis", ctx.n(60, 600), 4, on_redis);
    run_cases(ctx, "neighbours", ctx.n(12, 80), 1, |case| {
        for mb in [20, 60, 160] {
            if neighbours(case, mb) {
                case.count("neighbours_decided", 1);
                return;
            }
            if case.failed() {
                return;
            }
        }
        case.count("undecided_slow_machine", 1);
    });
    ctx.require("redeemed_elsewhere", 300);
    ctx.require("systems_dropped", 100);
    ctx.require("races_decided", 200);
    ctx.require("tokens_decided", 150);
    ctx.require("redis_journeys", 100);
    ctx.require("served_next_to_a_full_one", 20);
}
