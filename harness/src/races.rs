//! C23: everything at once, extreme arguments; C24: what is over takes no memory.
//! (C23's workloads also run under the thread and address sanitizers, see sanitize.py)
use crate::model::*;
use crate::redisfake::Fake;
use crate::system::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::defense::{DefenseBuilder, Level, LevelBuilder};
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::counter;
use libmcaptcha::master::embedded::master::{CleanUp, GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master as RedisMaster;
use libmcaptcha::master::CreateMCaptcha;
use libmcaptcha::pow::{PoWConfig, Work};
use libmcaptcha::system::System;
use libmcaptcha::{MCaptcha, MCaptchaBuilder};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const NEVER: u64 = 20_000_000;

type Sys = Arc<System<HashCache, Master>>;

/// Systems sharing one cache and registry, used from many threads while sites come and go,
/// entries expire, collections run and systems are shut down and replaced.
fn mixed(case: &Case) {
    let mut rng = case.rng(0);
    let gc = *rng.pick(&[1u64, 1, NEVER]);
    let env = Real::with_gc(case, &mut rng, 2, 1000, gc);
    let nthreads = rng.range(3, 6) as usize;
    let rounds = rng.range(40, 90);
    let seed = rng.u64();
    for i in 0..nthreads {
        env.add(case, &format!("home{i}"), &[(1_000_000, 8)], 1_000_000);
    }
    let lv = [(2u32, 1u32), (4, 3), (9, 7)];
    for i in 0..4 {
        env.add(case, &format!("s{i}"), &lv, 1);
    }
    let slots: Vec<Mutex<Sys>> = (0..2)
        .map(|i| Mutex::new(Arc::new(build(&env.m, &env.cache, &env.salt, 1 + i, 1000))))
        .collect();
    // challenges and tokens everybody knows, with the number of times they were accepted
    let known: Mutex<Vec<(String, u32, String)>> = Mutex::default();
    let wins: Mutex<HashMap<String, u32>> = Mutex::default();
    let tokens: Mutex<Vec<(String, String)>> = Mutex::default();
    let won = |what: &str, s: &str| {
        let mut w = wins.lock().unwrap();
        let n = w.entry(s.to_string()).or_default();
        *n += 1;
        if *n > 1 {
            drop(w);
            case.abort("accepted-twice", format!("{what} {s} was accepted twice"));
        }
    };
    let replaced = AtomicU64::new(0);
    together(nthreads, |i| {
        let mut rng = Rng::new(seed ^ mix(i as u64));
        let home = format!("home{i}");
        let mut cleanups = 0;
        macro_rules! ask {
            ($m:expr, $what:expr) => {
                match block_on(case.ask_real(&env.m, $m), MAX) {
                    Some(Some(v)) => v,
                    _ => case.abort("not-answered", format!("{}: no answer from the registry", $what)),
                }
            };
        }
        macro_rules! wait {
            ($f:expr, $what:expr) => {
                match block_on($f, MAX) {
                    Some(v) => v,
                    None => case.abort("not-answered", format!("{}: no answer", $what)),
                }
            };
        }
        for _ in 0..rounds {
            if case.failed() {
                break;
            }
            let sys: Sys = rng.pick(&slots).lock().unwrap().clone();
            let site = format!("s{}", rng.below(4));
            match rng.below(16) {
                0..=3 => {
                    // an undisturbed visitor
                    let p = match wait!(sys.get_pow(home.clone()), "get_pow") {
                        Ok(Some(p)) => p,
                        r => case.abort("no-challenge", format!("get_pow({home}): {r:?}")),
                    };
                    let w = proof(&mut rng, Proof::Right, &env.salt, &p.string, p.difficulty_factor, &home).unwrap();
                    let t = match wait!(sys.verify_pow(w, format!("ip{i}")), "verify_pow") {
                        Ok((t, 8)) => t,
                        r => case.abort("refused", format!("correct submission: {r:?}")),
                    };
                    let sys: Sys = rng.pick(&slots).lock().unwrap().clone();
                    for want in [true, false] {
                        let v = VerifyCaptchaResult { token: t.clone(), key: home.clone() };
                        match wait!(sys.validate_verification_tokens(v), "validation") {
                            Ok(b) if b == want => {}
                            r => case.abort("validated-wrongly", format!("{r:?}, expected {want}")),
                        }
                    }
                    case.count("undisturbed_visitors", 1);
                }
                4 => {
                    if let Ok(Some(p)) = wait!(sys.get_pow(site.clone()), "get_pow") {
                        known.lock().unwrap().push((p.string, p.difficulty_factor, site));
                    }
                }
                5 | 6 => {
                    let c = {
                        let k = known.lock().unwrap();
                        if k.is_empty() {
                            continue;
                        }
                        let n = k.len() as u64;
                        k[(n - 1 - rng.below(n.min(6))) as usize].clone()
                    };
                    let kind = if rng.chance(2, 3) { Proof::Right } else { *rng.pick(&WRONG) };
                    let Some(w) = proof(&mut rng, kind, &env.salt, &c.0, c.1, &c.2) else { continue };
                    if let Ok((t, _)) = wait!(sys.verify_pow(w, format!("ip{}", rng.below(4))), "verify_pow") {
                        won("challenge", &c.0);
                        if kind != Proof::Right && kind != Proof::OtherNonce {
                            case.abort("accepted-wrongly", format!("a proof of kind {kind:?} was accepted"));
                        }
                        tokens.lock().unwrap().push((t, c.2));
                    }
                    case.count("contended_submissions", 1);
                }
                7 => {
                    let t = {
                        let k = tokens.lock().unwrap();
                        if k.is_empty() {
                            continue;
                        }
                        k[(k.len() as u64 - 1 - rng.below((k.len() as u64).min(4))) as usize].clone()
                    };
                    let v = VerifyCaptchaResult { token: t.0.clone(), key: t.1 };
                    if wait!(sys.validate_verification_tokens(v), "validation") == Ok(true) {
                        won("token", &t.0);
                    }
                }
                8 => ask!(AddSite { id: site, mcaptcha: build_mcaptcha(&lv, 1) }, "AddSite"),
                9 => ask!(RemoveCaptcha(site), "RemoveCaptcha"),
                10 => ask!(Rename { name: site, rename_to: format!("s{}", rng.below(4)) }, "Rename"),
                11 => {
                    let mut data = ask!(GetInternalData, "export");
                    data.retain(|k, _| k.starts_with('s'));
                    let text = serde_json::to_string(&data).unwrap();
                    let data: HashMap<String, MCaptcha> = serde_json::from_str(&text).unwrap();
                    ask!(SetInternalData { mcaptcha: data }, "restore");
                }
                12 => {
                    if let Ok(Some(c)) = wait!(env.m.send(GetSite(site)), "lookup") {
                        // the site may be stopped by now: an error is fine, no answer is not
                        let _ = wait!(c.send(counter::AddVisitor), "counter");
                        let n = wait!(c.send(counter::GetCurrentVisitorCount), "counter");
                        if let Ok(d) = wait!(c.send(counter::GetInternalData), "counter") {
                            let _ = wait!(c.send(counter::SetInternalData(d)), "counter");
                        }
                        let _ = n;
                    }
                }
                13 => {
                    let k = rng.below(2) as usize;
                    let new = Arc::new(build(&env.m, &env.cache, &env.salt, rng.range(1, 3) as usize, 1000));
                    let old = std::mem::replace(&mut *slots[k].lock().unwrap(), new);
                    drop(sys);
                    drop(old);
                    replaced.fetch_add(1, SeqCst);
                }
                14 if cleanups < 3 => {
                    cleanups += 1;
                    if wait!(env.m.send(CleanUp), "collection").is_err() {
                        case.abort("not-answered", "CleanUp: the registry is gone");
                    }
                }
                _ => std::thread::sleep(Duration::from_millis(rng.below(60))),
            }
            case.tick();
        }
    });
    // contended sites still work
    for i in 0..4 {
        let n = format!("s{i}");
        env.add(case, &n, &[(1_000_000, 2)], 100);
        let p = env.challenge(case, &n);
        let w = proof(&mut rng, Proof::Right, &env.salt, &p.string, 2, &n).unwrap();
        if !env.submit(case, w, "z").is_ok() {
            case.abort("refused", format!("correct submission for {n} at the end"));
        }
    }
    case.count("systems_replaced", replaced.load(SeqCst));
    case.seen((nthreads, gc, wins.lock().unwrap().len() / 4, replaced.load(SeqCst)));
    case.ev(format!("{nthreads} threads, collections every {gc} s, {} challenges and tokens accepted, {} systems replaced", wins.lock().unwrap().len(), replaced.load(SeqCst)));
    case.sample_events(4);
}

/// Arguments at the ends of their ranges through the whole public interface. Errors are
/// fine where they are due; a panic never is.
fn extremes(case: &Case) {
    let mut rng = case.rng(0);
    const U: [u32; 9] = [1, 2, 3, 255, 256, 65_536, i32::MAX as u32, u32::MAX - 1, u32::MAX];
    const D: [u64; 12] = [
        1,
        2,
        59,
        u32::MAX as u64,
        u32::MAX as u64 + 1,
        i64::MAX as u64 / 1_000_000_000,
        u64::MAX / 1_000_000_000,
        u64::MAX / 1000,
        i64::MAX as u64 - 1,
        i64::MAX as u64,
        u64::MAX - 1,
        u64::MAX,
    ];
    let text = |rng: &mut Rng| match rng.below(8) {
        0 => String::new(),
        1 => "x".repeat(200_000),
        2 => "\u{0}".into(),
        3 => "🙂".repeat(5_000),
        _ => rng.name(),
    };
    let site = |rng: &mut Rng| {
        let mut lv: Vec<(u32, u32)> = (0..rng.range(1, 6)).map(|_| (*rng.pick(&U) - rng.below(2) as u32, *rng.pick(&U))).collect();
        lv.sort();
        lv.dedup_by_key(|l| l.0);
        let mut d: Vec<u32> = lv.iter().map(|l| l.1).collect();
        d.sort();
        let lv: Vec<(u32, u32)> = lv.iter().zip(d).map(|(l, d)| (l.0, d)).collect();
        (lv, *rng.pick(&D))
    };
    // builders and sites, with whatever is given
    for _ in 0..20 {
        let mut b = DefenseBuilder::default();
        let mut l = LevelBuilder::default();
        for _ in 0..rng.below(6) {
            let z = rng.chance(1, 6);
            if rng.chance(4, 5) {
                l.visitor_threshold(if z { 0 } else { *rng.pick(&U) });
            }
            let _ = l.difficulty_factor(if z { 0 } else { *rng.pick(&U) });
            if let Ok(x) = l.build() {
                let _ = b.add_level(x);
            }
            if rng.chance(1, 8) {
                let _ = b.add_level(Level { visitor_threshold: *rng.pick(&U), difficulty_factor: 0 });
            }
        }
        let mut mb = MCaptchaBuilder::default();
        let _ = mb.build();
        if let Ok(mut d) = b.build() {
            for _ in 0..20 {
                match rng.below(5) {
                    0 => d.tighten_up(),
                    1 => d.loosen_up(),
                    2 => d.max_defense(),
                    3 => d.min_defense(),
                    _ => {
                        let _ = (d.get_difficulty(), d.visitor_threshold(), *d.current_level());
                    }
                }
            }
            let _ = mb.defense(d).build();
            let _ = mb.duration(0).build();
            let mut m = mb.duration(*rng.pick(&D)).build().unwrap();
            for _ in 0..40 {
                match rng.below(5) {
                    0 => m.decrement_visitor_by(*rng.pick(&U)),
                    1 => m.decrement_visitor_by(0),
                    2 => {
                        let t = serde_json::to_string(&m).unwrap();
                        m = serde_json::from_str(&t).unwrap();
                    }
                    _ => m.add_visitor(),
                }
                let _ = (m.get_difficulty(), m.get_visitors(), m.get_duration(), m.get_defense());
            }
            // a site with as many visitors as can be counted
            let (lv, dur) = site(&mut rng);
            if let Some(mut m) = inject(&lv, dur, u32::MAX - rng.below(3) as u32, rng.below(lv.len() as u64) as usize) {
                for _ in 0..6 {
                    m.add_visitor();
                }
                m.decrement_visitor_by(u32::MAX);
                m.add_visitor();
            }
            let c: CreateMCaptcha = m.into();
            let _ = serde_json::to_string(&c).unwrap();
        }
        case.count("extreme_calls", 60);
    }
    // JSON that is none of ours is refused
    for t in ["", "null", "{}", "[]", "0", "{\"visitor_threshold\":-1}", "{\"levels\":[]}", "\u{0}", "{\"string\":1}"] {
        let _ = serde_json::from_str::<MCaptcha>(t);
        let _ = serde_json::from_str::<Work>(t);
        let _ = serde_json::from_str::<PoWConfig>(t);
        let _ = serde_json::from_str::<CachePoW>(t);
        let _ = serde_json::from_str::<VerifyCaptchaResult>(t);
        let _ = serde_json::from_str::<CreateMCaptcha>(t);
    }
    real_time(async {
        let m = Master::new(*rng.pick(&D)).start();
        let cache = HashCache::default().start();
        let salt = text(&mut rng);
        // a queue of length zero admits nobody
        let qlen = *rng.pick(&[0usize, 1, 2, 1000, usize::MAX / 2, usize::MAX]);
        let sys = build(&m, &cache, &salt, *rng.pick(&[1usize, 2, 33]), qlen);
        case.ev(format!("salt of {} bytes, queue length {qlen}", salt.len()));
        let mut names = vec![];
        for _ in 0..rng.range(2, 6) {
            let (lv, dur) = site(&mut rng);
            let name = text(&mut rng);
            let r = case.ask_rx(&m, AddSite { id: name.clone(), mcaptcha: build_mcaptcha(&lv, dur) }, "AddSite").await;
            case.must(r, "AddSite");
            case.ev(format!("site {:?} levels {lv:?} duration {dur}", name.chars().take(20).collect::<String>()));
            names.retain(|n| *n != name);
            names.push(name);
        }
        let mut open: Vec<(PoWConfig, String)> = vec![];
        for _ in 0..25 {
            case.count("extreme_calls", 1);
            case.tick();
            let name = if rng.chance(5, 6) { rng.pick(&names).clone() } else { text(&mut rng) };
            let k = rng.below(10);
            case.seen(("extreme", k, name.len().min(9), open.len(), qlen.min(3)));
            match k {
                0..=2 => match sys.get_pow(name.clone()).await {
                    Ok(Some(p)) => open.push((p, name)),
                    Ok(None) if !names.contains(&name) => {}
                    r => case.abort("no-challenge", format!("get_pow of a registered site: {r:?}")),
                },
                3 | 4 => {
                    let (string, diff, key) = match open.is_empty() {
                        true => (text(&mut rng), 1, name),
                        false => {
                            let x = open.swap_remove(rng.below(open.len() as u64) as usize);
                            (x.0.string, x.0.difficulty_factor, x.1)
                        }
                    };
                    let easy = diff <= if salt.len() + string.len() < 500 { 65_536 } else { 3 } && rng.chance(1, 2);
                    let w = if easy {
                        let (nonce, s) = solve(&salt, &string, diff, rng.u64());
                        Work { string, result: s.to_string(), nonce, key: key.clone() }
                    } else {
                        let result = match rng.below(9) {
                            0 => String::new(),
                            1 => "-1".into(),
                            2 => u128::MAX.to_string(),
                            3 => "340282366920938463463374607431768211456".into(),
                            4 => "9".repeat(100_000),
                            5 => "1e30".into(),
                            6 => "٣".into(),
                            7 => "0x10".into(),
                            _ => text(&mut rng),
                        };
                        Work { string, result, nonce: *rng.pick(&[0, 1, u64::MAX, i64::MAX as u64]), key: key.clone() }
                    };
                    let ip = text(&mut rng);
                    match sys.verify_pow(w, ip).await {
                        Ok((t, _)) => {
                            let v = VerifyCaptchaResult { token: t, key };
                            if sys.validate_verification_tokens(v).await != Ok(true) {
                                case.abort("validated-wrongly", "fresh token refused");
                            }
                            case.count("extreme_accepted", 1);
                        }
                        Err(CaptchaError::QueueFull) if qlen == 0 => {}
                        Err(CaptchaError::InsuffiencientDifficulty) | Err(CaptchaError::InvalidPoW) if !easy => {}
                        Err(CaptchaError::StringNotFound) | Err(CaptchaError::MCaptchaKeyValidationFail) if !easy || diff == 1 => {}
                        r => case.abort("unexpected-verdict", format!("difficulty {diff}, queue length {qlen}: {r:?}")),
                    }
                }
                5 => {
                    let v = VerifyCaptchaResult { token: text(&mut rng), key: name };
                    if sys.validate_verification_tokens(v).await != Ok(false) {
                        case.abort("validated-wrongly", "a made-up token validates");
                    }
                }
                6 => {
                    // straight into the cache
                    let (string, key) = (text(&mut rng), text(&mut rng));
                    let dur = *rng.pick(&D);
                    let diff = *rng.pick(&U);
                    let c = CachePoWBuilder::default()
                        .string(string.clone())
                        .difficulty_factor(diff)
                        .duration(dur)
                        .key(key.clone())
                        .build()
                        .unwrap();
                    case.must(case.ask_rx(&cache, c, "CachePoW").await, "CachePoW");
                    let r = case.ask_rx(&cache, RetrivePoW(VerifyCaptchaResult { token: string, key: key.clone() }), "RetrivePoW").await;
                    match r {
                        Ok(Some(c)) if c.key == key && c.difficulty_factor == diff && c.duration == dur => {}
                        r => case.abort("retrieved-wrongly", format!("stored difficulty {diff} duration {dur}, got {r:?}")),
                    }
                    let t = CacheResult { token: text(&mut rng), key: text(&mut rng), duration: *rng.pick(&D) };
                    let v = VerifyCaptchaResult { token: t.token.clone(), key: t.key.clone() };
                    case.must(case.ask_rx(&cache, t, "CacheResult").await, "CacheResult");
                    if case.ask_rx(&cache, v, "validation").await != Ok(true) {
                        case.abort("validated-wrongly", "a token just stored is refused");
                    }
                }
                7 => {
                    let to = text(&mut rng);
                    case.must(case.ask_rx(&m, Rename { name: name.clone(), rename_to: to.clone() }, "Rename").await, "Rename");
                    if names.contains(&name) {
                        names.retain(|n| *n != name && *n != to);
                        names.push(to);
                    }
                }
                8 => {
                    let mut data = case.must(case.ask_rx(&m, GetInternalData, "export").await, "export");
                    if let Some((n, x)) = data.iter().next().map(|x| (x.0.clone(), x.1.clone())) {
                        let lv = levels_of(x.get_defense());
                        if let Some(x) = inject(&lv, x.get_duration(), *rng.pick(&U), lv.len() - 1) {
                            data.insert(n, x);
                        }
                    }
                    let t = serde_json::to_string(&data).unwrap();
                    let data = serde_json::from_str(&t).unwrap();
                    case.must(case.ask_rx(&m, SetInternalData { mcaptcha: data }, "restore").await, "restore");
                }
                _ => {
                    if names.len() > 1 {
                        case.must(case.ask_rx(&m, RemoveCaptcha(name.clone()), "RemoveCaptcha").await, "RemoveCaptcha");
                        names.retain(|n| *n != name);
                    }
                }
            }
        }
        drop(sys);
        case.sample_events(6);
    });
}

pub fn c23(ctx: &Arc<Ctx>) {
    ctx.rule("several systems over one cache and registry used from 3-6 threads while sites come and go, entries expire, collections run and systems are shut down and replaced, in plain, thread-sanitizer and address-sanitizer builds; extreme arguments through the whole public interface; panics, unanswered requests, double acceptance and sanitizer reports are violations; distinct = distinct (threads, acceptances, replacements) and (call, argument class) situations");
    run_cases(ctx, "mixed", ctx.n(60, 600), 4, mixed);
    run_cases(ctx, "extremes", ctx.n(400, 4000), 4, extremes);
    ctx.require("undisturbed_visitors", 100);
    ctx.require("extreme_calls", 1000);
}

// ------------------------------------------------------------------ C24
/// Judges readings taken after equal rounds of `items` things each, all of them over.
/// Containers keep some capacity, each doubles once at most; what keeps growing over five
/// doublings of the number of rounds is kept for every item.
fn enough(case: &Case, what: &str, r: &[i64], items: u64) -> bool {
    let n = r.len();
    if ![24, 48, 96, 192, 384].contains(&n) {
        return false;
    }
    let (base, last) = (r[..n / 2].iter().max().unwrap(), r[n - 4..].iter().min().unwrap());
    let grown = last - base >= (items * n as u64 / 2) as i64;
    if grown && n < 384 {
        return false;
    }
    let step: Vec<i64> = r.iter().step_by(24).copied().collect();
    case.check(!grown, "memory-kept", || {
        format!("{what}: after every round of {items} that are over more memory stays in use; bytes in use every 24 rounds: {step:?}")
    });
    case.count("rounds_measured", n as u64);
    case.count("items_measured", items * n as u64);
    case.sample(serde_json::json!({ "what": what, "items per round": items, "bytes in use after each round": r[..24] }));
    true
}

/// one System, equal waves of visitors, each of which is over before the next
fn waves(case: &Case) {
    let mut rng = case.rng(0);
    virtual_time(async {
        let m = Master::new(if rng.chance(1, 2) { NEVER } else { 40 }).start();
        let cache = HashCache::default().start();
        let sys = build(&m, &cache, "salt", 2, 1000);
        let items = rng.range(60, 200);
        let (submit, good, validate) = (rng.below(5), rng.below(5), rng.below(5));
        let many_ips = rng.chance(1, 2);
        let keep = rng.chance(1, 2);
        let churn = rng.chance(1, 2);
        let direct = rng.chance(1, 3);
        let mut readings = vec![];
        let mut serial = 0u64;
        while !enough(case, "visitors, challenges, tokens and sites that are over", &readings, items) {
            for i in 0..3 {
                let id = if churn { format!("site{i}-{serial}") } else { format!("site{i}") };
                let r = case.ask_rx(&m, AddSite { id: id.clone(), mcaptcha: build_mcaptcha(&[(50, 1), (100, 2)], 3 + i) }, "AddSite").await;
                case.must(r, "AddSite");
                for _ in 0..items / 3 {
                    serial += 1;
                    case.tick();
                    let Ok(Some(p)) = hold(sys.get_pow(id.clone())).await else { case.abort("no-challenge", "get_pow") };
                    if rng.below(5) >= submit {
                        continue;
                    }
                    let kind = if rng.below(5) < good { Proof::Right } else { Proof::OtherNonce };
                    let Some(w) = proof(&mut rng, kind, "salt", &p.string, p.difficulty_factor, &id) else { continue };
                    let ip = if many_ips { format!("ip{serial}") } else { "ip".into() };
                    if let Ok((t, _)) = hold(sys.verify_pow(w, ip)).await {
                        if rng.below(5) < validate {
                            let v = VerifyCaptchaResult { token: t, key: id.clone() };
                            let _ = hold(sys.validate_verification_tokens(v)).await;
                        }
                    }
                }
                // failed attempts with strings and names nobody knows
                for _ in 0..items / 6 {
                    serial += 1;
                    let v = VerifyCaptchaResult { token: format!("token{serial}"), key: format!("nobody{serial}") };
                    let _ = hold(sys.validate_verification_tokens(v)).await;
                    let w = Work { string: format!("string{serial}"), result: "1".into(), nonce: 1, key: id.clone() };
                    let _ = hold(sys.verify_pow(w, format!("ip{serial}"))).await;
                    let _ = hold(sys.get_pow(format!("nobody{serial}"))).await;
                    if direct {
                        if let Ok(Some(c)) = m.send(GetSite(id.clone())).await {
                            let d = c.send(counter::GetInternalData).await.unwrap();
                            let _ = c.send(counter::SetInternalData(d)).await;
                        }
                    }
                }
                if churn && !keep {
                    let other = format!("other{i}-{serial}");
                    let _ = case.ask_rx(&m, Rename { name: id.clone(), rename_to: other.clone() }, "Rename").await;
                    let _ = case.ask_rx(&m, RemoveCaptcha(other), "RemoveCaptcha").await;
                }
            }
            if churn && keep {
                // left to the collection; or cleared here, if there is none
                tokio::time::sleep(Duration::from_secs(130)).await;
                let s = case.must(case.ask_rx(&m, GetInternalData, "export").await, "export");
                for n in s.into_keys() {
                    let _ = case.ask_rx(&m, RemoveCaptcha(n), "RemoveCaptcha").await;
                }
            }
            tokio::time::sleep(Duration::from_secs(20)).await;
            settle().await;
            readings.push(live_bytes());
        }
        case.seen((items, submit, good, validate, many_ips, keep, churn, direct));
        hold(async { drop(sys) }).await;
    });
}

/// Systems that come and go; their worlds, too
fn lives(case: &Case) {
    let mut rng = case.rng(0);
    let kind = case.index % 4;
    let fake = (kind == 2).then(Fake::new);
    let mut readings = vec![];
    let mut threads = vec![];
    let mut files = vec![];
    let per = if kind == 2 { 3 } else { 8 };
    let open_files = || std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) as i64;
    match kind {
        // systems over one cache and registry
        0 | 1 => real_time(async {
            let m = Master::new(NEVER).start();
            let cache = HashCache::default().start();
            let msg = AddSite { id: "a".into(), mcaptcha: build_mcaptcha(&[(1_000_000, 2)], 1_000_000) };
            case.must(case.ask_rx(&m, msg, "AddSite").await, "AddSite");
            for _ in 0..24 {
                for k in 0..per {
                    let sys = build(&m, &cache, "salt", 1 + (k % 3) as usize, 10);
                    if kind == 1 {
                        // with work inside, some of it given up
                        let w = Work { string: "x".into(), result: "1".into(), nonce: 1, key: "a".into() };
                        for i in 0..6 {
                            let c = CachePoWBuilder::default()
                                .string("x".into())
                                .difficulty_factor(1)
                                .duration(1)
                                .key("a".into())
                                .build()
                                .unwrap();
                            case.must(case.ask_rx(&cache, c, "CachePoW").await, "CachePoW");
                            let mut f = Box::pin(sys.verify_pow(w.clone(), format!("{i}")));
                            for _ in 0..rng.below(6) {
                                let p = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
                                if p.is_ready() {
                                    break;
                                }
                                tokio::task::yield_now().await;
                            }
                        }
                    }
                    drop(sys);
                    case.tick();
                }
                if kind == 1 {
                    actix_rt::time::sleep(Duration::from_millis(1100)).await;
                }
                readings.push(live_bytes());
                threads.push(os_threads() as i64);
                files.push(open_files());
            }
        }),
        // connections to Redis
        2 => real_time(async {
            let fake = fake.as_ref().unwrap();
            for _ in 0..24 {
                for k in 0..per {
                    let cluster = rng.chance(1, 4);
                    if k % 2 == 0 {
                        if let Ok(c) = RedisCache::new(fake.config(cluster)).await {
                            let c = c.start();
                            let t = CacheResult { token: "t".into(), key: "k".into(), duration: 5 };
                            let _ = case.ask_rx(&c, t, "CacheResult").await;
                        }
                    } else if let Ok(m) = RedisMaster::new(fake.config(cluster)).await {
                        let m = m.start();
                        let _ = case.ask_rx(&m, AddVisitor("x".into()), "AddVisitor").await;
                    }
                    case.tick();
                }
                // the other ends notice, too
                let base = files.first().copied().unwrap_or(i64::MAX);
                let end = Instant::now() + Duration::from_secs(3);
                while open_files() > base && Instant::now() < end {
                    actix_rt::time::sleep(Duration::from_millis(5)).await;
                }
                actix_rt::time::sleep(Duration::from_millis(20)).await;
                fake.forget();
                readings.push(live_bytes());
                threads.push(os_threads() as i64);
                files.push(open_files());
            }
        }),
        // whole worlds
        _ => {
            for _ in 0..24 {
                for _ in 0..per {
                    real_time(async {
                        let arb = Arbiter::new();
                        let m = Master::start_in_arbiter(&arb.handle(), |_| Master::new(1));
                        let cache = HashCache::start_in_arbiter(&arb.handle(), |_| HashCache::default());
                        let sys = build(&m, &cache, "salt", 2, 10);
                        let msg = AddSite { id: "a".into(), mcaptcha: build_mcaptcha(&[(1_000_000, 2)], 1_000_000) };
                        case.must(case.ask_rx(&m, msg, "AddSite").await, "AddSite");
                        let Ok(Some(p)) = sys.get_pow("a".into()).await else { case.abort("no-challenge", "get_pow") };
                        let w = proof(&mut rng, Proof::Right, "salt", &p.string, 2, "a").unwrap();
                        case.must(sys.verify_pow(w, "ip".into()).await, "verify_pow");
                        drop((sys, m, cache));
                        arb.stop();
                        let _ = arb.join();
                    });
                    case.tick();
                }
                readings.push(live_bytes());
                threads.push(os_threads() as i64);
                files.push(open_files());
            }
        }
    }
    case.seen(("lives", kind));
    // (a started-up thread of a life that is over costs kilobytes)
    let n = readings.len();
    let grow = |r: &[i64]| r[n / 2..].iter().min().unwrap() - r[..=n / 2].iter().max().unwrap();
    let rounds = (n / 2) as i64 * per as i64 / 2;
    case.check(grow(&readings) < rounds * 64, "memory-kept", || format!("kind {kind}: memory stays in use after systems are gone: {readings:?}"));
    case.check(grow(&threads) < rounds / 4, "threads-kept", || format!("kind {kind}: threads stay after systems are gone: {threads:?}"));
    case.check(grow(&files) < rounds / 4, "connections-kept", || format!("kind {kind}: open files stay after systems are gone: {files:?}"));
    case.count("lives_measured", per as u64 * n as u64);
    case.sample(serde_json::json!({ "kind": kind, "bytes": readings, "threads": threads, "open files": files }));
}

pub fn c24(ctx: &Arc<Ctx>) {
    ctx.rule("equal waves of visitors, submissions, validations, refused requests and sites that are over before the next wave; systems, connections and actor worlds created and dropped; bytes in use, threads and open files read after every wave must not keep growing after the first half; distinct = distinct wave compositions");
    // one at a time: the allocator's count is the process's
    run_cases(ctx, "waves", ctx.n(30, 1000), 1, waves);
    run_cases(ctx, "lives", ctx.n(4, 16), 1, lives);
    ctx.require("items_measured", 10_000);
    ctx.require("lives_measured", 200);
}
use std::future::Future;

/// Known defects of the monitor's own, to see that the sanitizers see.
pub fn canary(kind: &str) {
    match kind {
        "race" => {
            static mut X: u64 = 0;
            let t: Vec<_> = (0..2)
                .map(|i| {
                    std::thread::spawn(move || {
                        for k in 0..1000 {
                            unsafe { std::ptr::write_volatile(&raw mut X, k + i) }
                        }
                    })
                })
                .collect();
            t.into_iter().for_each(|t| t.join().unwrap());
        }
        "freed" => {
            let p = Box::into_raw(Box::new(5u64));
            unsafe {
                drop(Box::from_raw(p));
                println!("{}", std::ptr::read_volatile(p));
            }
        }
        "leak" => {
            for i in 0..100u64 {
                std::hint::black_box(Box::into_raw(Box::new([i; 50])));
            }
        }
        _ => panic!("unknown canary"),
    }
}
