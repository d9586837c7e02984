//! C22: requests dropped at any point
use crate::model::*;
use crate::redisfake::Fake;
use crate::system::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::*;
use libmcaptcha::pow::Work;
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const NEVER: u64 = 20_000_000;

/// Poll `f` at most `k` times, other tasks running in between, then drop it.
/// From 1000 on: poll it when it is woken only, drop it at once after `k - 1000` polls.
async fn partly<F>(f: F, k: u64) -> Option<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let mut f = Box::pin(f);
    if (WOKEN..2 * WOKEN).contains(&k) {
        let mut left = k - WOKEN;
        // a task of its own takes its turn among the actors
        return hold(actix_rt::spawn(std::future::poll_fn(move |cx| {
            if left == 0 {
                return std::task::Poll::Ready(None);
            }
            left -= 1;
            match f.as_mut().poll(cx) {
                std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
                std::task::Poll::Pending if left == 0 => std::task::Poll::Ready(None),
                std::task::Poll::Pending => std::task::Poll::Pending,
            }
        })))
        .await
        .ok()?;
    }
    for _ in 0..k {
        let p = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
        if let std::task::Poll::Ready(v) = p {
            return Some(v);
        }
        tokio::task::yield_now().await;
    }
    None
}
const WOKEN: u64 = 1000;
fn polls(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        4 => WOKEN + rng.below(4),
        5 => WOKEN + rng.below(9),
        0 => rng.below(3),
        1 => rng.below(8),
        2 => rng.below(25),
        _ => rng.below(60),
    }
}
async fn both<A, M, T>(a: Addr<A>, m: M) -> Option<CaptchaResult<T>>
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = tokio::sync::oneshot::Receiver<CaptchaResult<T>>> + Send + 'static,
    T: Send + 'static,
{
    a.send(m).await.ok()?.await.ok()
}

/// One caller after the other, some of whom leave before they are answered.
fn c22_system(case: &Case) {
    let mut rng = case.rng(0);
    virtual_time(async {
        let m = Master::new(NEVER).start();
        let st: Arc<Mutex<SpyState>> = Arc::default();
        if rng.chance(2, 3) {
            st.lock().unwrap().delay = Some(case.rng(77));
        }
        let cache = Spy { inner: HashCache::default().start(), st: st.clone() }.start();
        let salt = rng.alnum(20);
        let sys = Rc::new(build(&m, &cache, &salt, rng.range(1, 3) as usize, rng.range(1, 6) as usize));
        let names = ["a", "b", "a:b"];
        let mut sites: BTreeMap<&str, Site> = BTreeMap::new();
        for n in names {
            let lv = gen_levels(&mut rng, 4, 12, 200);
            case.must(
                case.ask_rx(&m, AddSite { id: n.into(), mcaptcha: build_mcaptcha(&lv, 1_000_000) }, "AddSite").await,
                "AddSite",
            );
            sites.insert(n, Site::new(lv, 1_000_000));
        }
        // outstanding challenges: (site, string, difficulty, tokens that came of it, abandoned before?)
        let mut chs: Vec<(&str, String, u32, usize, bool)> = vec![];
        // tokens: (token, site, validated, abandoned before?)
        let mut toks: Vec<(String, &str, u32, bool)> = vec![];
        let ready = |n: &str, s: &Arc<Mutex<SpyState>>| s.lock().unwrap().tokens.iter().filter(|t| t.1 == n).count();
        for _ in 0..rng.range(20, 60) {
            let name = *rng.pick(&names);
            let leave = rng.chance(1, 2);
            let k = polls(&mut rng);
            match rng.below(4) {
                0 => {
                    let r = if leave {
                        let s = sys.clone();
                        let r = partly(async move { s.get_pow(name.into()).await }, k).await;
                        case.ev(format!("get_pow({name}) dropped after {k} polls: {r:?}"));
                        case.count("abandoned", 1);
                        case.seen(("get", k, r.is_some()));
                        r
                    } else {
                        Some(hold(sys.get_pow(name.into())).await)
                    };
                    hold(settle_long()).await;
                    let before = sites[name].clone();
                    let mut after = before.clone();
                    let want = after.visit();
                    if let Some(r) = r {
                        let p = match r {
                            Ok(Some(p)) => p,
                            r => case.abort("no-challenge", format!("get_pow({name}): {r:?}")),
                        };
                        if p.difficulty_factor != want {
                            case.abort(
                                "answered-differently",
                                format!("get_pow({name}): difficulty {}, expected {want}", p.difficulty_factor),
                            );
                        }
                        chs.push((name, p.string, p.difficulty_factor, 0, false));
                        sites.insert(name, after);
                    } else {
                        // the visit happened completely or not at all
                        let s = case.must(case.ask_rx(&m, GetInternalData, "GetInternalData").await, "GetInternalData");
                        let got = s.get(name).map(observe);
                        if got == Some(expect_of(&after)) {
                            sites.insert(name, after);
                        } else if got != Some(expect_of(&before)) {
                            case.abort(
                                "state",
                                format!("after a dropped get_pow {name} is {got:?}; before {before:?}, with the visit {after:?}"),
                            );
                        }
                    }
                }
                1 | 2 => {
                    let open: Vec<usize> = (0..chs.len()).collect();
                    if open.is_empty() {
                        continue;
                    }
                    let i = *rng.pick(&open);
                    let (site, string, diff, had, was_left) = chs[i].clone();
                    let good = rng.chance(5, 6);
                    let kind = if good { Proof::Right } else { *rng.pick(&WRONG) };
                    let Some(w) = proof(&mut rng, kind, &salt, &string, diff, site) else { continue };
                    let minted = ready(site, &st);
                    let (s, ip) = (sys.clone(), format!("ip{}", rng.below(3)));
                    let f = async move { s.verify_pow(w, ip).await };
                    let r = if leave {
                        let r = partly(f, k).await;
                        case.count("abandoned", 1);
                        case.seen(("submit", k, r.is_some(), good, had));
                        r
                    } else {
                        Some(hold(f).await)
                    };
                    hold(settle_long()).await;
                    let new = ready(site, &st) - minted;
                    case.ev(format!(
                        "{kind:?} for {string} of {site}, {}: {r:?}, {new} tokens minted",
                        if leave { format!("dropped after {k} polls") } else { "waited".into() }
                    ));
                    let have = had + new;
                    if have > 1 {
                        case.abort("redeemed-again", format!("challenge {string} earned {have} tokens; last: {r:?}"));
                    }
                    match &r {
                        Some(Ok((t, d))) => {
                            if !good || new != 1 || *d != diff {
                                case.abort("answered-differently", format!("{kind:?} for {string}: {r:?}, {new} tokens minted, issued at {diff}"));
                            }
                            toks.push((t.clone(), site, 0, false));
                        }
                        Some(Err(e)) => {
                            if new != 0 {
                                case.abort("answered-differently", format!("{kind:?} for {string} refused with {e:?}, but a token was minted"));
                            }
                            if *e == CaptchaError::QueueFull {
                                // abandoned submissions may wait still; they don't for long
                                for _ in 0..honest(case, &mut rng, &sys, &salt, site).await {
                                    sites.get_mut(site).unwrap().visit();
                                }
                                case.count("queue_full_for_a_moment", 1);
                            } else if good && had == 0 && !was_left {
                                case.abort("refused", format!("a first, correct submission of {string} is refused: {e:?}"));
                            }
                        }
                        None => {}
                    }
                    if new == 0 && r.is_none() && good {
                        // it may still be there, or be consumed
                        chs[i].4 = true;
                    } else {
                        chs[i].3 = have;
                        chs[i].4 = true;
                    }
                }
                _ => {
                    if toks.is_empty() {
                        continue;
                    }
                    let i = rng.below(toks.len() as u64) as usize;
                    let (t, site, n, was_left) = toks[i].clone();
                    let (s, v) = (sys.clone(), VerifyCaptchaResult { token: t.clone(), key: site.into() });
                    let f = async move { s.validate_verification_tokens(v).await };
                    let r = if leave {
                        let r = partly(f, k).await;
                        case.count("abandoned", 1);
                        case.seen(("validate", k, r.is_some(), n));
                        r
                    } else {
                        Some(hold(f).await)
                    };
                    hold(settle_long()).await;
                    case.ev(format!("validation of {t}, {}: {r:?}", if leave { format!("dropped after {k} polls") } else { "waited".into() }));
                    match r {
                        Some(Ok(true)) => {
                            toks[i].2 += 1;
                            if n > 0 {
                                case.abort("validated-again", format!("token {t} validated twice"));
                            }
                        }
                        Some(Ok(false)) => {
                            if n == 0 && !was_left {
                                case.abort("answered-differently", format!("token {t} of {site}, never presented before, does not validate"));
                            }
                        }
                        Some(Err(e)) => case.abort("request-failed", format!("validation of {t}: {e:?}")),
                        None => {}
                    }
                    toks[i].3 = true;
                }
            }
        }
        // everyone who waits is still served
        for n in names {
            honest(case, &mut rng, &sys, &salt, n).await;
        }
        hold(async { drop(sys) }).await;
        case.sample_events(10);
    })
}
async fn settle_long() {
    for _ in 0..6 {
        settle().await;
    }
}
async fn honest<C: Save>(
    case: &Case,
    rng: &mut Rng,
    sys: &libmcaptcha::system::System<C, Master>,
    salt: &str,
    name: &str,
) -> u64
where
    C::Context: actix::dev::ToEnvelope<C, CachePoW>
        + actix::dev::ToEnvelope<C, RetrivePoW>
        + actix::dev::ToEnvelope<C, DeletePoW>
        + actix::dev::ToEnvelope<C, CacheResult>
        + actix::dev::ToEnvelope<C, VerifyCaptchaResult>
        + actix::dev::ToEnvelope<C, DeleteCaptchaResult>,
{
    let start = Instant::now();
    let mut visits = 0;
    let t = loop {
        visits += 1;
        let p = match hold(sys.get_pow(name.into())).await {
            Ok(Some(p)) => p,
            r => case.abort("no-challenge", format!("get_pow({name}) of one who waits: {r:?}")),
        };
        let w = proof(rng, Proof::Right, salt, &p.string, p.difficulty_factor, name).unwrap();
        match hold(sys.verify_pow(w, "9.9.9.9".into())).await {
            Ok((t, d)) if d == p.difficulty_factor => break t,
            // abandoned submissions may wait still; they don't for long
            Err(CaptchaError::QueueFull) if start.elapsed() < Duration::from_secs(20) => {
                case.tick();
                std::thread::sleep(Duration::from_millis(3));
            }
            r => case.abort("refused", format!("correct submission of one who waits: {r:?}")),
        }
    };
    for want in [true, false] {
        let v = VerifyCaptchaResult { token: t.clone(), key: name.into() };
        match hold(sys.validate_verification_tokens(v)).await {
            Ok(b) if b == want => {}
            r => case.abort("answered-differently", format!("validation of one who waits: {r:?}, expected {want}")),
        }
    }
    case.count("honest_rounds", 1);
    visits
}

/// The registry and the cache asked directly.
fn c22_actors(case: &Case) {
    let mut rng = case.rng(0);
    virtual_time(async {
        let m = Master::new(NEVER).start();
        let c = HashCache::default().start();
        let names: Vec<String> = ["a", "b", "c"].iter().map(|s| s.to_string()).collect();
        let mut reg: BTreeMap<String, Site> = BTreeMap::new();
        // (key, string) -> was its store waited for
        let mut store: BTreeMap<(bool, String), (String, u32, bool)> = BTreeMap::new();
        for step in 0..rng.range(30, 90) {
            let a = rng.pick(&names).clone();
            let b = rng.pick(&names).clone();
            let leave = rng.chance(2, 3);
            // four polls are enough to see the answer
            let k = match leave {
                true if rng.chance(1, 2) => WOKEN + rng.below(4),
                true => rng.below(4),
                false => 100_000,
            };
            if rng.chance(1, 3) {
                // the cache
                let token = rng.chance(1, 2);
                let string = format!("x{}", rng.below(8));
                let slot = (token, string.clone());
                if rng.chance(1, 2) && !store.contains_key(&slot) {
                    let done = if token {
                        let msg = CacheResult { token: string.clone(), key: a.clone(), duration: 1_000_000 };
                        partly(both(c.clone(), msg), k).await.flatten().map(|r| r.is_ok())
                    } else {
                        let msg = CachePoWBuilder::default()
                            .string(string.clone())
                            .difficulty_factor(step as u32 + 1)
                            .duration(1_000_000)
                            .key(a.clone())
                            .build()
                            .unwrap();
                        partly(both(c.clone(), msg), k).await.flatten().map(|r| r.is_ok())
                    };
                    settle().await;
                    case.ev(format!("store {slot:?} for {a}, {k} polls: {done:?}"));
                    if done == Some(false) {
                        case.abort("request-failed", format!("storing {slot:?}"));
                    }
                    if done.is_some() || k % WOKEN > 0 {
                        store.insert(slot, (a.clone(), step as u32 + 1, done.is_some()));
                    }
                } else if let Some((key, diff, sure)) = store.get(&slot).cloned() {
                    let msg = VerifyCaptchaResult { token: string.clone(), key: key.clone() };
                    let got: Option<bool> = if token {
                        partly(both(c.clone(), msg), k).await.flatten().map(|r| case.must(r, "VerifyCaptchaResult"))
                    } else {
                        partly(both(c.clone(), RetrivePoW(msg)), k).await.flatten().map(|r| match case.must(r, "RetrivePoW") {
                            None => false,
                            Some(p) => {
                                if p.key != key || p.difficulty_factor != diff {
                                    case.abort("answered-differently", format!("{slot:?} of {key}: {p:?}, stored at difficulty {diff}"));
                                }
                                true
                            }
                        })
                    };
                    settle().await;
                    case.ev(format!("look up {slot:?} of {key}, {k} polls: {got:?}"));
                    if got == Some(false) && sure {
                        case.abort("answered-differently", format!("{slot:?} of {key} is stored, but not found"));
                    }
                    if got.is_some() {
                        // consumed: must not be found again
                        let msg = VerifyCaptchaResult { token: string.clone(), key: key.clone() };
                        let again = if token {
                            case.must(case.ask_rx(&c, msg, "VerifyCaptchaResult").await, "VerifyCaptchaResult")
                        } else {
                            case.must(case.ask_rx(&c, RetrivePoW(msg), "RetrivePoW").await, "RetrivePoW").is_some()
                        };
                        if again {
                            case.abort("redeemed-again", format!("{slot:?} of {key} found twice"));
                        }
                        store.remove(&slot);
                    } else if k % WOKEN > 0 {
                        store.insert(slot, (key, diff, false));
                    }
                }
                case.count(if leave { "abandoned" } else { "waited" }, 1);
                continue;
            }
            let mut after = reg.clone();
            let op = rng.below(7);
            let (what, answered): (String, Option<String>) = match op {
                0 | 1 => {
                    let lv = gen_levels(&mut rng, 4, 12, 200);
                    after.insert(a.clone(), Site::new(lv.clone(), 1_000_000));
                    let r = partly(both(m.clone(), AddSite { id: a.clone(), mcaptcha: build_mcaptcha(&lv, 1_000_000) }), k).await;
                    (format!("AddSite {a}"), r.flatten().map(|r| format!("{r:?}")))
                }
                2 => {
                    after.remove(&a);
                    let r = partly(both(m.clone(), RemoveCaptcha(a.clone())), k).await;
                    (format!("RemoveCaptcha {a}"), r.flatten().map(|r| format!("{r:?}")))
                }
                3 => {
                    if let Some(s) = after.remove(&a) {
                        after.insert(b.clone(), s);
                    }
                    let r = partly(both(m.clone(), Rename { name: a.clone(), rename_to: b.clone() }), k).await;
                    (format!("Rename {a} to {b}"), r.flatten().map(|r| format!("{r:?}")))
                }
                4 => {
                    let lv = gen_levels(&mut rng, 3, 5, 200);
                    let s = Site { level: rng.below(lv.len() as u64) as usize, count: rng.below(6) as u32, levels: lv, duration: 1_000_000 };
                    if let Some(mc) = inject(&s.levels, s.duration, s.count, s.level) {
                        after.insert(b.clone(), s);
                        let msg = SetInternalData { mcaptcha: [(b.clone(), mc)].into_iter().collect() };
                        let r = partly(both(m.clone(), msg), k).await;
                        (format!("SetInternalData {b}"), r.flatten().map(|r| format!("{r:?}")))
                    } else {
                        continue;
                    }
                }
                5 => {
                    let r = partly(both(m.clone(), GetInternalData), k).await;
                    ("GetInternalData".into(), r.flatten().map(|r| format!("{}", r.is_ok())))
                }
                _ => {
                    let want = after.get_mut(&a).map(|s| s.visit());
                    let r = partly(both(m.clone(), AddVisitor(a.clone())), k).await.flatten();
                    if let Some(r) = &r {
                        let got = r.as_ref().ok().and_then(|r| r.as_ref()).map(|r| r.difficulty_factor);
                        if got != want {
                            case.abort("answered-differently", format!("AddVisitor {a}: {r:?}, expected {want:?}"));
                        }
                    }
                    (format!("AddVisitor {a}"), r.map(|r| format!("{r:?}")))
                }
            };
            settle_long().await;
            let snap = case.must(case.ask_rx(&m, GetInternalData, "GetInternalData").await, "GetInternalData");
            let got: BTreeMap<_, _> = snap.iter().map(|(n, c)| (n.clone(), observe(c))).collect();
            let view = |r: &BTreeMap<String, Site>| r.iter().map(|(n, s)| (n.clone(), expect_of(s))).collect::<BTreeMap<_, _>>();
            case.ev(format!("{what}, {k} polls: {answered:?}"));
            case.count(if leave { "abandoned" } else { "waited" }, 1);
            case.seen((op, k.min(99), answered.is_some(), reg.len(), after == reg));
            if got == view(&after) {
                reg = after;
            } else if got == view(&reg) && answered.is_none() {
                // it did not happen at all
            } else {
                case.abort(
                    "state",
                    format!("{what} ({k} polls, answered {answered:?}): registry is {got:?}; before {:?}, after it {:?}", view(&reg), view(&after)),
                );
            }
        }
        case.sample_events(8);
    })
}

/// Callers on several threads, some of whom leave at random moments.
fn c22_threads(case: &Case) {
    let mut rng = case.rng(0);
    let workers = rng.range(1, 3) as usize;
    let env = Real::new(case, &mut rng, workers, 50);
    for n in ["x", "y"] {
        env.add(case, n, &[(1_000_000, 20)], 1_000_000);
    }
    let stop = AtomicBool::new(false);
    let left = AtomicU64::new(0);
    let served = AtomicU64::new(0);
    let rounds = rng.range(15, 30);
    let seed = rng.u64();
    // strings the leaving callers share
    let shared: Vec<(String, Work)> = (0..40)
        .map(|_| {
            let p = env.challenge(case, "y");
            let w = proof(&mut rng, Proof::Right, &env.salt, &p.string, p.difficulty_factor, "y").unwrap();
            (p.string, w)
        })
        .collect();
    let wins: Vec<AtomicU64> = shared.iter().map(|_| AtomicU64::new(0)).collect();
    together(5, |i| {
        let mut rng = Rng::new(seed ^ mix(i as u64));
        if i < 2 {
            // one who waits
            for _ in 0..rounds {
                let p = env.challenge(case, "x");
                let w = proof(&mut rng, Proof::Right, &env.salt, &p.string, p.difficulty_factor, "x").unwrap();
                match env.submit(case, w, &format!("h{i}")) {
                    Ok((t, _)) => {
                        for want in [true, false] {
                            match env.validate(case, &t, "x") {
                                Ok(b) if b == want => {}
                                r => case.abort("answered-differently", format!("validation of one who waits: {r:?}, expected {want}")),
                            }
                        }
                    }
                    r => case.abort("refused", format!("correct submission of one who waits: {r:?}")),
                }
                served.fetch_add(1, SeqCst);
                case.tick();
            }
            if served.load(SeqCst) >= 2 * rounds || case.failed() {
                stop.store(true, SeqCst);
            }
        } else {
            let end = Instant::now() + Duration::from_secs(30);
            while !stop.load(SeqCst) && Instant::now() < end && !case.failed() {
                let k = rng.below(6);
                let pause = rng.below(60);
                macro_rules! leave {
                    ($f:expr) => {{
                        let mut f = Box::pin($f);
                        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                        let mut out = None;
                        for _ in 0..k {
                            if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                                out = Some(v);
                                break;
                            }
                            spin(pause);
                        }
                        left.fetch_add(1, SeqCst);
                        out
                    }};
                }
                match rng.below(8) {
                    5 => {
                        leave!(both(env.m.clone(), GetInternalData));
                    }
                    6 => {
                        let n = format!("z{}", rng.below(3));
                        leave!(both(env.m.clone(), RemoveCaptcha(n)));
                    }
                    7 => {
                        let n = format!("z{}", rng.below(3));
                        leave!(both(env.m.clone(), Rename { name: n, rename_to: format!("z{}", rng.below(3)) }));
                    }
                    0 => {
                        leave!(env.sys().get_pow("y".into()));
                    }
                    1 | 2 => {
                        let s = rng.below(shared.len() as u64) as usize;
                        let w = shared[s].1.clone();
                        if let Some(Ok(_)) = leave!(env.sys().verify_pow(w, format!("l{i}"))) {
                            wins[s].fetch_add(1, SeqCst);
                        }
                    }
                    3 => {
                        let v = VerifyCaptchaResult { token: rng.alnum(32), key: "y".into() };
                        leave!(env.sys().validate_verification_tokens(v));
                    }
                    _ => {
                        let n = format!("z{}", rng.below(3));
                        leave!(both(env.m.clone(), AddSite { id: n, mcaptcha: build_mcaptcha(&[(1, 2)], 5) }));
                    }
                }
            }
        }
    });
    // who comes back for an abandoned challenge gets at most one token in total
    for (s, (string, w)) in shared.iter().enumerate() {
        let r = env.submit(case, w.clone(), "back");
        let n = wins[s].load(SeqCst) + r.is_ok() as u64;
        if n > 1 {
            case.abort("redeemed-again", format!("challenge {string} earned {n} tokens"));
        }
        if env.submit(case, w.clone(), "back").is_ok() {
            case.abort("redeemed-again", format!("challenge {string} redeemed by two submissions in a row"));
        }
    }
    case.count("abandoned", left.load(SeqCst));
    case.count("honest_rounds", served.load(SeqCst));
    case.seen((workers, left.load(SeqCst) / 50, wins.iter().map(|w| w.load(SeqCst)).sum::<u64>()));
    case.ev(format!("{} served, {} left", served.load(SeqCst), left.load(SeqCst)));
    case.sample_events(4);
}

/// A whole system on Redis.
fn c22_redis(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let Ok(c) = RedisCache::new(fake.config(false)).await else { return case.count("undecided_slow_machine", 1) };
        let m = Master::new(NEVER).start();
        let c = c.start();
        let salt = rng.alnum(9);
        let sys = build(&m, &c, &salt, 2, 10);
        let msg = AddSite { id: "s".into(), mcaptcha: build_mcaptcha(&[(1_000_000, 12)], 600) };
        case.must(case.ask_rx(&m, msg, "AddSite").await, "AddSite");
        for _ in 0..rng.range(4, 12) {
            fake.jitter(rng.clone(), 500);
            let k = rng.below(12);
            let nap = rng.below(700);
            let slowly = |k: u64| async move {
                for _ in 0..k {
                    actix_rt::time::sleep(Duration::from_micros(nap)).await;
                }
            };
            // raced against a timer, so that it ends anywhere
            match rng.below(3) {
                0 => {
                    let _ = race(sys.get_pow("s".into()), slowly(k)).await;
                }
                1 => {
                    fake.calm();
                    if let Ok(Some(p)) = sys.get_pow("s".into()).await {
                        fake.jitter(rng.clone(), 500);
                        let w = proof(&mut rng, Proof::Right, &salt, &p.string, p.difficulty_factor, "s").unwrap();
                        let a = race(sys.verify_pow(w.clone(), "a".into()), slowly(k)).await;
                        fake.calm();
                        let b = sys.verify_pow(w, "b".into()).await;
                        if matches!(a, Some(Ok(_))) && b.is_ok() {
                            case.abort("redeemed-again", format!("challenge {} redeemed twice", p.string));
                        }
                    }
                }
                _ => {
                    let v = VerifyCaptchaResult { token: rng.alnum(32), key: "s".into() };
                    let _ = race(sys.validate_verification_tokens(v), slowly(k)).await;
                }
            }
            case.count("abandoned", 1);
            fake.calm();
            case.seen(("redis", k));
            let slow = |e: &CaptchaError| matches!(e, CaptchaError::RedisError(r) if r.is_timeout());
            match sys.get_pow("s".into()).await {
                Ok(Some(p)) => {
                    let w = proof(&mut rng, Proof::Right, &salt, &p.string, p.difficulty_factor, "s").unwrap();
                    match sys.verify_pow(w, "c".into()).await {
                        Ok((t, _)) => {
                            let v = VerifyCaptchaResult { token: t, key: "s".into() };
                            match sys.validate_verification_tokens(v).await {
                                Ok(true) => case.count("honest_rounds", 1),
                                Err(e) if slow(&e) => case.count("undecided_slow_machine", 1),
                                r => case.abort("answered-differently", format!("validation after a dropped request: {r:?}")),
                            }
                        }
                        Err(e) if slow(&e) => case.count("undecided_slow_machine", 1),
                        r => case.abort("refused", format!("correct submission after a dropped request: {r:?}")),
                    }
                }
                Err(e) if slow(&e) => case.count("undecided_slow_machine", 1),
                r => case.abort("no-challenge", format!("get_pow after a dropped request: {r:?}")),
            }
            case.tick();
        }
        case.sample_events(3);
    })
}
async fn race<F: Future>(f: F, until: impl Future<Output = ()>) -> Option<F::Output> {
    let (mut f, mut u) = (Box::pin(f), Box::pin(until));
    std::future::poll_fn(move |cx| {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
            return std::task::Poll::Ready(Some(v));
        }
        u.as_mut().poll(cx).map(|_| None)
    })
    .await
}

pub fn c22(ctx: &Arc<Ctx>) {
    ctx.rule("requests dropped after a random number of polls (0 to completion), alone and among others on several threads; what others are told, tokens per challenge, validations per token and the registry's state compared with the two possible outcomes of the dropped request");
    run_cases(ctx, "system", ctx.n(1500, 15000), 8, c22_system);
    run_cases(ctx, "actors", ctx.n(1500, 15000), 8, c22_actors);
    run_cases(ctx, "redis", ctx.n(80, 800), 6, c22_redis);
    run_cases(ctx, "threads", ctx.n(40, 500), 2, c22_threads);
    ctx.require("abandoned", 3000);
    ctx.require("honest_rounds", 600);
}
