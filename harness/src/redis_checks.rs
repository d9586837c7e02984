//! C17-C20: the Redis-backed cache and registry against the stand-in server
use crate::model::*;
use crate::redisfake::*;
use crate::system::{build, proof, together, Proof, WRONG};
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::errors::*;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::redis::mcaptcha_redis::MCaptchaRedis;
use libmcaptcha::redis::RedisConfig;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::oneshot::Receiver;

const LIMIT: Duration = Duration::from_secs(30);
/// once Redis answers again, how long until it is used again (its client backs off)
const RECOVERY: Duration = Duration::from_secs(25);

/// an answer too late for the client's own time limit: the machine's doing
fn slow(e: &CaptchaError) -> bool {
    matches!(e, CaptchaError::RedisError(r) if r.is_timeout())
}
struct Slow;
/// Results that must not fail; `Slow` ends the case undecided.
fn ok<T>(case: &Case, r: CaptchaResult<T>, what: impl Fn() -> String) -> T {
    match r {
        Ok(v) => v,
        Err(e) if slow(&e) => {
            case.count("undecided_slow_machine", 1);
            case.ev(format!("{}: client time limit", what()));
            std::panic::resume_unwind(Box::new(Slow))
        }
        Err(e) => case.abort("request-failed", format!("{}: {e:?}", what())),
    }
}
fn guarded(case: &Case, f: impl FnOnce(&Case)) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(case)));
    if let Err(p) = r {
        if !p.is::<Slow>() {
            std::panic::resume_unwind(p)
        }
    }
}
async fn req<A, M, T>(case: &Case, a: &Addr<A>, m: M, what: &str) -> CaptchaResult<T>
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = Receiver<CaptchaResult<T>>> + Send + 'static,
    T: Send + 'static,
{
    let f = async {
        match a.send(m).await {
            Err(e) => case.abort("not-answered", format!("{what}: the actor gave no answer: {e:?}")),
            Ok(rx) => match rx.await {
                Err(e) => case.abort("not-answered", format!("{what}: reply channel closed: {e:?}")),
                Ok(r) => r,
            },
        }
    };
    let r = tokio::time::timeout(LIMIT, f).await;
    case.tick();
    match r {
        Ok(r) => r,
        Err(_) => case.abort("not-answered", format!("{what}: no answer")),
    }
}
async fn cache_on(case: &Case, fake: &Fake, cluster: bool) -> Addr<RedisCache> {
    let r = RedisCache::new(fake.config(cluster)).await;
    ok(case, r, || "RedisCache::new".into()).start()
}
async fn master_on(case: &Case, fake: &Fake, cluster: bool) -> Addr<RMaster> {
    let r = RMaster::new(fake.config(cluster)).await;
    ok(case, r, || "Master::new".into()).start()
}
fn pow_msg(key: &str, string: &str, diff: u32, dur: u64) -> CachePoW {
    CachePoWBuilder::default()
        .string(string.into())
        .difficulty_factor(diff)
        .duration(dur)
        .key(key.into())
        .build()
        .unwrap()
}
fn tok_msg(key: &str, token: &str, dur: u64) -> CacheResult {
    CacheResult { token: token.into(), key: key.into(), duration: dur }
}
fn look(key: &str, token: &str) -> VerifyCaptchaResult {
    VerifyCaptchaResult { token: token.into(), key: key.into() }
}

// ------------------------------------------------------------------ C17
/// text in which separators and escapes are frequent
fn part(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.name(),
        1 => rng.alnum(32),
        _ => {
            const A: &[&str] = &[":", ":", ":", "a", "b", "1", "2", "%", "3A", "\\", "/", "-", "{", "}", " ", "\0", "é"];
            let n = rng.below(6);
            (0..n).map(|_| *rng.pick(A)).collect()
        }
    }
}
/// pairs that a careless encoding may confuse with (k, t)
fn confusable(rng: &mut Rng, k: &str, t: &str) -> (String, String) {
    let cut = |s: &str, rng: &mut Rng| {
        let at: Vec<usize> = s.char_indices().map(|c| c.0).chain([s.len()]).collect();
        let i = *rng.pick(&at);
        (s[..i].to_string(), s[i..].to_string())
    };
    match rng.below(9) {
        0..=2 => {
            // another split of the joined text at a separator
            let joined = format!("{k}:{t}");
            let at: Vec<usize> = joined.match_indices(':').map(|m| m.0).collect();
            let i = *rng.pick(&at);
            (joined[..i].into(), joined[i + 1..].into())
        }
        3 => cut(&format!("{k}{t}"), rng),
        4 => (t.into(), k.into()),
        5 => (rng.near_miss(k), t.into()),
        6 => (k.into(), rng.near_miss(t)),
        7 => (k.replace('a', "b"), t.into()),
        _ => (part(rng), t.into()),
    }
}

fn c17_cache(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let n = rng.range(1, 3);
        let mut caches = vec![];
        for _ in 0..n {
            caches.push(cache_on(case, &fake, rng.chance(1, 4)).await);
        }
        let direct = ok(case, MCaptchaRedis::new(fake.config(false)).await, || "MCaptchaRedis::new".into()).get_client();
        fake.take_log();
        let mut tokens: BTreeMap<(String, String), u64> = BTreeMap::new();
        let mut gone: Vec<(String, String)> = vec![];
        let mut chs: BTreeMap<(String, String), (u32, u64, u64)> = BTreeMap::new();
        let mut ch_gone: Vec<(String, String)> = vec![];
        let mut now = fake.st(|s| s.now);
        let steps = rng.range(40, 160);
        for _ in 0..steps {
            tokens.retain(|k, t| *t > now || { gone.push(k.clone()); false });
            chs.retain(|k, c| c.2 > now || { ch_gone.push(k.clone()); false });
            let c = rng.pick(&caches).clone();
            let dur = *rng.pick(&[1, 2, 30, 86_400, 4_294_967_296, rng.clone().range(1, 1000)]);
            let mut looked_up = true;
            match rng.below(10) {
                0 | 1 => {
                    // store a token
                    let p = if rng.chance(1, 2) && !tokens.is_empty() {
                        let v: Vec<_> = tokens.keys().cloned().collect();
                        let (k, t) = rng.pick(&v).clone();
                        confusable(&mut rng, &k, &t)
                    } else {
                        (part(&mut rng), part(&mut rng))
                    };
                    if tokens.contains_key(&p) {
                        continue;
                    }
                    case.ev(format!("store token {:?} of {:?} for {dur} s", p.1, p.0));
                    let before = fake.st(|s| s.keys.clone());
                    ok(case, req(case, &c, tok_msg(&p.0, &p.1, dur), "CacheResult").await, || {
                        format!("storing token {p:?}")
                    });
                    let after = fake.st(|s| s.keys.clone());
                    let new: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).collect();
                    if new.len() != 1 || new[0].1 .1 != Some(now + dur * 1000) {
                        case.abort(
                            "lifetime",
                            format!("token {p:?} stored for {dur} s: server has {new:?} at {now}, expected one entry until {}", now + dur * 1000),
                        );
                    }
                    tokens.insert(p, now + dur * 1000);
                    case.count("tokens_stored", 1);
                    looked_up = false;
                }
                2..=4 => {
                    // validate
                    let v: Vec<_> = tokens.keys().chain(gone.iter()).cloned().collect();
                    let mut p = if v.is_empty() { (part(&mut rng), part(&mut rng)) } else { rng.pick(&v).clone() };
                    if rng.chance(2, 3) {
                        p = confusable(&mut rng, &p.0, &p.1);
                    }
                    let expect = tokens.contains_key(&p);
                    let got = ok(case, req(case, &c, look(&p.0, &p.1), "VerifyCaptchaResult").await, || {
                        format!("validating {p:?}")
                    });
                    case.ev(format!("validate token {:?} of {:?}: {got}", p.1, p.0));
                    if got != expect {
                        case.abort(
                            "token-verdict",
                            format!("token {:?} for site {:?} validates {got}, expected {expect}; stored: {tokens:?}", p.1, p.0),
                        );
                    }
                    if tokens.remove(&p).is_some() {
                        gone.push(p.clone());
                        case.count("tokens_accepted", 1);
                    } else {
                        case.count("tokens_refused", 1);
                    }
                    case.seen(("v", &p, expect));
                }
                5 | 6 => {
                    let p = if rng.chance(1, 2) && !chs.is_empty() {
                        let v: Vec<_> = chs.keys().cloned().collect();
                        let (k, t) = rng.pick(&v).clone();
                        confusable(&mut rng, &k, &t)
                    } else {
                        (part(&mut rng), part(&mut rng))
                    };
                    if chs.contains_key(&p) {
                        continue;
                    }
                    let diff = *rng.pick(&[1, 5, u32::MAX, 77_000, rng.clone().u64() as u32]);
                    let dur = *rng.pick(&[dur, 7, 1 << 50]);
                    case.ev(format!("store challenge {:?} of {:?}, difficulty {diff}, for {dur} s", p.1, p.0));
                    ok(case, req(case, &c, pow_msg(&p.0, &p.1, diff, dur), "CachePoW").await, || {
                        format!("storing challenge {p:?}")
                    });
                    let at = fake.st(|s| s.challenges.get(&(p.0.as_bytes().to_vec(), p.1.as_bytes().to_vec())).cloned());
                    let want = RChallenge { difficulty: diff, duration: dur, until: now + dur * 1000 };
                    if at.as_ref() != Some(&want) {
                        case.abort("challenge-stored", format!("challenge {p:?}: server has {at:?}, expected {want:?}"));
                    }
                    chs.insert(p, (diff, dur, now + dur * 1000));
                    case.count("challenges_stored", 1);
                    looked_up = false;
                }
                7 | 8 => {
                    let v: Vec<_> = chs.keys().chain(ch_gone.iter()).cloned().collect();
                    let mut p = if v.is_empty() { (part(&mut rng), part(&mut rng)) } else { rng.pick(&v).clone() };
                    if rng.chance(1, 2) {
                        p = confusable(&mut rng, &p.0, &p.1);
                    }
                    let expect = chs.remove(&p);
                    let got = req(case, &c, RetrivePoW(look(&p.0, &p.1)), "RetrivePoW").await;
                    case.ev(format!("retrieve challenge {:?} of {:?}: {got:?}", p.1, p.0));
                    let good = match (&expect, &got) {
                        (Some((d, t, _)), Ok(Some(c))) => {
                            ch_gone.push(p.clone());
                            c.key == p.0 && c.difficulty_factor == *d && c.duration == *t
                        }
                        (None, Ok(None)) | (None, Err(_)) => true,
                        (Some(_), Err(e)) if slow(e) => ok(case, Err(CaptchaError::MailboxError), || "slow".into()),
                        _ => false,
                    };
                    if !good {
                        case.abort("challenge-verdict", format!("challenge {p:?}: got {got:?}, stored was {expect:?}"));
                    }
                    case.count(if expect.is_some() { "challenges_returned" } else { "challenges_refused" }, 1);
                    case.seen(("c", &p, expect.is_some()));
                }
                _ => match rng.below(4) {
                    0 => {
                        // delete one directly; the rest must stay
                        let v: Vec<_> = tokens.keys().cloned().collect();
                        if v.is_empty() {
                            continue;
                        }
                        let mut p = rng.pick(&v).clone();
                        if rng.chance(1, 2) {
                            p = confusable(&mut rng, &p.0, &p.1);
                        }
                        case.ev(format!("delete token {p:?}"));
                        ok(case, direct.delete_token(&look(&p.0, &p.1)).await, || format!("deleting {p:?}"));
                        if tokens.remove(&p).is_some() {
                            gone.push(p);
                        }
                    }
                    1 => {
                        let v: Vec<_> = chs.keys().cloned().collect();
                        if v.is_empty() {
                            continue;
                        }
                        let p = rng.pick(&v).clone();
                        case.ev(format!("delete challenge {p:?}"));
                        ok(case, direct.delete_challenge(&look(&p.0, &p.1)).await, || format!("deleting {p:?}"));
                        chs.remove(&p);
                        ch_gone.push(p);
                    }
                    _ => {
                        // to just before, at or after an expiry
                        let v: Vec<u64> = tokens.values().cloned().chain(chs.values().map(|c| c.2)).collect();
                        let t = if v.is_empty() || rng.chance(1, 3) {
                            now + rng.range(1, 3000)
                        } else {
                            let t = *v.iter().min().unwrap();
                            rng.pick(&[t - 1, t, t + 1]).max(&now).to_owned()
                        };
                        fake.advance(t - now);
                        now = t;
                        case.ev(format!("server clock {t}"));
                        looked_up = false;
                    }
                },
            }
            let log = fake.take_log();
            if looked_up && log.len() != 1 {
                case.abort(
                    "not-atomic",
                    format!("one lookup took {} commands: {:?}", log.len(), log.iter().map(|e| e.texts()).collect::<Vec<_>>()),
                );
            }
            case.count("commands_seen", log.len() as u64);
        }
        case.sample_events(12);
    })
}

/// several servers sharing one Redis look up the same entries at the same moment
fn c17_race(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    let n = rng.range(2, 4) as usize;
    let rounds = rng.range(10, 25);
    let clusters: Vec<bool> = (0..n).map(|_| rng.chance(1, 4)).collect();
    let b = Barrier::new(n);
    let (won, board) = (Mutex::new(vec![]), Mutex::new((String::new(), String::new(), false)));
    let seed = rng.u64();
    let jit = rng.clone();
    together(n, |i| {
        real_time(async {
            // nobody may leave the others waiting: failures are recorded, not thrown
            let c = RedisCache::new(fake.config(clusters[i])).await.map(|c| c.start());
            b.wait();
            if i == 0 {
                fake.jitter(jit.clone(), 400);
            }
            for round in 0..rounds {
                let mut rng = Rng::new(seed ^ mix(round));
                let (key, tok) = (part(&mut rng), rng.alnum(32));
                let token = rng.chance(1, 2);
                if i == 0 {
                    let r = match &c {
                        Err(e) => Err(format!("{e:?}")),
                        Ok(c) if token => reply(c, tok_msg(&key, &tok, 30)).await.map(|_| ()),
                        Ok(c) => reply(c, pow_msg(&key, &tok, 7, 30)).await.map(|_| ()),
                    };
                    *board.lock().unwrap() = (key.clone(), tok.clone(), r.is_ok());
                }
                b.wait();
                let mut me = rng.clone();
                for _ in 0..i {
                    me.u64();
                }
                me = Rng::new(me.u64());
                let stray = me.chance(1, 4) && i > 0;
                let k = if stray { me.near_miss(&key) } else { key.clone() };
                let r = match &c {
                    Err(e) => Err(format!("{e:?}")),
                    Ok(c) if token => reply(c, look(&k, &tok)).await,
                    Ok(c) => match reply(c, RetrivePoW(look(&k, &tok))).await {
                        Ok(Some(_)) => Ok(true),
                        Ok(None) => Ok(false),
                        // the module says "no such challenge" with an error
                        Err(e) if e.contains("not found") => Ok(false),
                        Err(e) => Err(e),
                    },
                };
                won.lock().unwrap().push((i, stray, r));
                b.wait();
                if i == 0 {
                    let w = std::mem::take(&mut *won.lock().unwrap());
                    let stored = board.lock().unwrap().2;
                    let what = if token { "token" } else { "challenge" };
                    case.ev(format!("round {round}: {what} {tok:?} of {key:?} stored {stored}: {w:?}"));
                    let accepted = w.iter().filter(|x| x.2 == Ok(true)).count();
                    let strays = w.iter().filter(|x| x.1 && x.2 == Ok(true)).count();
                    let errors: Vec<_> = w.iter().filter_map(|x| x.2.as_ref().err()).collect();
                    let late = errors.iter().any(|e| e.contains("timed out") || e.contains("Timeout"));
                    if strays > 0 {
                        case.fail("wrong-site", format!("{what} of {key:?} accepted for another site: {w:?}"));
                    } else if accepted > 1 {
                        case.fail("accepted-twice", format!("{what} accepted {accepted} times by {n} servers: {w:?}"));
                    } else if late || !stored {
                        case.count("undecided_slow_machine", 1);
                    } else if !errors.is_empty() {
                        case.fail("request-failed", format!("{what} of {key:?}: {w:?}"));
                    } else if accepted == 0 {
                        case.fail("accepted-never", format!("{what} of {key:?}, stored before, accepted by none of {n}: {w:?}"));
                    } else {
                        case.count("races_decided", 1);
                        let order: Vec<_> = fake.take_log().iter().map(|e| (e.conn % 7, e.name())).collect();
                        case.seen((n, token, w.iter().map(|x| (x.0, x.1, x.2 == Ok(true))).collect::<Vec<_>>(), order.len()));
                    }
                }
                b.wait();
            }
        })
    });
    case.sample_events(6);
}
async fn reply<A, M, T>(a: &Addr<A>, m: M) -> Result<T, String>
where
    A: Actor + Handler<M>,
    A::Context: actix::dev::ToEnvelope<A, M>,
    M: Message<Result = Receiver<CaptchaResult<T>>> + Send + 'static,
    T: Send + 'static,
{
    let f = async {
        match a.send(m).await {
            Err(e) => Err(format!("no answer: {e:?}")),
            Ok(rx) => match rx.await {
                Err(e) => Err(format!("closed: {e:?}")),
                Ok(r) => r.map_err(|e| if slow(&e) { "timed out".into() } else { format!("{e:?}") }),
            },
        }
    };
    tokio::time::timeout(LIMIT, f).await.unwrap_or(Err("no answer at all".into()))
}

/// whole systems on one Redis: the same proof and the same token presented to both
fn c17_systems(case: &Case) {
    use libmcaptcha::master::embedded::master::Master;
    let mut rng = case.rng(0);
    let fake = Fake::new();
    let n = rng.range(2, 3) as usize;
    let rounds = rng.range(6, 14);
    let seed = rng.u64();
    let salt = rng.alnum(20);
    let b = Barrier::new(n);
    let board: Mutex<Option<(String, u32)>> = Mutex::new(None);
    let subs: Mutex<Vec<(usize, Option<Result<String, String>>)>> = Mutex::new(vec![]);
    let vals: Mutex<Vec<Result<bool, String>>> = Mutex::new(vec![]);
    let jit = rng.clone();
    together(n, |i| {
        real_time(async {
            let cache = RedisCache::new(fake.config(false)).await.map(|c| c.start());
            let master = Master::new(20_000_000).start();
            let sys = cache.as_ref().ok().map(|c| build(&master, c, &salt, 2, 50));
            let names = ["site", "si:te", "other"];
            for (k, name) in names.iter().enumerate() {
                let m = AddSite { id: name.to_string(), mcaptcha: build_mcaptcha(&[(1, 3 + k as u32), (4, 60)], 30) };
                let _ = reply(&master, m).await;
            }
            if i == 0 {
                fake.jitter(jit.clone(), 300);
            }
            b.wait();
            for round in 0..rounds {
                let mut rng = Rng::new(seed ^ mix(round));
                let name = *rng.pick(&names);
                if i == 0 {
                    let r = match &sys {
                        Some(s) => s.get_pow(name.into()).await.map_err(|e| format!("{e:?}")),
                        None => Err("no system".into()),
                    };
                    *board.lock().unwrap() = match r {
                        Ok(Some(p)) => Some((p.string, p.difficulty_factor)),
                        r => {
                            case.ev(format!("get_pow: {r:?}"));
                            None
                        }
                    };
                }
                b.wait();
                let ch = board.lock().unwrap().clone();
                if let (Some((string, diff)), Some(sys)) = (&ch, &sys) {
                    let wrong_round = rng.chance(1, 4);
                    let kind = if wrong_round { *rng.pick(&WRONG) } else { Proof::Right };
                    let w = proof(&mut rng, kind, &salt, string, *diff, name);
                    let r = match w {
                        None => None,
                        Some(w) => Some(
                            sys.verify_pow(w, format!("10.0.0.{i}"))
                                .await
                                .map(|t| t.0)
                                .map_err(|e| if slow(&e) { "timed out".into() } else { format!("{e:?}") }),
                        ),
                    };
                    subs.lock().unwrap().push((wrong_round as usize, r));
                }
                b.wait();
                let s = subs.lock().unwrap().clone();
                let granted: Vec<String> = s.iter().filter_map(|x| x.1.clone()?.ok()).collect();
                if i == 0 {
                    case.ev(format!("round {round}: {name:?} {ch:?}: {s:?}"));
                    let wrong = s.iter().any(|x| x.0 == 1);
                    let late = s.iter().any(|x| matches!(&x.1, Some(Err(e)) if e == "timed out"));
                    let skipped = s.iter().any(|x| x.1.is_none());
                    if granted.len() > 1 {
                        case.fail("accepted-twice", format!("one challenge earned {} tokens: {s:?}", granted.len()));
                    } else if wrong && !granted.is_empty() {
                        case.fail("granted", format!("a wrong proof earned a token: {s:?}"));
                    } else if !wrong && granted.is_empty() && !late && !skipped && ch.is_some() && !s.is_empty() {
                        case.fail("accepted-never", format!("a correct proof presented to {n} systems earned no token: {s:?}"));
                    }
                }
                if let (Some(t), Some(sys)) = (granted.first(), &sys) {
                    let other = rng.near_miss(name);
                    let r0 = sys.validate_verification_tokens(look(&other, t)).await;
                    if matches!(r0, Ok(true)) {
                        case.fail("wrong-site", format!("token of {name:?} validates for {other:?}"));
                    }
                    b.wait();
                    let r = sys
                        .validate_verification_tokens(look(name, t))
                        .await
                        .map_err(|e| if slow(&e) { "timed out".into() } else { format!("{e:?}") });
                    vals.lock().unwrap().push(r);
                } else {
                    b.wait();
                }
                b.wait();
                if i == 0 {
                    let v = std::mem::take(&mut *vals.lock().unwrap());
                    subs.lock().unwrap().clear();
                    let yes = v.iter().filter(|x| **x == Ok(true)).count();
                    if yes > 1 {
                        case.fail("accepted-twice", format!("one token validated {yes} times: {v:?}"));
                    } else if !v.is_empty() && yes == 0 && v.iter().all(|x| x.is_ok()) {
                        case.fail("accepted-never", format!("a fresh token validated nowhere: {v:?}"));
                    } else if v.iter().any(|x| matches!(x, Err(e) if e != "timed out")) {
                        case.fail("request-failed", format!("validation: {v:?}"));
                    } else if yes == 1 {
                        case.count("system_races_decided", 1);
                    }
                    fake.take_log();
                    case.seen(("sys", n, granted.len(), yes, round));
                }
                b.wait();
            }
            drop(sys);
        })
    });
    case.sample_events(6);
}

pub fn c17(ctx: &Arc<Ctx>) {
    ctx.rule("every lookup through a Redis-backed cache compared with a model of entries keyed by the exact (site, token) pair and the server's own clock; lifetimes read from the server's key space; commands per lookup counted; simultaneous lookups by several servers counted per entry");
    run_cases(ctx, "cache", ctx.n(1500, 15000), 8, |c| guarded(c, c17_cache));
    run_cases(ctx, "race", ctx.n(400, 4000), 3, |c| guarded(c, c17_race));
    run_cases(ctx, "systems", ctx.n(80, 800), 2, |c| guarded(c, c17_systems));
    ctx.require("tokens_accepted", 200);
    ctx.require("challenges_returned", 200);
    ctx.require("races_decided", 60);
    ctx.require("system_races_decided", 20);
}

// ------------------------------------------------------------------ C18
#[derive(Clone, Debug)]
enum Rq {
    Visit(String),
    Add(String, Vec<(u32, u32)>, u64),
    Rename(String, String),
    Remove(String),
}
impl Rq {
    fn random(rng: &mut Rng, names: &[String]) -> Rq {
        let n = rng.pick(names).clone();
        match rng.below(8) {
            0..=3 => Rq::Visit(n),
            4 | 5 => {
                let (ml, mt, md) = *rng.pick(&[(1, 5, 5), (4, 20, 50), (9, u32::MAX, u32::MAX)]);
                let lv = gen_levels(rng, ml, mt, md);
                let dur = *rng.pick(&[1, 30, 100_000, 1 << 40]);
                Rq::Add(n, lv, dur)
            }
            6 => Rq::Rename(n, rng.pick(names).clone()),
            _ => Rq::Remove(n),
        }
    }
    fn matches(&self, e: &Entry) -> bool {
        let t = e.texts();
        let bytes = |i: usize, s: &str| e.args.get(i).map(|a| a == s.as_bytes()).unwrap_or(false);
        match self {
            Rq::Visit(n) => e.name() == "MCAPTCHA_CACHE.ADD_VISITOR" && t.len() == 2 && bytes(1, n),
            Rq::Rename(a, b) => {
                e.name() == "MCAPTCHA_CACHE.RENAME_CAPTCHA" && t.len() == 3 && bytes(1, a) && bytes(2, b)
            }
            Rq::Remove(n) => e.name() == "MCAPTCHA_CACHE.DELETE_CAPTCHA" && t.len() == 2 && bytes(1, n),
            Rq::Add(n, l, d) => {
                e.name() == "MCAPTCHA_CACHE.ADD_CAPTCHA"
                    && t.len() == 3
                    && bytes(1, n)
                    && serde_json::from_str::<J>(&t[2]).ok().and_then(|j| parse_captcha(&j)) == Some((l.clone(), *d))
            }
        }
    }
    /// send now, answer later
    fn send(&self, m: &Addr<RMaster>, rng: &mut Rng) -> Pin<Box<dyn Future<Output = Result<Option<(u64, u32)>, String>>>> {
        fn flat<T>(
            r: Result<Receiver<CaptchaResult<T>>, MailboxError>,
        ) -> Pin<Box<dyn Future<Output = Result<T, String>>>>
        where
            T: 'static,
        {
            Box::pin(async {
                match r {
                    Err(e) => Err(format!("no answer: {e:?}")),
                    Ok(rx) => match rx.await {
                        Err(e) => Err(format!("closed: {e:?}")),
                        Ok(Ok(v)) => Ok(v),
                        Ok(Err(e)) if slow(&e) => Err("timed out".into()),
                        Ok(Err(e)) => Err(format!("refused: {e:?}")),
                    },
                }
            })
        }
        match self {
            Rq::Visit(n) => {
                let f = m.send(AddVisitor(n.clone()));
                Box::pin(async {
                    Ok(flat(f.await).await?.map(|v| (v.duration, v.difficulty_factor)))
                })
            }
            Rq::Add(n, l, d) => {
                let mut mc = build_mcaptcha(l, *d);
                // a site that has been in use is registered by its configuration
                for _ in 0..rng.below(4) {
                    mc.add_visitor();
                }
                let f = m.send(AddSite { id: n.clone(), mcaptcha: mc });
                Box::pin(async { flat(f.await).await.map(|_| None) })
            }
            Rq::Rename(a, b) => {
                let f = m.send(Rename { name: a.clone(), rename_to: b.clone() });
                Box::pin(async { flat(f.await).await.map(|_| None) })
            }
            Rq::Remove(n) => {
                let f = m.send(RemoveCaptcha(n.clone()));
                Box::pin(async { flat(f.await).await.map(|_| None) })
            }
        }
    }
}
/// A visitor the server refuses may be followed by the question whether the site exists at
/// all. Takes these questions out of the log: (command, "the site doesn't exist").
fn fold(log: Vec<Entry>) -> Vec<(Entry, bool)> {
    let mut out: Vec<(Entry, bool)> = vec![];
    // requests whose follow-up question has been seen
    let mut asked: HashSet<usize> = HashSet::new();
    for e in log {
        if e.name() == "MCAPTCHA_CACHE.CAPTCHA_EXISTS" && e.args.len() == 2 {
            let of = out.iter().enumerate().rposition(|(i, (v, _))| {
                v.name() == "MCAPTCHA_CACHE.ADD_VISITOR"
                    && v.args.get(1) == e.args.get(1)
                    && matches!(v.reply, Some(Reply::Err(_)))
                    && !asked.contains(&i)
            });
            if let Some(i) = of {
                asked.insert(i);
                out[i].1 = matches!(e.reply, Some(Reply::Int(1)));
                continue;
            }
        }
        out.push((e, false));
    }
    out
}
/// what the server's answer means for the caller
fn meaning((e, unknown): &(Entry, bool)) -> Result<Option<(u64, u32)>, ()> {
    match e.reply.as_ref() {
        Some(Reply::Err(_)) if *unknown => Ok(None),
        Some(Reply::Err(_)) | None => Err(()),
        Some(Reply::Bulk(b)) if e.name() == "MCAPTCHA_CACHE.ADD_VISITOR" => {
            let j: J = serde_json::from_slice(b).map_err(|_| ())?;
            Ok(Some((j["duration"].as_u64().ok_or(())?, j["difficulty_factor"].as_u64().ok_or(())? as u32)))
        }
        _ => Ok(None),
    }
}
fn site_names(rng: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = (0..rng.range(2, 6)).map(|_| rng.name()).collect();
    let n = rng.near_miss(&v[0].clone());
    v.push(n);
    v.push(["a\r\nb", "$5\r\nhello", "*1", "é\u{0}", "--", "EX 10"][rng.below(6) as usize].into());
    v
}
fn c18_forward(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let m = master_on(case, &fake, rng.chance(1, 4)).await;
        let con = ok(case, MCaptchaRedis::new(fake.config(rng.chance(1, 4))).await, || "connect".into()).get_client();
        fake.take_log();
        let names = site_names(&mut rng);
        for _ in 0..rng.range(30, 120) {
            let n = rng.pick(&names).clone();
            if rng.chance(1, 4) {
                // queries
                let raw = *rng.pick(&[0i64, 1, 2, 500, u32::MAX as i64, i64::MAX, 7]);
                let exists = rng.chance(1, 2);
                let scripted = rng.chance(1, 2);
                if scripted {
                    fake.once(Fault::Instead(Reply::Int(raw)));
                }
                let cmd = if exists { "MCAPTCHA_CACHE.CAPTCHA_EXISTS" } else { "MCAPTCHA_CACHE.GET" };
                let (got, e) = if exists {
                    (con.check_captcha_exists(&n).await.map(|b| b as u64), fake.take_log())
                } else {
                    (con.get_visitors(&n).await.map(|b| b as u64), fake.take_log())
                };
                fake.calm();
                if matches!(&got, Err(e) if slow(e)) {
                    ok(case, got, || cmd.into());
                    return;
                }
                if e.len() != 1 || e[0].name() != cmd || e[0].args.len() != 2 || e[0].args[1] != n.as_bytes() {
                    case.abort("command", format!("{cmd} for {n:?} sent {e:?}"));
                }
                let want = match (&e[0].reply, exists) {
                    (Some(Reply::Int(0)), true) => Some(1),
                    (Some(Reply::Int(1)), true) => Some(0),
                    (Some(Reply::Int(v)), false) => Some(*v as u64),
                    _ => None,
                };
                case.ev(format!("{cmd} {n:?}: server {:?}, caller {got:?}", e[0].reply));
                if got.as_ref().ok() != want.as_ref() {
                    case.abort("answer", format!("{cmd} {n:?}: server said {:?}, caller was told {got:?}", e[0].reply));
                }
                case.seen((exists, &n, want));
                case.count("queries", 1);
                continue;
            }
            let r = Rq::random(&mut rng, &names);
            if matches!(r, Rq::Visit(_)) && rng.chance(1, 2) {
                let d = *rng.pick(&[0, 1, u64::MAX, i64::MAX as u64 + 1, 30]);
                let f = *rng.pick(&[0, 1, u32::MAX, 500]);
                let t = match rng.below(3) {
                    0 => format!("{{\"duration\":{d},\"difficulty_factor\":{f}}}"),
                    1 => format!("{{\"difficulty_factor\":{f},\"duration\":{d}}}"),
                    _ => format!(" {{ \"duration\" : {d} ,\n \"difficulty_factor\" : {f} }} "),
                };
                fake.once(Fault::Instead(Reply::bulk(t)));
            }
            let got = match tokio::time::timeout(LIMIT, r.send(&m, &mut rng)).await {
                Ok(g) => g,
                Err(_) => case.abort("not-answered", format!("{r:?}: no answer")),
            };
            fake.calm();
            let log = fold(fake.take_log());
            case.tick();
            if got == Err("timed out".into()) {
                case.count("undecided_slow_machine", 1);
                return;
            }
            case.ev(format!("{r:?} -> {:?} -> {got:?}", log.iter().map(|e| e.0.texts()).collect::<Vec<_>>()));
            if log.len() != 1 || !r.matches(&log[0].0) {
                case.abort(
                    "command",
                    format!("{r:?} sent {:?}", log.iter().map(|e| e.0.texts()).collect::<Vec<_>>()),
                );
            }
            if log[0].1 {
                case.count("visitors_of_unknown_sites", 1);
            }
            let want = meaning(&log[0]);
            let good = match (&want, &got) {
                (Ok(w), Ok(g)) => w == g,
                (Err(_), Err(e)) => e.starts_with("refused"),
                _ => false,
            };
            if !good {
                case.abort("answer", format!("{r:?}: server said {:?}, caller was told {got:?}", log[0].0.reply));
            }
            case.count("requests_forwarded", 1);
            case.seen((format!("{r:?}"), want.is_ok()));
        }
        case.sample_events(8);
    })
}
/// many requests at once, some of whose senders do not wait
fn c18_order(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let m = master_on(case, &fake, rng.chance(1, 5)).await;
        let names = site_names(&mut rng);
        for _ in 0..rng.range(4, 10) {
            fake.take_log();
            fake.jitter(rng.clone(), 300);
            let k = rng.range(2, 14);
            let mut sent = vec![];
            let mut futs: VecDeque<_> = VecDeque::new();
            for _ in 0..k {
                let r = Rq::random(&mut rng, &names);
                let f = r.send(&m, &mut rng);
                sent.push(r);
                futs.push_back(f);
            }
            let mut answers = vec![];
            while let Some(f) = futs.pop_front() {
                match tokio::time::timeout(LIMIT, f).await {
                    Ok(a) => answers.push(a),
                    Err(_) => case.abort("not-answered", "request of a burst not answered"),
                }
                case.tick();
            }
            fake.calm();
            if answers.iter().any(|a| *a == Err("timed out".into())) {
                case.count("undecided_slow_machine", 1);
                return;
            }
            let log = fold(fake.take_log());
            case.ev(format!("sent {sent:?}; server saw {:?}", log.iter().map(|e| e.0.texts()).collect::<Vec<_>>()));
            if log.len() != sent.len() {
                case.abort("command", format!("{} requests became {} commands", sent.len(), log.len()));
            }
            for (i, r) in sent.iter().enumerate() {
                if !r.matches(&log[i].0) {
                    case.abort("order", format!("request {i} ({r:?}) of the burst: server saw {:?} in its place", log[i].0.texts()));
                }
                let want = meaning(&log[i]);
                let good = match (&want, &answers[i]) {
                    (Ok(w), Ok(g)) => w == g,
                    (Err(_), Err(e)) => e.starts_with("refused"),
                    _ => false,
                };
                if !good {
                    case.abort("answer", format!("{r:?}: server said {:?}, caller was told {:?}", log[i].0.reply, answers[i]));
                }
            }
            case.count("bursts", 1);
            case.count("burst_requests", k);
            case.seen(("burst", sent.iter().map(|r| format!("{r:?}").chars().next()).collect::<Vec<_>>()));
        }
        case.sample_events(3);
    })
}
/// exporting and importing state: one case each
fn c18_snapshot(case: &Case, export: bool) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let m = master_on(case, &fake, false).await;
        fake.take_log();
        let mark = panic_mark();
        let r = if export {
            reply(&m, GetInternalData).await.map(|_| ())
        } else {
            let d = [(rng.name(), build_mcaptcha(&[(1, 2)], 30))].into_iter().collect();
            reply(&m, SetInternalData { mcaptcha: d }).await
        };
        case.count("snapshots", 1);
        case.ev(format!("{r:?}"));
        if panics_since(mark).is_empty() {
            // whatever it said, the registry has to be there afterwards
            let msg = AddSite { id: "x".into(), mcaptcha: build_mcaptcha(&[(1, 2)], 30) };
            ok(case, req(case, &m, msg, "AddSite afterwards").await, || "AddSite afterwards".into());
            case.check(r.is_err() || !fake.take_log().is_empty(), "made-up-success", || {
                "succeeded without asking the server".to_string()
            });
        }
    })
}

pub fn c18(ctx: &Arc<Ctx>) {
    ctx.rule("the server's command log compared with the requests sent, argument by argument and in order; what callers were told compared with what the server answered (real and scripted extreme answers)");
    run_cases(ctx, "forward", ctx.n(1500, 15000), 8, |c| guarded(c, c18_forward));
    run_cases(ctx, "order", ctx.n(800, 8000), 6, |c| guarded(c, c18_order));
    run_cases(ctx, "export", 1, 1, |c| guarded(c, |c| c18_snapshot(c, true)));
    run_cases(ctx, "import", 1, 1, |c| guarded(c, |c| c18_snapshot(c, false)));
    ctx.require("requests_forwarded", 1000);
    ctx.require("queries", 300);
    ctx.require("bursts", 200);
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Visit,
    Add,
    Rename,
    Remove,
    StorePow,
    GetPow,
    StoreToken,
    Validate,
    Visitors,
    Exists,
    AddChallenge,
    GetChallenge,
    DelChallenge,
    AddToken,
    GetToken,
    DelToken,
}
const OPS: [Op; 16] = [
    Op::Visit,
    Op::Add,
    Op::Rename,
    Op::Remove,
    Op::StorePow,
    Op::GetPow,
    Op::StoreToken,
    Op::Validate,
    Op::Visitors,
    Op::Exists,
    Op::AddChallenge,
    Op::GetChallenge,
    Op::DelChallenge,
    Op::AddToken,
    Op::GetToken,
    Op::DelToken,
];
struct Rig {
    cache: Addr<RedisCache>,
    master: Addr<RMaster>,
    redis: MCaptchaRedis,
}
impl Rig {
    async fn new(case: &Case, fake: &Fake, cluster: bool) -> Rig {
        Rig {
            cache: cache_on(case, fake, cluster).await,
            master: master_on(case, fake, cluster).await,
            redis: ok(case, MCaptchaRedis::new(fake.config(cluster)).await, || "connect".into()),
        }
    }
    /// The server prepared so that `op` succeeds with the given answer.
    fn prepare(fake: &Fake, tag: u32) {
        fake.st(|s| {
            let site = format!("s{tag}").into_bytes();
            let other = format!("r{tag}").into_bytes();
            let x = RSite { levels: vec![(1000, tag + 1)], duration: tag as u64 + 5, level: 0, visitors: vec![] };
            s.sites.insert(site.clone(), x.clone());
            s.sites.insert(other, x);
            s.challenges.insert(
                (site, format!("c{tag}").into_bytes()),
                RChallenge { difficulty: tag + 1, duration: tag as u64 + 5, until: u64::MAX },
            );
        })
    }
    /// does `op` on names of its own; Ok(what it was told)
    async fn run(&self, case: &Case, op: Op, tag: u32) -> CaptchaResult<String> {
        let site = format!("s{tag}");
        let ren = format!("r{tag}");
        let ch = format!("c{tag}");
        let what = format!("{op:?}");
        let con = self.redis.get_client();
        let mc = || build_mcaptcha(&[(1000, tag + 1)], tag as u64 + 5);
        let v = |d: u64, f: u32| format!("{d}/{f}");
        Ok(match op {
            Op::Visit => {
                let r = req(case, &self.master, AddVisitor(site), &what).await?;
                r.map(|r| v(r.duration, r.difficulty_factor)).unwrap_or("none".into())
            }
            Op::Add => format!("{:?}", req(case, &self.master, AddSite { id: site, mcaptcha: mc() }, &what).await?),
            Op::Rename => format!(
                "{:?}",
                req(case, &self.master, Rename { name: ren.clone(), rename_to: format!("{ren}-") }, &what).await?
            ),
            Op::Remove => format!("{:?}", req(case, &self.master, RemoveCaptcha(ren), &what).await?),
            Op::StorePow => {
                format!("{:?}", req(case, &self.cache, pow_msg(&site, &format!("{ch}x"), tag + 1, 30), &what).await?)
            }
            Op::GetPow => {
                let r = req(case, &self.cache, RetrivePoW(look(&site, &ch)), &what).await?;
                r.map(|r| v(r.duration, r.difficulty_factor)).unwrap_or("none".into())
            }
            Op::StoreToken => format!("{:?}", req(case, &self.cache, tok_msg(&site, &ch, 30), &what).await?),
            Op::Validate => format!("{}", req(case, &self.cache, look(&site, &ch), &what).await?),
            Op::Visitors => format!("{}", con.get_visitors(&site).await?),
            Op::Exists => format!("{}", con.check_captcha_exists(&site).await?),
            Op::AddChallenge => {
                let p = AddChallenge { difficulty: tag + 1, duration: 30, challenge: format!("{ch}y") };
                format!("{:?}", con.add_challenge(&site, &p).await?)
            }
            Op::GetChallenge => {
                let r = con.get_challenge(&look(&site, &ch)).await?;
                v(r.duration, r.difficulty_factor)
            }
            Op::DelChallenge => format!("{:?}", con.delete_challenge(&look(&site, &ch)).await?),
            Op::AddToken => format!("{:?}", con.add_token(&tok_msg(&site, &ch, 30)).await?),
            Op::GetToken => format!("{}", con.get_token(&look(&site, &ch)).await?),
            Op::DelToken => format!("{:?}", con.delete_token(&look(&site, &ch)).await?),
        })
    }
    fn expected(op: Op, tag: u32) -> Vec<String> {
        let v = format!("{}/{}", tag + 5, tag + 1);
        match op {
            Op::Visit | Op::GetPow | Op::GetChallenge => vec![v],
            Op::Validate | Op::GetToken => vec!["true".into(), "false".into()],
            Op::Visitors => vec!["0".into(), "1".into(), "2".into()],
            Op::Exists => vec!["true".into()],
            _ => vec!["()".into()],
        }
    }
    /// everything works (again) within the time a client needs to reconnect
    async fn recovered(&self, case: &Case, fake: &Fake, rng: &mut Rng) {
        fake.calm();
        let end = Instant::now() + RECOVERY;
        for round in 0..2 {
            let tag = 500_000 + rng.below(100_000) as u32;
            for op in OPS {
                loop {
                    Rig::prepare(fake, tag);
                    match self.run(case, op, tag).await {
                        Ok(a) if Rig::expected(op, tag).contains(&a) => break,
                        Ok(a) => case.abort("answer", format!("{op:?} afterwards: told {a:?}")),
                        Err(e) if Instant::now() > end => {
                            case.abort("no-recovery", format!("Redis answers again, but {op:?} still fails: {e:?}"))
                        }
                        Err(e) => {
                            case.ev(format!("{op:?} afterwards: {e:?}"));
                            actix_rt::time::sleep(Duration::from_millis(20)).await
                        }
                    }
                }
                if round == 1 {
                    // by now every connection has been renewed
                    Rig::prepare(fake, tag);
                }
            }
        }
        case.count("recoveries", 1);
    }
}
fn malformed(rng: &mut Rng, op: Op) -> Option<Reply> {
    let bad: Vec<Reply> = match op {
        Op::Visit | Op::GetPow | Op::GetChallenge => {
            let mut v: Vec<Reply> = [
                "", " ", "{", "}", "null", "true", "5", "\"x\"", "[]", "{}", "{\"duration\":5}", "{\"difficulty_factor\":5}",
                "{\"duration\":-5,\"difficulty_factor\":5}", "{\"duration\":\"5\",\"difficulty_factor\":5}",
                "{\"duration\":5,\"difficulty_factor\":4294967296}", "{\"duration\":5,\"difficulty_factor\":-1}",
                "{\"duration\":5,\"difficulty_factor\":null}", "{\"duration\":18446744073709551616,\"difficulty_factor\":5}",
                "{\"duration\":5,\"difficulty_factor\":5", "{\"duration\":5.5,\"difficulty_factor\":5}", "OK", "duration=5",
                "{\"duration\":5,\"difficulty_factor\":5}}",
            ]
            .iter()
            .map(Reply::bulk)
            .collect();
            v.push(Reply::Bulk(vec![0xff, 0xfe, b'{']));
            v.push(Reply::Nil);
            v.push(Reply::NilArray);
            v.push(Reply::Ok);
            v.push(Reply::Int(7));
            v.push(Reply::Arr(vec![]));
            v.push(Reply::Arr(vec![Reply::Int(1), Reply::Int(2)]));
            v
        }
        Op::Validate | Op::GetToken => vec![
            Reply::Int(2),
            Reply::Int(-1),
            Reply::bulk("x"),
            Reply::bulk(""),
            Reply::Arr(vec![]),
            Reply::Ok,
            Reply::Arr(vec![Reply::Int(1), Reply::Int(1)]),
        ],
        Op::Exists => vec![Reply::Int(2), Reply::Int(1 << 40), Reply::bulk("yes"), Reply::Arr(vec![]), Reply::Ok],
        Op::Visitors => vec![Reply::bulk("many"), Reply::Arr(vec![]), Reply::Ok, Reply::bulk("")],
        _ => return None,
    };
    Some(rng.pick(&bad).clone())
}
fn error_reply(rng: &mut Rng) -> Reply {
    Reply::Err(
        rng.pick(&[
            "ERR something",
            "LOADING Redis is loading the dataset in memory",
            "NOPERM this user has no permissions",
            "OOM command not allowed when used memory > 'maxmemory'.",
            "READONLY You can't write against a read only replica.",
            "MISCONF Redis is configured to save RDB snapshots",
            "WRONGTYPE Operation against a key holding the wrong kind of value",
            "BUSY Redis is busy running a script.",
            "x",
            "",
        ])
        .to_string(),
    )
}
fn c19_faults(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let cluster = rng.chance(1, 6);
        let rig = Rig::new(case, &fake, cluster).await;
        let n = rng.range(2, 8);
        let mut hangs = 0;
        for k in 0..n {
            let op = *rng.pick(&OPS);
            let tag = k as u32 * 10 + rng.below(10) as u32;
            Rig::prepare(&fake, tag);
            // Cluster commands are repeated by the Redis client after connection faults
            let f = match rng.below(if cluster { 4 } else { 10 }) {
                0 | 1 => Fault::Instead(error_reply(&mut rng)),
                2 | 3 => match malformed(&mut rng, op) {
                    Some(r) => Fault::Instead(r),
                    None => Fault::Instead(error_reply(&mut rng)),
                },
                4 => Fault::CloseBefore,
                5 => Fault::CloseAfter,
                6 => Fault::Torn,
                7 | 8 => {
                    let g: &[&[u8]] = &[b"garbage\r\n", b"\r\n", b"$abc\r\n", b"\x00\x01\x02\r\n", b"HTTP/1.1 200 OK\r\n\r\n", b":x\r\n"];
                    Fault::Instead(Reply::Raw(rng.pick(g).to_vec()))
                }
                _ if hangs == 0 && rng.chance(1, 3) => {
                    hangs += 1;
                    Fault::Hang
                }
                _ => Fault::CloseBefore,
            };
            if cluster && matches!(&f, Fault::Instead(Reply::Err(e)) if !e.starts_with("ERR") && !e.starts_with("NOPERM") && !e.starts_with("OOM")) {
                continue;
            }
            fake.once(f.clone());
            let r = rig.run(case, op, tag).await;
            case.ev(format!("{op:?} under {f:?}: {r:?}"));
            if let Ok(v) = &r {
                case.abort("made-up-success", format!("{op:?} under {f:?} reported success: {v}"));
            }
            case.count("faults", 1);
            case.seen((op, format!("{f:?}"), cluster));
            if rng.chance(1, 3) {
                rig.recovered(case, &fake, &mut rng).await;
            } else if !matches!(f, Fault::Instead(Reply::Err(_))) {
                // a fault that ended the connection: let it be renewed
                actix_rt::time::sleep(Duration::from_millis(5)).await;
            }
        }
        rig.recovered(case, &fake, &mut rng).await;
        case.sample_events(10);
    })
}
/// every op under every kind of fault, alone
fn c19_matrix(case: &Case) {
    let mut rng = case.rng(0);
    let op = OPS[case.index as usize % OPS.len()];
    let kind = case.index as usize / OPS.len() % 6;
    let fake = Fake::new();
    real_time(async {
        let rig = Rig::new(case, &fake, false).await;
        Rig::prepare(&fake, 3);
        let f = match kind {
            0 => Fault::Instead(error_reply(&mut rng)),
            1 => Fault::CloseBefore,
            2 => Fault::CloseAfter,
            3 => Fault::Torn,
            4 => match malformed(&mut rng, op) {
                Some(r) => Fault::Instead(r),
                None => Fault::Instead(Reply::Raw(b"?!\r\n".to_vec())),
            },
            _ => Fault::Hang,
        };
        fake.once(f.clone());
        let r = rig.run(case, op, 3).await;
        case.ev(format!("{op:?} under {f:?}: {r:?}"));
        if let Ok(v) = &r {
            case.abort("made-up-success", format!("{op:?} under {f:?} reported success: {v}"));
        }
        case.count("faults", 1);
        case.seen((op, format!("{f:?}")));
        rig.recovered(case, &fake, &mut rng).await;
    })
}
/// the server disappears and comes back
fn c19_outage(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let rig = Rc::new(Rig::new(case, &fake, false).await);
        let refuse = rng.chance(1, 2);
        if refuse {
            fake.down()
        } else {
            fake.sick(true)
        }
        case.ev(format!("server {}", if refuse { "gone" } else { "drops every connection" }));
        let mut hs = vec![];
        for k in 0..rng.range(3, 10) {
            let op = *rng.pick(&OPS);
            let (rig, case2) = (rig.clone(), case.clone());
            hs.push((op, actix_rt::spawn(async move { rig.run(&case2, op, k as u32).await })));
        }
        let out = Duration::from_millis(*rng.pick(&[10, 300, 1500, 7000]));
        actix_rt::time::sleep(out).await;
        // only answers given before the server returned are known to be made up
        for (op, h) in &mut hs {
            if h.is_finished() {
                match h.await {
                    Ok(Ok(v)) => case.abort("made-up-success", format!("{op:?} with no server reported success: {v}")),
                    Ok(Err(e)) => case.ev(format!("{op:?}: {e:?}")),
                    Err(_) => case.abort("panic", format!("{op:?} with no server panicked")),
                }
                case.count("faults", 1);
            }
        }
        if refuse {
            fake.up()
        } else {
            fake.sick(false)
        }
        case.ev(format!("server back after {out:?}"));
        rig.recovered(case, &fake, &mut rng).await;
        case.count("outages", 1);
        case.seen((refuse, out));
    })
}
/// requesters that give up
fn c19_giveup(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let rig = Rig::new(case, &fake, rng.chance(1, 6)).await;
        for round in 0..rng.range(5, 15) {
            let tag = round as u32;
            Rig::prepare(&fake, tag);
            fake.jitter(rng.clone(), 800);
            let op = OPS[rng.below(8) as usize];
            // poll the request a random number of times, then drop it
            let k = rng.below(4);
            {
                let mut f = Box::pin(rig.run(case, op, tag));
                let mut polls = 0;
                let _ = tokio::time::timeout(
                    Duration::from_micros(rng.below(1500)),
                    std::future::poll_fn(|cx| {
                        polls += 1;
                        if polls > k {
                            return std::task::Poll::Ready(());
                        }
                        f.as_mut().poll(cx).map(|_| ())
                    }),
                )
                .await;
            }
            case.ev(format!("{op:?} given up after {k} polls"));
            case.count("given_up", 1);
            fake.calm();
            for op in [Op::Add, Op::Visit, Op::StorePow, Op::GetPow, Op::StoreToken, Op::Validate] {
                Rig::prepare(&fake, tag + 100);
                match rig.run(case, op, tag + 100).await {
                    Ok(a) => {
                        if !Rig::expected(op, tag + 100).contains(&a) || a == "false" {
                            case.abort("answer", format!("{op:?} after a given-up request: told {a:?}"))
                        }
                    }
                    Err(e) if slow(&e) => {
                        case.count("undecided_slow_machine", 1);
                        return;
                    }
                    Err(e) => case.abort("request-failed", format!("{op:?} after a given-up request: {e:?}")),
                }
            }
            case.seen((op, k));
        }
    })
}
/// several users of one connection at the same time
fn c19_shared(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let cluster = rng.chance(1, 6);
        // registry and raw handles on the very same connection
        let m1 = ok(case, RMaster::new(fake.config(cluster)).await, || "connect".into());
        let redis = m1.redis.clone();
        let rig = Rc::new(Rig {
            cache: cache_on(case, &fake, cluster).await,
            master: m1.clone().start(),
            redis: redis.clone(),
        });
        let rig2 = Rc::new(Rig { cache: rig.cache.clone(), master: m1.start(), redis });
        let faulty = !cluster && rng.chance(1, 2);
        let users = rng.range(3, 12) as u32;
        for u in 0..users {
            Rig::prepare(&fake, u);
        }
        let mut j = rng.clone();
        fake.plan(move |_| match j.below(12) {
            0 if faulty => Fault::Instead(Reply::Err("ERR now and then".into())),
            1 if faulty && j.chance(1, 4) => Fault::CloseBefore,
            2..=5 => Fault::Delay(j.below(300), j.below(300)),
            _ => Fault::None,
        });
        let told = Rc::new(RefCell::new((0u64, 0u64, BTreeSet::new())));
        let mut hs = vec![];
        for u in 0..users {
            let mut r = Rng::new(rng.u64());
            let rig = if u % 2 == 0 { rig.clone() } else { rig2.clone() };
            let (case, told) = (case.clone(), told.clone());
            hs.push(actix_rt::spawn(async move {
                for _ in 0..r.range(4, 12) {
                    let op = *r.pick(&[Op::Visit, Op::Exists, Op::Visitors, Op::StoreToken, Op::GetToken, Op::AddToken, Op::AddChallenge, Op::Add]);
                    let tag = u;
                    match rig.run(&case, op, tag).await {
                        Ok(a) => {
                            let fine = match op {
                                Op::Visitors => a.parse::<u64>().map(|n| n <= 40).unwrap_or(false),
                                Op::Visit => a == format!("{}/{}", tag + 5, tag + 1),
                                Op::Exists => a == "true",
                                Op::GetToken => a == "true" || a == "false",
                                _ => a == "()",
                            };
                            if !fine {
                                case.fail("answer", format!("user {u}: {op:?} told {a:?}"));
                            }
                            told.borrow_mut().0 += 1;
                        }
                        Err(e) if faulty || slow(&e) => {
                            told.borrow_mut().1 += 1;
                            case.ev(format!("user {u}: {op:?}: {e:?}"));
                        }
                        Err(e) => case.fail("request-failed", format!("user {u} of {users}: {op:?}: {e:?}")),
                    }
                    told.borrow_mut().2.insert((u, format!("{op:?}")));
                    let _ = rig.redis.get_client();
                }
            }));
        }
        for h in hs {
            if h.await.is_err() && !case.failed() {
                // the panic itself is reported by the panic observer
                case.ev("a user panicked");
            }
        }
        let t = told.borrow();
        case.count("shared_answers", t.0);
        case.count("shared_errors", t.1);
        case.seen((users, &t.2));
        fake.calm();
        if faulty {
            rig.recovered(case, &fake, &mut rng).await;
        }
        let end = Instant::now() + RECOVERY;
        loop {
            if rig.redis.get_client().ping().await {
                break;
            }
            if Instant::now() > end {
                case.abort("no-recovery", "ping");
            }
            actix_rt::time::sleep(Duration::from_millis(20)).await
        }
    })
}

pub fn c19(ctx: &Arc<Ctx>) {
    ctx.rule("every cache, registry and connection operation under error replies, malformed replies, closed connections, silence, outages, give-ups and concurrent use: the caller must be told an error, nothing may panic, and everything must work again afterwards");
    run_cases(ctx, "matrix", ctx.n(96, 960), 24, |c| guarded(c, c19_matrix));
    run_cases(ctx, "faults", ctx.n(96, 2500), 24, |c| guarded(c, c19_faults));
    run_cases(ctx, "outage", ctx.n(16, 240), 24, |c| guarded(c, c19_outage));
    run_cases(ctx, "giveup", ctx.n(200, 2000), 8, |c| guarded(c, c19_giveup));
    run_cases(ctx, "shared", ctx.n(200, 2500), 6, |c| guarded(c, c19_shared));
    ctx.require("faults", 200);
    ctx.require("recoveries", 100);
    ctx.require("outages", 6);
    ctx.require("given_up", 100);
    ctx.require("shared_answers", 500);
}

// ------------------------------------------------------------------ C20
fn other_module(rng: &mut Rng) -> Reply {
    let (n, p) = *rng.pick(&[
        ("ReJSON", "/opt/redis-stack/lib/rejson.so"),
        ("search", "/opt/redis-stack/lib/redisearch.so"),
        ("bf", "/x/bf.so"),
        ("mcaptcha", "/x/mcaptcha.so"),
        ("cache", "/x/cache.so"),
        ("vectorset", ""),
        ("timeseries", "/a b/c.so"),
        ("mcaptcha-cache", "/x/y.so"),
        ("MCAPTCHA", "/x/y.so"),
    ]);
    // the fields in any order
    if rng.chance(1, 4) {
        Reply::Arr(vec![Reply::bulk("ver"), Reply::Int(1), Reply::bulk("name"), Reply::bulk(n)])
    } else {
        module(n, p)
    }
}
async fn try_connect(kind: u64, cfg: RedisConfig) -> CaptchaResult<()> {
    match kind {
        0 => RedisCache::new(cfg).await.map(|_| ()),
        1 => RMaster::new(cfg).await.map(|_| ()),
        _ => MCaptchaRedis::new(cfg).await.map(|_| ()),
    }
}
fn c20_modules(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        for _ in 0..6 {
            let mut list: Vec<Reply> = (0..rng.below(5)).map(|_| other_module(&mut rng)).collect();
            let loaded = rng.chance(2, 3);
            let at = rng.below(list.len() as u64 + 1) as usize;
            if loaded {
                list.insert(at, mcaptcha_module());
            }
            let mut missing: BTreeSet<String> = BTreeSet::new();
            if rng.chance(1, 2) {
                for _ in 0..rng.range(1, 3) {
                    missing.insert(rng.pick(&COMMANDS).to_string());
                }
            }
            let cluster = rng.chance(1, 5);
            let kind = rng.below(3);
            let n = list.len();
            fake.st(|s| {
                s.modules = Reply::Arr(list.clone());
                s.missing = missing.clone();
                s.absent = if rng.chance(1, 2) { Reply::NilArray } else { Reply::Nil };
            });
            let r = tokio::time::timeout(LIMIT, try_connect(kind, fake.config(cluster))).await;
            case.tick();
            let what = format!(
                "connecting ({}{}) to a server with {n} modules, ours {}, commands missing: {missing:?}",
                ["cache", "registry", "connection"][kind as usize],
                if cluster { ", cluster" } else { "" },
                if loaded { format!("at position {at}") } else { "not loaded".into() }
            );
            case.ev(format!("{what}: {r:?}"));
            let Ok(r) = r else { case.abort("not-answered", what) };
            if matches!(&r, Err(e) if slow(e)) {
                case.count("undecided_slow_machine", 1);
                continue;
            }
            let good = match &r {
                Ok(()) => loaded && missing.is_empty(),
                Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded) => !loaded,
                Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(c)) => {
                    // without the module the list of its commands says nothing
                    loaded && missing.contains(&c.to_uppercase())
                }
                Err(_) => false,
            };
            if !good {
                case.abort("connect-verdict", format!("{what}: {r:?}"));
            }
            case.count(if r.is_ok() { "accepted" } else { "refused" }, 1);
            case.seen((loaded, at.min(n), n, &missing, cluster, kind));
        }
        case.sample_events(6);
    })
}
/// the server cannot be asked
fn c20_trouble(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let kind = case.index % 3;
        let what = case.index / 3 % 8;
        let mut cfg = fake.config(false);
        let nth = rng.below(10);
        let desc = match what {
            0 => {
                let bad = ["", "x", "redis://", "http://127.0.0.1/", "redis://127.0.0.1:99999/", "127.0.0.1", "redis://host:port", "redis://127.0.0.1/notanumber"];
                let b = rng.pick(&bad).to_string();
                cfg = if rng.chance(1, 3) { RedisConfig::Cluster(vec![b.clone()]) } else { RedisConfig::Single(b.clone()) };
                format!("address {b:?}")
            }
            1 => {
                cfg = RedisConfig::Cluster(vec![]);
                "no cluster nodes".into()
            }
            2 => {
                fake.down();
                if rng.chance(1, 4) {
                    cfg = fake.config(true);
                }
                "nothing listens".to_string()
            }
            3 => {
                fake.sick(true);
                "every connection is closed".into()
            }
            4 => {
                // an error instead of the nth answer
                let e = error_reply(&mut rng);
                let mut k = 0;
                let e2 = e.clone();
                fake.plan(move |_| {
                    k += 1;
                    if k == nth + 1 { Fault::Instead(e2.clone()) } else { Fault::None }
                });
                format!("answer {nth} is {e:?}")
            }
            5 => {
                let mut k = 0;
                let f = if rng.chance(1, 2) { Fault::CloseBefore } else { Fault::Torn };
                let f2 = f.clone();
                fake.plan(move |_| {
                    k += 1;
                    if k == nth + 1 { f2.clone() } else { Fault::None }
                });
                format!("{f:?} at answer {nth}")
            }
            6 => {
                let x = rng
                    .pick(&[Reply::Nil, Reply::NilArray, Reply::Ok, Reply::Int(3), Reply::bulk("mcaptcha_cache"), Reply::Arr(vec![])])
                    .clone();
                let x2 = x.clone();
                let mut k = 0;
                fake.plan(move |_| {
                    k += 1;
                    if k == nth + 1 { Fault::Instead(x2.clone()) } else { Fault::None }
                });
                format!("answer {nth} is {x:?}")
            }
            _ => {
                let mut k = 0;
                fake.plan(move |_| {
                    k += 1;
                    if k == nth + 1 { Fault::Hang } else { Fault::None }
                });
                format!("no answer to question {nth}")
            }
        };
        let t = Instant::now();
        let r = tokio::time::timeout(Duration::from_secs(40), try_connect(kind, cfg)).await;
        case.tick();
        case.ev(format!("{desc}: {r:?} after {:?}", t.elapsed()));
        match r {
            Err(_) => case.abort("not-answered", format!("connecting, {desc}: no answer")),
            Ok(Ok(())) => case.abort("connect-verdict", format!("connecting succeeded although: {desc}")),
            Ok(Err(_)) => {}
        }
        case.count("connect_failures", 1);
        case.seen((kind, &desc));
        // and once the trouble is over
        if what >= 2 {
            fake.calm();
            fake.sick(false);
            if what == 2 {
                fake.up();
            }
            match tokio::time::timeout(LIMIT, try_connect(kind, fake.config(false))).await {
                Ok(Ok(())) => {}
                Ok(Err(e)) if slow(&e) => case.count("undecided_slow_machine", 1),
                r => case.abort("connect-verdict", format!("after the trouble ({desc}) is over: {r:?}")),
            }
        }
        case.sample_events(2);
    })
}
pub fn c20(ctx: &Arc<Ctx>) {
    ctx.rule("the outcome of connecting compared with what the server offers (module list, position, commands), and with every way in which the server cannot be asked");
    run_cases(ctx, "modules", ctx.n(600, 6000), 8, |c| guarded(c, c20_modules));
    run_cases(ctx, "trouble", ctx.n(96, 1200), 32, |c| guarded(c, c20_trouble));
    ctx.require("accepted", 100);
    ctx.require("refused", 200);
    ctx.require("connect_failures", 60);
}

// ------------------------------------------------------------------ C26
/// what is left of a server's error message in a caller's error
fn says(e: &CaptchaError, reply: &Reply) -> bool {
    let text = e.to_string();
    match (reply, e) {
        (Reply::Err(t), CaptchaError::RedisError(_)) => match t.split_once(' ') {
            Some((_, rest)) => text.contains(rest),
            None => true,
        },
        _ => false,
    }
}
fn c26_ops(case: &Case) {
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let rig = Rig::new(case, &fake, false).await;
        for (k, op) in OPS.into_iter().enumerate() {
            let tag = k as u32 * 10 + rng.below(10) as u32;
            Rig::prepare(&fake, tag);
            let mine = rng.alnum(10);
            let reply = match (malformed(&mut rng, op), error_reply(&mut rng)) {
                (Some(m), _) if rng.chance(1, 3) => m,
                (_, Reply::Err(t)) if t.contains(' ') => Reply::Err(format!("{t} {mine}")),
                (_, r) => r,
            };
            fake.once(Fault::Instead(reply.clone()));
            let r = rig.run(case, op, tag).await;
            fake.calm();
            case.ev(format!("{op:?} answered {reply:?}: {r:?}"));
            let good = match (&reply, &r) {
                (_, Ok(_)) => false,
                // the client's own time limit
                (_, Err(e)) if slow(e) => {
                    case.count("undecided_slow_machine", 1);
                    true
                }
                (Reply::Err(_), Err(e)) => says(e, &reply),
                (_, Err(e)) => matches!(e, CaptchaError::MCaptchaRedisModuleError | CaptchaError::RedisError(_)),
            };
            case.check(good, "cause", || format!("{op:?}: the server answered {reply:?}, the caller was told {r:?}"));
            case.count("redis_causes", 1);
            case.seen((op, format!("{reply:?}").chars().take(12).collect::<String>()));
        }
        // and when nobody is there
        if case.index % 8 == 0 {
            fake.down();
            for op in [*rng.pick(&[Op::Visit, Op::StorePow, Op::GetPow]), *rng.pick(&[Op::StoreToken, Op::Validate])] {
                let r = tokio::time::timeout(LIMIT, rig.run(case, op, 1)).await;
                let Ok(r) = r else { case.abort("not-answered", format!("{op:?} while the server is gone")) };
                case.ev(format!("{op:?} while the server is gone: {r:?}"));
                case.check(matches!(r, Err(CaptchaError::RedisError(_))), "cause", || format!("{op:?} while the server is gone: the caller was told {r:?}"));
                case.count("redis_causes", 1);
            }
            fake.up();
        }
        case.sample_events(4);
    })
}
/// a whole system on Redis: the error of one command reaches the caller whose request it was for
fn c26_system(case: &Case) {
    use libmcaptcha::system::SystemBuilder;
    let mut rng = case.rng(0);
    let fake = Fake::new();
    real_time(async {
        let salt = rng.alnum(26);
        let sys = SystemBuilder::default()
            .master(master_on(case, &fake, false).await)
            .cache(cache_on(case, &fake, false).await)
            .pow(mcaptcha_pow_sha256::ConfigBuilder::default().salt(salt.clone()).build().unwrap())
            .runners(1)
            .queue_length(10)
            .build();
        let site = rng.name();
        let r = req(case, &sys.master, AddSite { id: site.clone(), mcaptcha: build_mcaptcha(&[(1000, 9)], 1000) }, "AddSite").await;
        ok(case, r, || "AddSite".into());
        for _ in 0..rng.range(4, 10) {
            let name = rng.near_miss(&site);
            if name != site {
                let r = sys.get_pow(name.clone()).await;
                case.check(matches!(&r, Ok(None)) || r.as_ref().err().is_some_and(slow), "cause", || format!("get_pow of {name:?}, which does not exist: {r:?}"));
                case.count("redis_causes", 1);
            }
            // the command that fails, if any
            let bad = rng.below(6) as usize;
            let commands = ["MCAPTCHA_CACHE.ADD_VISITOR", "MCAPTCHA_CACHE.ADD_CHALLENGE", "MCAPTCHA_CACHE.GET_CHALLENGE", "SET", "GET"];
            let text = format!("ERR trouble {}", rng.alnum(8));
            if let Some(c) = commands.get(bad) {
                let (c, t) = (c.to_string(), text.clone());
                fake.plan(move |e| {
                    let n = e.name();
                    // tokens may be written and read in other ways
                    let hit = match c.as_str() {
                        "SET" => ["SET", "SETEX", "PSETEX"].contains(&n.as_str()),
                        "GET" => ["GETDEL", "GET", "DEL", "EXISTS", "EVAL", "MULTI", "GETEX", "UNLINK"].contains(&n.as_str()),
                        _ => n == c,
                    };
                    if hit { Fault::Instead(Reply::Err(t.clone())) } else { Fault::None }
                });
            }
            let want = |r: Result<(), &CaptchaError>, here: bool, what: &str| -> bool {
                match r {
                    Ok(()) => case.check(!here, "made-up-success", || format!("{what}: succeeded although the server said {text:?}")),
                    Err(e) if slow(e) => {
                        case.count("undecided_slow_machine", 1);
                        false
                    }
                    Err(e) => case.check(here && says(e, &Reply::Err(text.clone())), "cause", || {
                        format!("{what} ({:?} answered {text:?}): the caller was told {e:?}", commands.get(bad))
                    }),
                };
                case.count("redis_causes", 1);
                r.is_ok()
            };
            let r = sys.get_pow(site.clone()).await;
            case.ev(format!("{:?} fails; get_pow {r:?}", commands.get(bad)));
            if !want(r.as_ref().map(|_| ()), bad < 2, "get_pow") {
                fake.calm();
                continue;
            }
            let Ok(Some(ch)) = r else { case.abort("no-challenge", format!("{r:?}")) };
            let kind = if bad > 3 || rng.chance(2, 3) { Proof::Right } else { *rng.pick(&WRONG) };
            let Some(w) = proof(&mut rng, kind, &salt, &ch.string, ch.difficulty_factor, &site) else { continue };
            let r = sys.verify_pow(w.clone(), "ip".into()).await;
            case.ev(format!("verify_pow {kind:?}: {r:?}"));
            if kind != Proof::Right && bad != 2 {
                case.check(crate::causes::proof_refused(kind, &r) || r.as_ref().err().is_some_and(slow), "cause", || format!("{kind:?}: the caller was told {r:?}"));
                case.count("redis_causes", 1);
                fake.calm();
                continue;
            }
            if !want(r.as_ref().map(|_| ()), bad == 2 || bad == 3, "verify_pow") {
                fake.calm();
                continue;
            }
            let r = sys.validate_verification_tokens(VerifyCaptchaResult { token: r.unwrap().0, key: site.clone() }).await;
            case.ev(format!("validation: {r:?}"));
            want(r.as_ref().map(|_| ()), bad == 4, "validation");
            fake.calm();
            if case.failed() {
                return;
            }
        }
        case.seen((rng.u64(),));
        case.sample_events(5);
    })
}
pub fn c26_redis(ctx: &Arc<Ctx>) {
    run_cases(ctx, "redis-commands", ctx.n(16, 150), 4, |case| guarded(case, c26_ops));
    run_cases(ctx, "redis-system", ctx.n(24, 200), 4, |case| guarded(case, c26_system));
}
