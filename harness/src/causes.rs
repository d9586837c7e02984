//! C26: a request that is refused or fails names its cause
use crate::model::*;
use crate::system::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::{AddVisitorResult, Master as Registry};
use libmcaptcha::pow::Work;
use libmcaptcha::system::{System, SystemBuilder};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::oneshot::{channel, Receiver};

type Sys = System<HashCache, Master>;

// ------------------------------------------------------------------ errors
pub const KINDS: usize = 20;
/// an error of every kind
pub fn error(k: usize, text: &str) -> CaptchaError {
    use CaptchaError::*;
    match k {
        0 => LevelEmpty,
        1 => DifficultyFactorZero,
        2 => CaptchaDurationZero,
        3 => SetDifficultyFactor,
        4 => SetVisitorThreshold,
        5 => DuplicateVisitorCount,
        6 => DecreaseingDifficultyFactor,
        7 => MailboxError,
        8 => InsuffiencientDifficulty,
        9 => StringNotFound,
        10 => MCaptchaKeyValidationFail,
        11 => InvalidPoW,
        12 => PleaseSetValue(text.into()),
        13 => RedisError((redis::ErrorKind::Io, "out of reach", text.to_string()).into()),
        14 => RedisError(std::io::Error::new(std::io::ErrorKind::ConnectionReset, text.to_string()).into()),
        15 => {
            let (tx, mut rx) = channel::<()>();
            drop(tx);
            let e = loop {
                // closed: ready at once
                let w = std::task::Waker::noop();
                if let std::task::Poll::Ready(r) =
                    std::future::Future::poll(std::pin::Pin::new(&mut rx), &mut std::task::Context::from_waker(w))
                {
                    break r.unwrap_err();
                }
            };
            RecvError(e)
        }
        16 => MCaptchaRedisModuleError,
        17 => MCaptchaRedisModuleIsNotLoaded,
        18 => MCaptchaRediSModuleCommandNotFound(text.into()),
        _ => QueueFull,
    }
}

/// errors of Redis are not always equal to themselves
fn same(a: &CaptchaError, b: &CaptchaError) -> bool {
    let redis = |e: &CaptchaError| matches!(e, CaptchaError::RedisError(_));
    (a == b || redis(a) && redis(b)) && format!("{a:?}/{a}") == format!("{b:?}/{b}")
}

// ------------------------------------------------------------------ stand-ins that fail as planned
#[derive(Clone, Debug)]
enum Do {
    Fine,
    /// "there is none", or "no"
    Nothing,
    /// the error of this kind with this text
    Fail(usize, String),
    /// the request is dropped without an answer
    Forget,
    /// answers as belonging to another site
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Visit,
    Store,
    Fetch,
    Mint,
    Validate,
}
#[derive(Default)]
struct Script {
    /// what happens to requests whose key (site, challenge or token) is this
    plan: HashMap<(u8, String), Do>,
    seen: Vec<(Place, String)>,
    minted: Vec<(String, String, u64)>,
    stored: Vec<(String, String, u32, u64)>,
    rng: u64,
    slow: bool,
}
type Shared = Arc<Mutex<Script>>;
fn look_up(s: &Shared, p: Place, k: &str) -> (Do, u64) {
    let mut s = s.lock().unwrap();
    s.seen.push((p, k.into()));
    s.rng = mix(s.rng);
    let wait = if s.slow { s.rng % 6 } else { 0 };
    (s.plan.get(&(p as u8, k.to_string())).cloned().unwrap_or(Do::Fine), wait)
}
fn answer<T: 'static>((d, wait): (Do, u64), fine: T, nothing: T, other: T) -> Receiver<CaptchaResult<T>> {
    let (tx, rx) = channel();
    let go = move || {
        let _ = match d {
            Do::Fine => tx.send(Ok(fine)),
            Do::Nothing => tx.send(Ok(nothing)),
            Do::Other => tx.send(Ok(other)),
            Do::Fail(k, t) => tx.send(Err(error(k, &t))),
            Do::Forget => return drop(tx),
        };
    };
    if wait == 0 {
        go()
    } else {
        actix_rt::spawn(async move {
            for _ in 0..wait * wait {
                tokio::task::yield_now().await;
            }
            go()
        });
    }
    rx
}
const DIFF: u32 = 7;
struct StubMaster(Shared);
impl Actor for StubMaster {
    type Context = Context<Self>;
}
impl Registry for StubMaster {}
impl Handler<AddVisitor> for StubMaster {
    type Result = MessageResult<AddVisitor>;
    fn handle(&mut self, m: AddVisitor, _: &mut Context<Self>) -> Self::Result {
        let v = Some(AddVisitorResult { duration: 77, difficulty_factor: DIFF });
        MessageResult(answer(look_up(&self.0, Place::Visit, &m.0), v.clone(), None, v))
    }
}
macro_rules! unused {
    ($a:ty, $($m:ty, $v:expr);*) => {$(
        impl Handler<$m> for $a {
            type Result = MessageResult<$m>;
            fn handle(&mut self, _: $m, _: &mut Context<Self>) -> Self::Result {
                MessageResult($v)
            }
        }
    )*};
}
fn ready<T>(v: T) -> Receiver<CaptchaResult<T>> {
    let (tx, rx) = channel();
    let _ = tx.send(Ok(v));
    rx
}
unused!(StubMaster, AddSite, ready(()); Rename, ready(()); RemoveCaptcha, ready(()); SetInternalData, ready(()); GetInternalData, ready(HashMap::new()));
struct StubCache(Shared);
impl Actor for StubCache {
    type Context = Context<Self>;
}
impl Save for StubCache {}
unused!(StubCache, DeletePoW, Ok(()); DeleteCaptchaResult, Ok(()));
impl Handler<CachePoW> for StubCache {
    type Result = MessageResult<CachePoW>;
    fn handle(&mut self, m: CachePoW, _: &mut Context<Self>) -> Self::Result {
        self.0.lock().unwrap().stored.push((m.string, m.key.clone(), m.difficulty_factor, m.duration));
        MessageResult(answer(look_up(&self.0, Place::Store, &m.key), (), (), ()))
    }
}
impl Handler<RetrivePoW> for StubCache {
    type Result = MessageResult<RetrivePoW>;
    fn handle(&mut self, m: RetrivePoW, _: &mut Context<Self>) -> Self::Result {
        let c = CachedPoWConfig { key: m.0.key, difficulty_factor: DIFF, duration: 88 };
        let o = CachedPoWConfig { key: format!("{} ", c.key), ..c };
        MessageResult(answer(look_up(&self.0, Place::Fetch, &m.0.token), Some(c), None, Some(o)))
    }
}
impl Handler<CacheResult> for StubCache {
    type Result = MessageResult<CacheResult>;
    fn handle(&mut self, m: CacheResult, _: &mut Context<Self>) -> Self::Result {
        self.0.lock().unwrap().minted.push((m.token, m.key.clone(), m.duration));
        MessageResult(answer(look_up(&self.0, Place::Mint, &m.key), (), (), ()))
    }
}
impl Handler<VerifyCaptchaResult> for StubCache {
    type Result = MessageResult<VerifyCaptchaResult>;
    fn handle(&mut self, m: VerifyCaptchaResult, _: &mut Context<Self>) -> Self::Result {
        MessageResult(answer(look_up(&self.0, Place::Validate, &m.token), true, false, false))
    }
}

/// One request with a plan of its own; what its caller must be told.
#[derive(Clone, Debug)]
struct Asked {
    place: Place,
    plan: Do,
    name: String,
    proof: Proof,
}
/// `None`: fine
fn matches_plan<T: std::fmt::Debug>(what: &Asked, r: &CaptchaResult<T>) -> Option<String> {
    let good = match (&what.plan, r) {
        (Do::Fail(k, t), Err(e)) => same(e, &error(*k, t)),
        (Do::Forget, Err(e)) => matches!(e, CaptchaError::RecvError(_)),
        _ => return None,
    };
    (!good).then(|| format!("{what:?}: the caller was told {r:?}"))
}
async fn one(case: &Case, sys: Rc<System<StubCache, StubMaster>>, st: Shared, a: Asked, work: Option<Work>, ip: String) {
    let fails = matches!(a.plan, Do::Fail(..) | Do::Forget);
    match a.place {
        Place::Visit | Place::Store => {
            let r = sys.get_pow(a.name.clone()).await;
            case.ev(format!("get_pow with {a:?}: {r:?}"));
            if fails {
                case.check(r.is_err(), "made-up-success", || format!("{a:?}: the caller was told {r:?}"));
                if let Some(d) = matches_plan(&a, &r) {
                    case.fail("cause", d);
                }
            } else if matches!((&a.plan, a.place), (Do::Nothing, Place::Visit)) {
                case.check(matches!(r, Ok(None)), "cause", || format!("no such site, but the caller was told {r:?}"));
            } else {
                let Ok(Some(p)) = r else { return case.fail("no-challenge", format!("{a:?}: {r:?}")) };
                let s = st.lock().unwrap();
                let x: Vec<_> = s.stored.iter().filter(|x| x.0 == p.string).collect();
                case.check(x.len() == 1 && x[0].1 == a.name && x[0].2 == DIFF && x[0].3 == 77 && p.difficulty_factor == DIFF, "stored", || {
                    format!("{a:?}: answered {p:?}, stored {x:?}")
                });
            }
            if a.place == Place::Visit && fails || matches!((&a.plan, a.place), (Do::Nothing, Place::Visit)) {
                let s = st.lock().unwrap();
                case.check(s.stored.iter().all(|x| x.1 != a.name), "stored", || format!("{a:?}: a challenge was stored"));
            }
        }
        Place::Fetch | Place::Mint => {
            let r = sys.verify_pow(work.unwrap(), ip).await;
            case.ev(format!("verify_pow with {a:?}: {r:?}"));
            let minted: Vec<_> = st.lock().unwrap().minted.iter().filter(|x| x.1 == a.name).cloned().collect();
            let right = a.proof == Proof::Right;
            let e = match (&a.plan, a.place) {
                (Do::Nothing, Place::Fetch) => r == Err(CaptchaError::StringNotFound),
                (Do::Other, Place::Fetch) if right => r == Err(CaptchaError::MCaptchaKeyValidationFail),
                (Do::Other, Place::Fetch) => r == Err(CaptchaError::MCaptchaKeyValidationFail) || proof_refused(a.proof, &r),
                (_, Place::Fetch) if fails => matches_plan(&a, &r).is_none() && r.is_err(),
                // the proof decides before anything is minted
                _ if !right => proof_refused(a.proof, &r),
                (_, Place::Mint) if fails => matches_plan(&a, &r).is_none() && r.is_err(),
                _ => match &r {
                    Ok((t, d)) => *d == DIFF && minted.len() == 1 && minted[0].0 == *t && minted[0].2 == 88,
                    Err(_) => false,
                },
            };
            case.check(e, "cause", || format!("{a:?}: the caller was told {r:?}, tokens {minted:?}"));
            if r.is_err() && !(right && a.place == Place::Mint) {
                case.check(minted.is_empty(), "token-for-refused", || format!("{a:?}: {r:?}, but {minted:?}"));
            }
        }
        Place::Validate => {
            let r = sys.validate_verification_tokens(VerifyCaptchaResult { token: a.name.clone(), key: "k".into() }).await;
            case.ev(format!("validation with {a:?}: {r:?}"));
            if fails {
                case.check(r.is_err(), "made-up-success", || format!("{a:?}: the caller was told {r:?}"));
                if let Some(d) = matches_plan(&a, &r) {
                    case.fail("cause", d);
                }
            } else {
                case.check(r == Ok(matches!(a.plan, Do::Fine)), "cause", || format!("{a:?}: the caller was told {r:?}"));
            }
        }
    }
    case.tick();
}
/// refused because of the proof
pub fn proof_refused<T>(kind: Proof, r: &CaptchaResult<T>) -> bool {
    match r {
        Err(CaptchaError::InsuffiencientDifficulty) => true,
        // not what it claims to be: either cause is true
        Err(CaptchaError::InvalidPoW) => !matches!(kind, Proof::Right | Proof::TooEasy),
        _ => false,
    }
}
/// Requests at once, each with another fault at another place: each caller hears of its own.
fn planned(case: &Case) {
    let mut rng = case.rng(0);
    let r = std::cell::Cell::new(0u64);
    real_time(async {
        let st: Shared = Arc::default();
        st.lock().unwrap().rng = rng.u64();
        st.lock().unwrap().slow = rng.chance(2, 3);
        let salt = rng.alnum(26);
        let m = StubMaster(st.clone()).start();
        let c = StubCache(st.clone()).start();
        let sys = Rc::new(
            SystemBuilder::default()
                .master(m)
                .cache(c)
                .pow(mcaptcha_pow_sha256::ConfigBuilder::default().salt(salt.clone()).build().unwrap())
                .runners(rng.range(1, 3) as usize)
                .queue_length(1000)
                .build(),
        );
        for round in 0..rng.range(3, 8) {
            let n = *rng.pick(&[1u64, 2, 5, 20]);
            let mut tasks = vec![];
            for k in 0..n {
                let place = *rng.pick(&[Place::Visit, Place::Store, Place::Fetch, Place::Mint, Place::Validate]);
                let plan = match rng.below(10) {
                    0..=4 => Do::Fail(rng.below(KINDS as u64) as usize, rng.name()),
                    5 => Do::Forget,
                    6 => Do::Nothing,
                    7 if place == Place::Fetch => Do::Other,
                    _ => Do::Fine,
                };
                let plan = match (&plan, place) {
                    // these have no such answer
                    (Do::Nothing, Place::Store | Place::Mint) => Do::Fine,
                    _ => plan,
                };
                let name = format!("{round}.{k}.{}", rng.name());
                let kind = if rng.chance(1, 4) { *rng.pick(&WRONG) } else { Proof::Right };
                let string = if place == Place::Fetch { name.clone() } else { rng.alnum(32) };
                let work = match place {
                    Place::Fetch | Place::Mint => match proof(&mut rng, kind, &salt, &string, DIFF, &name) {
                        Some(w) => Some(w),
                        None => continue,
                    },
                    _ => None,
                };
                let a = Asked { place, plan, name: name.clone(), proof: kind };
                st.lock().unwrap().plan.insert((place as u8, name), a.plan.clone());
                case.seen((place, format!("{:?}", a.plan).chars().take(9).collect::<String>(), kind, n));
                case.count("planned", 1);
                if matches!(a.plan, Do::Fail(..) | Do::Forget) {
                    case.count("failures", 1);
                }
                r.set(r.get() + 1);
                let (sys, st, case) = (sys.clone(), st.clone(), case.clone());
                let ip = format!("ip{}", rng.below(3));
                tasks.push(actix_rt::spawn(async move { one(&case, sys, st, a, work, ip).await }));
            }
            for t in tasks {
                match tokio::time::timeout(MAX, t).await {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => case.abort("panic", format!("a request ended with {e:?}")),
                    Err(_) => case.abort("not-answered", "a request whose backend had answered"),
                }
            }
            if case.failed() {
                return;
            }
        }
        case.sample_events(6);
    })
}
/// an actor that is gone
fn gone(case: &Case) {
    let mut rng = case.rng(0);
    real_time(async {
        let st: Shared = Arc::default();
        let salt = rng.alnum(26);
        let dead = |which: bool| which;
        let (registry, cache) = (rng.chance(1, 2), rng.chance(1, 2));
        let m = Registry_::start(st.clone(), dead(registry)).await;
        let c = Cache_::start(st.clone(), dead(cache)).await;
        let sys = SystemBuilder::default()
            .master(m)
            .cache(c)
            .pow(mcaptcha_pow_sha256::ConfigBuilder::default().salt(salt.clone()).build().unwrap())
            .runners(1)
            .queue_length(10)
            .build();
        let r = sys.get_pow("s".into()).await;
        case.ev(format!("registry gone {registry}, cache gone {cache}: get_pow {r:?}"));
        let gone = |e: &CaptchaError| *e == CaptchaError::MailboxError;
        let good = |bad: bool, e: Option<&CaptchaError>| match e {
            Some(e) => bad && gone(e),
            None => !bad,
        };
        case.check(good(registry || cache, r.as_ref().err()), "cause", || format!("registry gone {registry}, cache gone {cache}: get_pow {r:?}"));
        let string = rng.alnum(32);
        let w = proof(&mut rng, Proof::Right, &salt, &string, DIFF, "s").unwrap();
        let r = sys.verify_pow(w, "ip".into()).await;
        case.check(good(cache, r.as_ref().err()), "cause", || format!("cache gone {cache}: verify_pow {r:?}"));
        let r = sys.validate_verification_tokens(VerifyCaptchaResult { token: string, key: "s".into() }).await;
        case.check(good(cache, r.as_ref().err()), "cause", || format!("cache gone {cache}: validation {r:?}"));
        case.count("planned", 3);
        case.seen((registry, cache));
    })
}
struct Registry_;
impl Registry_ {
    async fn start(st: Shared, dead: bool) -> Addr<StubMaster> {
        let a = StubMaster::create(|ctx| {
            if dead {
                ctx.stop();
            }
            StubMaster(st)
        });
        while dead && a.connected() {
            tokio::task::yield_now().await;
        }
        a
    }
}
struct Cache_;
impl Cache_ {
    async fn start(st: Shared, dead: bool) -> Addr<StubCache> {
        let a = StubCache::create(|ctx| {
            if dead {
                ctx.stop();
            }
            StubCache(st)
        });
        while dead && a.connected() {
            tokio::task::yield_now().await;
        }
        a
    }
}

// ------------------------------------------------------------------ queue full
/// More submissions at once than the queue takes, while all workers are busy: whoever is turned
/// away hears that the queue is full, everybody else their verdict.
fn full(case: &Case, mb: usize) -> bool {
    let mut rng = case.rng(0);
    real_time(async {
        let m = Master::new(20_000_000).start();
        let cache = HashCache::default().start();
        let salt = rng.alnum(26);
        let limit = *rng.pick(&[1usize, 1, 2, 3, 8, 40]);
        let workers = rng.range(1, 2) as usize;
        let others = threads_now();
        let sys: Rc<Sys> = Rc::new(build(&m, &cache, &salt, workers, limit));
        let r = case.ask_rx(&m, AddSite { id: "s".into(), mcaptcha: build_mcaptcha(&[(u32::MAX, 30)], 1000) }, "AddSite").await;
        case.must(r, "AddSite");
        let out: Rc<RefCell<Vec<(usize, CaptchaResult<(String, u32)>)>>> = Rc::default();
        let submit = |k: usize, w: Work, ip: String| {
            let (sys, out, case) = (sys.clone(), out.clone(), case.clone());
            actix_rt::spawn(async move {
                let r = sys.verify_pow(w, ip).await;
                case.tick();
                out.borrow_mut().push((k, r));
            })
        };
        let mut tasks = vec![];
        let mut gates: Vec<Hold> = vec![];
        const LONG: usize = 1_000_000;
        for k in 0..workers {
            let mut s = "x".repeat(mb << 20);
            s.push_str(&rng.alnum(32));
            let r = case.ask_rx(&cache, CachePoW { string: s.clone(), difficulty_factor: 1, duration: 3600, key: "s".into() }, "CachePoW").await;
            case.must(r, "CachePoW");
            tasks.push(submit(LONG + k, Work { string: s, result: u128::MAX.to_string(), nonce: 0, key: "s".into() }, format!("long{k}")));
            // one after the other, each is taken up before the next
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            let Some(g) = hold_computing(&others, &gates) else { return false };
            gates.push(g);
        }
        let n = limit + rng.range(1, 12) as usize;
        let mut kinds: Vec<Option<(Proof, Work)>> = vec![];
        for k in 0..n {
            let kind = if rng.chance(2, 3) { Proof::Right } else { *rng.pick(&WRONG) };
            let ch = case.must(sys.get_pow("s".into()).await, "get_pow").unwrap_or_else(|| case.abort("no-challenge", "get_pow"));
            let w = proof(&mut rng, kind, &salt, &ch.string, ch.difficulty_factor, "s");
            if let Some(w) = &w {
                tasks.push(submit(k, w.clone(), format!("a{}", if rng.chance(1, 5) { rng.below(k as u64 + 1) } else { k as u64 })));
            }
            kinds.push(w.map(|w| (kind, w)));
            for _ in 0..rng.below(10) {
                tokio::task::yield_now().await;
            }
        }
        actix_rt::time::sleep(Duration::from_millis(20)).await;
        let early: Vec<usize> = out.borrow().iter().map(|x| x.0).collect();
        let undecided = early.iter().any(|k| *k >= LONG);
        case.ev(format!("{workers} busy workers, queue length {limit}, {n} submissions; answered at once {early:?}"));
        drop(gates);
        for t in tasks {
            if tokio::time::timeout(MAX, t).await.is_err() {
                case.abort("not-answered", "a submission while the queue was full");
            }
        }
        if undecided {
            return false;
        }
        let mut refused = 0;
        for (k, r) in out.borrow().iter().filter(|x| x.0 < LONG) {
            let (kind, _) = kinds[*k].as_ref().unwrap();
            if early.contains(k) {
                refused += 1;
                case.check(*r == Err(CaptchaError::QueueFull), "cause", || {
                    format!("{kind:?} submission answered while all workers were busy and the queue (length {limit}) filling up: {r:?}")
                });
            } else if *kind == Proof::Right {
                // taken up later, or, on a slow machine, refused later
                case.check(matches!(r, Ok(_) | Err(CaptchaError::QueueFull)), "cause", || format!("right proof that waited: {r:?}"));
            } else {
                case.check(proof_refused(*kind, r) || *r == Err(CaptchaError::QueueFull), "cause", || format!("{kind:?} that waited: {r:?}"));
            }
        }
        case.count("turned_away", refused);
        case.count("full_queues", 1);
        case.seen((workers, limit, n, refused));
        // once it is empty the refusal is about the challenge again
        for (k, x) in kinds.iter().enumerate() {
            let Some((kind, w)) = x else { continue };
            if rng.chance(1, 2) || case.failed() {
                continue;
            }
            let r = sys.verify_pow(w.clone(), format!("b{k}")).await;
            case.check(r == Err(CaptchaError::StringNotFound), "cause", || format!("{kind:?} submitted again after its challenge was used up: {r:?}"));
            case.count("resubmissions", 1);
        }
        case.sample_events(4);
        true
    })
}

// ------------------------------------------------------------------ what the errors say
fn texts(case: &Case) {
    let mut rng = case.rng(0);
    let (a, b) = (rng.alnum(12), rng.alnum(12));
    let all: Vec<(usize, CaptchaError)> = (0..KINDS).map(|k| (k, error(k, &a))).collect();
    for (k, e) in &all {
        let text = e.to_string();
        case.check(!text.trim().is_empty(), "silent", || format!("{e:?} says nothing"));
        for (l, f) in &all {
            if k != l {
                case.check(e != f && text != f.to_string(), "same-text", || format!("{e:?} and {f:?} say the same: {text:?}"));
            }
        }
        // what the error is about is part of what it says
        if matches!(k, 12 | 13 | 14 | 18) {
            case.check(text.contains(&a), "detail-lost", || format!("{e:?} says {text:?}, without {a:?}"));
            let other = error(*k, &b);
            case.check(other != *e || matches!(k, 13 | 14), "equal", || format!("{other:?} equals {e:?}"));
        }
        case.check(same(e, &error(*k, &a)), "unequal", || format!("{e:?} differs from itself"));
        case.seen((k, text));
    }
    // conversions
    let e: CaptchaError = redis::RedisError::from((redis::ErrorKind::Io, "out of reach", a.clone())).into();
    case.check(e == error(13, &a), "conversion", || format!("an error of Redis became {e:?}"));
    let CaptchaError::RecvError(r) = error(15, "") else { unreachable!() };
    let e: CaptchaError = r.into();
    case.check(e == error(15, ""), "conversion", || format!("a lost reply became {e:?}"));
    for m in [MailboxError::Closed, MailboxError::Timeout] {
        let e: CaptchaError = m.into();
        case.check(e == CaptchaError::MailboxError, "conversion", || format!("an actor's error became {e:?}"));
    }
    case.count("error_kinds", KINDS as u64);
}

pub fn c26(ctx: &Arc<Ctx>) {
    ctx.rule("requests that fail in every place and every way, alone and among others, on the embedded parts, on stand-ins for registry and cache that fail as planned, on a full queue and on Redis: the cause the caller is told must be the one that was at work; distinct = distinct (place, cause, proof, requests at once)");
    run_cases(ctx, "texts", ctx.n(3, 10), 1, texts);
    run_cases(ctx, "gone", ctx.n(12, 60), 2, gone);
    run_cases(ctx, "planned", ctx.n(60, 600), 6, planned);
    crate::redis_checks::c26_redis(ctx);
    let w = Weights { get: 30, submit: 40, validate: 8, time: 15, load: 2, wrong: 5, family: false };
    run_cases(ctx, "protocol", ctx.n(120, 1200), 6, |case| world(case, &w));
    // threads are told apart by when they appear: alone
    run_cases(ctx, "full", ctx.n(15, 100), 1, |case| {
        if ![40, 120, 300].into_iter().any(|mb| case.failed() || full(case, mb)) {
            case.count("undecided_slow_machine", 1);
        }
    });
    ctx.require("planned", 500);
    ctx.require("failures", 200);
    ctx.require("turned_away", 5);
    ctx.require("causes_judged", 300);
    ctx.require("redis_causes", 100);
}
