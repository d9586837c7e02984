//! C01-C05 through the public System, and C13-C16 as far as the public System shows them
use crate::model::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::{AddSite, GetInternalData};
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
use libmcaptcha::system::{System, SystemBuilder};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::oneshot::channel;

const NEVER: u64 = 20_000_000;
/// generous: what is awaited takes milliseconds
pub const MAX: Duration = Duration::from_secs(40);

// ------------------------------------------------------------------ a cache that tells
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub enum Fault {
    #[default]
    None,
    /// the request is answered with an error
    Error,
    /// the reply channel is closed without an answer
    Closed,
}
#[derive(Default)]
pub struct SpyState {
    pub pows: Vec<(String, u32, u64, String)>,
    /// challenges the cache has confirmed
    pub held: HashSet<String>,
    pub tokens: Vec<(String, String, u64)>,
    pub retrieved: Vec<String>,
    pub validated: u64,
    pub on_store: Fault,
    pub on_token: Fault,
    pub on_retrieve: Fault,
    pub on_validate: Fault,
    /// task switches before a request reaches the store / before its answer is passed on
    pub delay: Option<Rng>,
}
/// Stands between System and the real cache, records and delays.
pub struct Spy {
    pub inner: Addr<HashCache>,
    pub st: Arc<Mutex<SpyState>>,
}
impl Spy {
    fn delays(&self) -> (u64, u64) {
        match &mut self.st.lock().unwrap().delay {
            Some(r) => {
                let m = *r.clone().pick(&[1, 3, 12]);
                r.u64();
                (r.below(m), r.below(m))
            }
            None => (0, 0),
        }
    }
}
impl Actor for Spy {
    type Context = Context<Self>;
}
impl Save for Spy {}
#[derive(Message)]
#[rtype(result = "()")]
struct Quit;
impl Handler<Quit> for Spy {
    type Result = ();
    fn handle(&mut self, _: Quit, ctx: &mut Context<Self>) {
        ctx.stop()
    }
}
async fn yields(n: u64) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
macro_rules! forward {
    ($spy:expr, $ctx:expr, $msg:expr, $fault:expr, $ok:expr) => {{
        let (tx, rx) = channel();
        let fault = $fault;
        match fault {
            Fault::Error => {
                let _ = tx.send(Err(CaptchaError::MCaptchaRedisModuleError));
            }
            Fault::Closed => drop(tx),
            Fault::None => {
                let inner = $spy.inner.clone();
                let (a, b) = $spy.delays();
                let st = $spy.st.clone();
                let msg = $msg;
                let ok = $ok;
                let f = async move {
                    yields(a).await;
                    if let Ok(rx) = inner.send(msg).await {
                        if let Ok(r) = rx.await {
                            ok(&st, &r);
                            yields(b).await;
                            let _ = tx.send(r);
                        }
                    }
                };
                $ctx.spawn(f.into_actor($spy));
            }
        }
        MessageResult(rx)
    }};
}
impl Handler<CachePoW> for Spy {
    type Result = MessageResult<CachePoW>;
    fn handle(&mut self, m: CachePoW, ctx: &mut Context<Self>) -> Self::Result {
        let f = {
            let mut s = self.st.lock().unwrap();
            s.pows.push((m.string.clone(), m.difficulty_factor, m.duration, m.key.clone()));
            s.on_store
        };
        let string = m.string.clone();
        forward!(self, ctx, m, f, move |st: &Arc<Mutex<SpyState>>, r: &CaptchaResult<()>| {
            if r.is_ok() {
                st.lock().unwrap().held.insert(string);
            }
        })
    }
}
impl Handler<RetrivePoW> for Spy {
    type Result = MessageResult<RetrivePoW>;
    fn handle(&mut self, m: RetrivePoW, ctx: &mut Context<Self>) -> Self::Result {
        let f = {
            let mut s = self.st.lock().unwrap();
            s.retrieved.push(m.0.token.clone());
            s.on_retrieve
        };
        forward!(self, ctx, m, f, |_: &_, _: &CaptchaResult<Option<CachedPoWConfig>>| ())
    }
}
impl Handler<CacheResult> for Spy {
    type Result = MessageResult<CacheResult>;
    fn handle(&mut self, m: CacheResult, ctx: &mut Context<Self>) -> Self::Result {
        let f = {
            let mut s = self.st.lock().unwrap();
            s.tokens.push((m.token.clone(), m.key.clone(), m.duration));
            s.on_token
        };
        forward!(self, ctx, m, f, |_: &_, _: &CaptchaResult<()>| ())
    }
}
impl Handler<VerifyCaptchaResult> for Spy {
    type Result = MessageResult<VerifyCaptchaResult>;
    fn handle(&mut self, m: VerifyCaptchaResult, ctx: &mut Context<Self>) -> Self::Result {
        let f = {
            let mut s = self.st.lock().unwrap();
            s.validated += 1;
            s.on_validate
        };
        forward!(self, ctx, m, f, |_: &_, _: &CaptchaResult<bool>| ())
    }
}
impl Handler<DeletePoW> for Spy {
    type Result = MessageResult<DeletePoW>;
    fn handle(&mut self, m: DeletePoW, _: &mut Context<Self>) -> Self::Result {
        self.inner.do_send(m);
        MessageResult(Ok(()))
    }
}
impl Handler<DeleteCaptchaResult> for Spy {
    type Result = MessageResult<DeleteCaptchaResult>;
    fn handle(&mut self, m: DeleteCaptchaResult, _: &mut Context<Self>) -> Self::Result {
        self.inner.do_send(m);
        MessageResult(Ok(()))
    }
}

pub fn build<C: Save>(
    master: &Addr<Master>,
    cache: &Addr<C>,
    salt: &str,
    workers: usize,
    queue: usize,
) -> System<C, Master> {
    SystemBuilder::default()
        .master(master.clone())
        .cache(cache.clone())
        .pow(ConfigBuilder::default().salt(salt.into()).build().unwrap())
        .runners(workers)
        .queue_length(queue)
        .build()
}

// ------------------------------------------------------------------ proofs
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Proof {
    Right,
    /// true score, too low
    TooEasy,
    /// too low, but claims more
    Inflated,
    /// claims the maximum
    Max,
    /// right nonce, wrong claim that still is sufficient
    OffByOne,
    /// the score of a neighbouring nonce
    OtherNonce,
    /// proof for another string
    OtherString,
    /// proof under another salt
    OtherSalt,
    /// not a number
    Garbage,
    /// claims less than it has
    Understated,
    /// a true score just padded
    Padded,
}
pub const WRONG: [Proof; 10] = [
    Proof::TooEasy,
    Proof::Inflated,
    Proof::Max,
    Proof::OffByOne,
    Proof::OtherNonce,
    Proof::OtherString,
    Proof::OtherSalt,
    Proof::Garbage,
    Proof::Understated,
    Proof::Padded,
];
/// A proof of the given kind; None if there is none (e.g. nothing is too easy for difficulty 1).
pub fn proof(rng: &mut Rng, kind: Proof, salt: &str, string: &str, diff: u32, key: &str) -> Option<Work> {
    let start = *rng.pick(&[0u64, 1, 1000, u64::MAX - 5000, u32::MAX as u64 - 100]);
    let start = start.wrapping_add(rng.below(3000));
    let (nonce, result) = match kind {
        Proof::Right => {
            let (n, s) = solve(salt, string, diff, start);
            (n, s.to_string())
        }
        Proof::TooEasy => {
            let (n, s) = unsolve(salt, string, diff, start)?;
            (n, s.to_string())
        }
        Proof::Inflated => {
            let (n, _) = unsolve(salt, string, diff, start)?;
            (n, required(diff).saturating_add(rng.below(1000) as u128).to_string())
        }
        Proof::Max => {
            let (n, s) = unsolve(salt, string, diff.max(2), start)?;
            if s == u128::MAX {
                return None;
            }
            (n, u128::MAX.to_string())
        }
        Proof::OffByOne => {
            let (n, s) = solve(salt, string, diff, start);
            (n, if rng.chance(1, 2) { s.checked_add(1)? } else { s.checked_sub(1)? }.to_string())
        }
        Proof::OtherNonce => {
            let (n, s) = solve(salt, string, diff, start);
            let m = if rng.chance(1, 2) { n.wrapping_add(1) } else { n.wrapping_sub(1) };
            if score(salt, string, m) == s {
                return None;
            }
            (m, s.to_string())
        }
        Proof::OtherString => {
            let other = rng.alnum(32);
            let (n, s) = solve(salt, &other, diff, start);
            if score(salt, string, n) == s {
                return None;
            }
            (n, s.to_string())
        }
        Proof::OtherSalt => {
            let other = rng.near_miss(salt);
            let (n, s) = solve(&other, string, diff, start);
            if score(salt, string, n) == s {
                return None;
            }
            (n, s.to_string())
        }
        Proof::Garbage => {
            let g = ["", "x", "-1", "1e38", "NaN", "0x10", "340282366920938463463374607431768211456", "٣", "true"];
            (rng.u64(), if rng.chance(1, 8) { "9".repeat(5000) } else { rng.pick(&g).to_string() })
        }
        Proof::Understated => {
            let (n, s) = solve(salt, string, diff, start);
            let need = required(diff);
            if s == need {
                return None;
            }
            (n, (need + rng.u64() as u128 % (s - need)).to_string())
        }
        Proof::Padded => {
            let (n, s) = solve(salt, string, diff, start);
            (n, if rng.chance(1, 2) { format!("{s} ") } else { format!("{s}.0") })
        }
    };
    Some(Work { string: string.into(), result, nonce, key: key.into() })
}

// ------------------------------------------------------------------ one world, four views
#[derive(Clone, Debug, PartialEq)]
enum CState {
    Open,
    /// a submission under another key happened; what became of it is not specified
    Touched,
    Consumed,
}
#[derive(Clone, Debug)]
struct Ch {
    site: String,
    pow: PoWConfig,
    issued: u64,
    dur: u64,
    state: CState,
}
#[derive(Clone, Debug)]
struct Tok {
    token: String,
    site: String,
    minted: u64,
    dur: u64,
    state: CState,
}
#[derive(Default)]
pub struct Weights {
    pub get: u64,
    pub submit: u64,
    pub validate: u64,
    pub time: u64,
    pub load: u64,
    pub wrong: u64,
    /// several systems on the same cache and registry, each request goes to any of them
    pub family: bool,
}
struct Judge<'a> {
    case: &'a Case,
    over: bool,
}
impl Judge<'_> {
    /// `props`: the properties this observation contradicts if `ok` is false
    fn is<S: Into<String>>(&mut self, ok: bool, props: &[&str], sig: &str, d: impl FnOnce() -> S) {
        if !ok {
            self.over = true;
            let p = self.case.ctx.prop.as_str();
            if props.contains(&p) || p == "C28" {
                self.case.fail(sig, d());
            } else {
                self.case.count("ended: contradicts another property", 1);
            }
        }
    }
}

pub fn world(case: &Case, w: &Weights) {
    let mut rng = case.rng(1);
    virtual_time(async {
        let clock = Clock::new();
        let m = Master::new(NEVER).start();
        let st: Arc<Mutex<SpyState>> = Arc::default();
        if rng.chance(1, 2) {
            st.lock().unwrap().delay = Some(case.rng(77));
        }
        let cache = Spy { inner: HashCache::default().start(), st: st.clone() }.start();
        let salt = if rng.chance(1, 8) { rng.name() } else { rng.alnum(26) };
        let another = |rng: &mut Rng| build(&m, &cache, &salt, rng.range(1, 3) as usize, rng.range(1, 50) as usize);
        let mut family = vec![another(&mut rng)];
        if w.family {
            for _ in 0..rng.range(1, 4) {
                family.push(another(&mut rng));
            }
        }
        let mut issuers: Vec<usize> = vec![];
        let mut born = family.len();
        let mut ids: Vec<usize> = (0..born).collect();
        let mut sites: BTreeMap<String, TimedSite> = BTreeMap::new();
        let nsites = rng.range(1, 4) as usize;
        while sites.len() < nsites {
            let n = match sites.keys().next() {
                Some(f) if rng.chance(1, 2) => rng.near_miss(f),
                _ => rng.name(),
            };
            let lv = match rng.below(4) {
                0 => vec![(0, 1), (3, rng.range(1, 40) as u32), (9, 300)],
                1 => vec![(u32::MAX, rng.range(1, 1500) as u32)],
                _ => gen_levels(&mut rng, 5, 8, 400),
            };
            let d = *rng.pick(&[1u64, 2, 3, 5, 30, 1000]);
            case.must(
                case.ask_rx(&m, AddSite { id: n.clone(), mcaptcha: build_mcaptcha(&lv, d) }, "AddSite").await,
                "AddSite",
            );
            case.ev(format!("site {n:?} levels {lv:?} duration {d}s, salt {salt:?}"));
            sites.insert(n, TimedSite::new(lv, d));
        }
        let names: Vec<String> = sites.keys().cloned().collect();
        let mut chs: Vec<Ch> = vec![];
        let mut toks: Vec<Tok> = vec![];
        let mut j = Judge { case, over: false };
        let total = w.get + w.submit + w.validate + w.time + w.load;
        for _ in 0..rng.range(15, 60) {
            if j.over {
                return;
            }
            if w.family && rng.chance(1, 12) {
                // one goes, or is replaced
                let k = rng.below(family.len() as u64) as usize;
                if family.len() > 1 {
                    let gone = family.swap_remove(k);
                    case.ev(format!("system {} is dropped", ids.swap_remove(k)));
                    hold(async { drop(gone) }).await;
                    case.count("systems_dropped", 1);
                }
                if family.len() < 2 || rng.chance(2, 3) {
                    family.push(another(&mut rng));
                    ids.push(born);
                    case.ev(format!("system {born} is built"));
                    born += 1;
                }
            }
            let at = if w.family { rng.below(family.len() as u64) as usize } else { 0 };
            let sys = &family[at];
            if w.family {
                case.ev(format!("at system {}:", ids[at]));
            }
            let expiries: Vec<u64> = chs
                .iter()
                .map(|c| c.issued + c.dur * 1000)
                .chain(toks.iter().map(|t| t.minted + t.dur * 1000))
                .chain(sites.values().flat_map(|s| s.pending.iter().map(|p| p.0)))
                .filter(|e| *e + 10 >= clock.ms())
                .collect();
            let near = |t: u64| expiries.iter().any(|e| dist(*e, t) < 4);
            let mut now = clock.ms();
            let op = rng.below(total);
            if near(now) || op >= total - w.time {
                // aim at the edges of lifetimes
                let mut to = match rng.below(4) {
                    0 | 1 if !expiries.is_empty() => {
                        let e = *rng.pick(&expiries);
                        if rng.chance(1, 2) {
                            e.saturating_sub(5)
                        } else {
                            e + 5
                        }
                    }
                    2 => now + rng.below(3000),
                    _ => now + *rng.pick(&[1u64, 40, 900, 5000]),
                }
                .max(now);
                while near(to) {
                    to += 5;
                }
                clock.until(to).await;
                now = clock.ms();
                if near(now) {
                    continue;
                }
                case.ev(format!("now {now}ms"));
            }
            sites.values_mut().for_each(|s| {
                s.at(now);
            });
            if op < w.get {
                // ------------------------------------------------ ask for a challenge
                let name = rng.pick(&names).clone();
                let r = hold(sys.get_pow(name.clone())).await;
                let want = sites.get_mut(&name).unwrap().visit(now);
                let dur = sites[&name].site.duration;
                case.ev(format!("{now}ms get_pow({name:?}) = {r:?}"));
                match r {
                    Ok(Some(p)) => {
                        j.is(p.difficulty_factor == want, &["C05"], "difficulty", || {
                            format!("challenge at difficulty {}, the site is at {want}", p.difficulty_factor)
                        });
                        j.is(p.salt == salt, &["C05"], "salt", || format!("challenge with salt {:?}, not {salt:?}", p.salt));
                        j.is(chs.iter().all(|c| c.pow.string != p.string), &["C05", "C06"], "not-new", || {
                            "challenge handed out twice".to_string()
                        });
                        let s = st.lock().unwrap();
                        j.is(s.held.contains(&p.string), &["C05"], "not-held", || {
                            "challenge handed out before the cache held it".to_string()
                        });
                        let logged: Vec<_> = s.pows.iter().filter(|x| x.0 == p.string).collect();
                        j.is(
                            logged.len() == 1
                                && logged[0].1 == p.difficulty_factor
                                && logged[0].2 == dur
                                && logged[0].3 == name,
                            &["C05"],
                            "stored-differently",
                            || format!("stored as {logged:?}, issued {p:?} for {name:?} with duration {dur}"),
                        );
                        case.count("challenges", 1);
                        case.seen(("get", want, dur, chs.len().min(20)));
                        if w.family {
                            issuers.push(ids[at]);
                        }
                        chs.push(Ch { site: name, pow: p, issued: now, dur, state: CState::Open });
                    }
                    r => j.is(false, &["C05"], "no-challenge", || format!("get_pow for a registered site answered {r:?}")),
                }
            } else if op < w.get + w.submit {
                // ------------------------------------------------ submit a proof
                let before = st.lock().unwrap().tokens.len();
                // unknown strings
                if chs.is_empty() || rng.chance(1, 15) {
                    let s = match chs.last() {
                        Some(c) => rng.near_miss(&c.pow.string),
                        None => rng.alnum(32),
                    };
                    if chs.iter().any(|c| c.pow.string == s) {
                        continue;
                    }
                    let key = rng.pick(&names).clone();
                    let wk = proof(&mut rng, Proof::Right, &salt, &s, 50, &key).unwrap();
                    let r = hold(sys.verify_pow(wk, "1".into())).await;
                    case.ev(format!("{now}ms submission of unknown {s:?}: {r:?}"));
                    case.count("submissions", 1);
                    case.seen(("unknown", s.len().min(40)));
                    j.is(r.is_err(), &["C01"], "accepted", || format!("{r:?} for a string never issued"));
                    j.is(r.is_ok() || r == Err(CaptchaError::StringNotFound), &["C26"], "cause", || format!("{r:?} for a string never issued"));
                    case.count("causes_judged", 1);
                    j.is(st.lock().unwrap().tokens.len() == before, &["C01"], "token-for-refused", || {
                        "a token came into existence for a refused submission".to_string()
                    });
                    continue;
                }
                // mostly open ones, also consumed and expired ones
                let open: Vec<usize> = (0..chs.len()).filter(|i| chs[*i].state == CState::Open).collect();
                let i = if !open.is_empty() && rng.chance(3, 4) {
                    *rng.pick(&open)
                } else {
                    rng.below(chs.len() as u64) as usize
                };
                let kind = if rng.chance(w.wrong, 10) { *rng.pick(&WRONG) } else { Proof::Right };
                let ch = chs[i].clone();
                let Some(mut wk) = proof(&mut rng, kind, &ch.pow.salt, &ch.pow.string, ch.pow.difficulty_factor, &ch.site)
                else {
                    continue;
                };
                let mut own_key = true;
                if rng.chance(1, 12) {
                    let k = if rng.chance(1, 2) { rng.near_miss(&ch.site) } else { rng.pick(&names).clone() };
                    own_key = k == ch.site;
                    wk.key = k;
                }
                let live = now < ch.issued + ch.dur * 1000;
                let ip = format!("10.0.0.{}", rng.below(4));
                let what = format!(
                    "{now}ms submission {kind:?} (nonce {}, result {:.40}, key {:?}) of {} issued at {}ms for {}s, {:?}",
                    wk.nonce, wk.result, wk.key, ch.pow.string, ch.issued, ch.dur, ch.state
                );
                let r = hold(sys.verify_pow(wk, ip)).await;
                case.ev(format!("{what}: {r:?}"));
                case.count("submissions", 1);
                case.seen((kind, own_key, live, format!("{:?}", ch.state), r.is_ok(), ch.pow.difficulty_factor.min(600), chs.len().min(9)));
                let minted: Vec<_> = st.lock().unwrap().tokens[before..].to_vec();
                match &r {
                    Err(e) => {
                        // causes at work: at least one, and one of them must be named
                        let unknown = !live || ch.state != CState::Open;
                        let mut named = false;
                        named |= unknown && *e == CaptchaError::StringNotFound;
                        if ch.state != CState::Consumed && live {
                            named |= !own_key && *e == CaptchaError::MCaptchaKeyValidationFail;
                            named |= kind != Proof::Right && crate::causes::proof_refused(kind, &r);
                        }
                        let some = unknown || !own_key || kind != Proof::Right;
                        j.is(named || !some, &["C26"], "cause", || format!("{what}: the caller was told {r:?}"));
                        case.count("causes_judged", some as u64);
                        j.is(minted.is_empty(), &["C01"], "token-for-refused", || {
                            format!("{what}: refused, but a token came into existence")
                        });
                        if kind == Proof::Right && own_key && live && ch.state == CState::Open {
                            let others = chs.iter().enumerate().any(|(k, c)| k != i && c.state != CState::Open);
                            let mut p = vec!["C01", "C05"];
                            if now > ch.issued {
                                p.push("C04");
                            }
                            if others {
                                p.push("C02");
                            }
                            j.is(false, &p, "refused", || format!("{what}: refused with {r:?}"));
                        }
                        case.count("refused", 1);
                    }
                    Ok((token, d)) => {
                        let good = kind == Proof::Right && own_key;
                        j.is(good, &["C01"], "accepted", || format!("{what}: accepted"));
                        j.is(!good || ch.state != CState::Consumed, &["C01", "C02"], "redeemed-again", || {
                            format!("{what}: a consumed challenge was redeemed")
                        });
                        j.is(!good || live, &["C04"], "expired-redeemed", || format!("{what}: an expired challenge was redeemed"));
                        j.is(*d == ch.pow.difficulty_factor, &["C01"], "difficulty", || {
                            format!("{what}: reported difficulty {d}, issued at {}", ch.pow.difficulty_factor)
                        });
                        j.is(toks.iter().all(|t| t.token != *token), &["C03", "C06"], "token-repeated", || {
                            format!("{what}: token {token} was handed out before")
                        });
                        j.is(minted.len() == 1, &["C01", "C02"], "tokens", || {
                            format!("{what}: {} tokens came into existence", minted.len())
                        });
                        case.count("accepted", 1);
                        if w.family && issuers[i] != ids[at] {
                            case.count("redeemed_elsewhere", 1);
                        }
                        toks.push(Tok { token: token.clone(), site: ch.site.clone(), minted: now, dur: ch.dur, state: CState::Open });
                    }
                }
                if own_key {
                    chs[i].state = CState::Consumed;
                } else if chs[i].state == CState::Open {
                    chs[i].state = CState::Touched;
                }
            } else if op < w.get + w.submit + w.validate {
                // ------------------------------------------------ validate a token
                let open: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].state == CState::Open).collect();
                let i = if !open.is_empty() && rng.chance(2, 3) {
                    Some(*rng.pick(&open))
                } else if toks.is_empty() {
                    None
                } else {
                    Some(rng.below(toks.len() as u64) as usize)
                };
                let (token, mut key) = match i {
                    Some(i) if !rng.chance(1, 4) => (toks[i].token.clone(), toks[i].site.clone()),
                    Some(i) => match rng.below(4) {
                        // a challenge is no token
                        0 if !chs.is_empty() => (rng.pick(&chs).pow.string.clone(), toks[i].site.clone()),
                        1 => (toks[i].site.clone(), toks[i].token.clone()),
                        _ => (rng.near_miss(&toks[i].token), toks[i].site.clone()),
                    },
                    None => (rng.alnum(32), rng.pick(&names).clone()),
                };
                if rng.chance(1, 6) {
                    key = if rng.chance(1, 2) { rng.near_miss(&key) } else { rng.pick(&names).clone() };
                }
                let t = toks.iter().position(|t| t.token == token);
                let r = hold(sys.validate_verification_tokens(VerifyCaptchaResult { token: token.clone(), key: key.clone() })).await;
                let what = format!("{now}ms validation of {token:?} under {key:?} ({:?})", t.map(|t| &toks[t]));
                case.ev(format!("{what}: {r:?}"));
                case.count("validations", 1);
                let Ok(yes) = r else {
                    j.is(false, &["C03"], "validation-error", || format!("{what}: {r:?}"));
                    continue;
                };
                if yes {
                    case.count("validated_true", 1);
                }
                match t {
                    None => j.is(!yes, &["C03"], "accepted", || format!("{what}: a token never issued validated")),
                    Some(t) => {
                        let own = toks[t].site == key;
                        let live = now < toks[t].minted + toks[t].dur * 1000;
                        let tk = toks[t].clone();
                        case.seen((own, live, format!("{:?}", tk.state), yes, tk.dur, toks.len().min(9)));
                        if !own {
                            j.is(!yes, &["C03"], "wrong-site", || format!("{what}: validated for another site"));
                            if toks[t].state == CState::Open {
                                toks[t].state = CState::Touched;
                            }
                        } else {
                            j.is(!yes || tk.state != CState::Consumed, &["C03"], "validated-again", || format!("{what}: validated again"));
                            j.is(!yes || live, &["C04"], "expired-validated", || format!("{what}: an expired token validated"));
                            let mut p = vec!["C03"];
                            if now > tk.minted {
                                p.push("C04");
                            }
                            j.is(yes || !live || tk.state != CState::Open, &p, "not-validated", || {
                                format!("{what}: a live, unused token did not validate")
                            });
                            toks[t].state = CState::Consumed;
                        }
                    }
                }
            } else if op < total - w.time {
                // ------------------------------------------------ the load changes
                let name = rng.pick(&names).clone();
                let n = rng.range(1, 6);
                for _ in 0..n {
                    let r = case
                        .ask_rx(&m, libmcaptcha::master::messages::AddVisitor(name.clone()), "AddVisitor")
                        .await;
                    case.must(r, "AddVisitor");
                    sites.get_mut(&name).unwrap().visit(now);
                }
                case.ev(format!("{now}ms {n} more visitors of {name:?}"));
            }
        }
        case.count("worlds", 1);
        case.sample_events(14);
        hold(async { drop(family) }).await;
    });
}

/// everything on its own threads, in real time
pub struct Real {
    pub m: Addr<Master>,
    pub cache: Addr<HashCache>,
    pub sys: Option<Arc<System<HashCache, Master>>>,
    pub salt: String,
    arbs: Vec<Arbiter>,
    rt: Option<(tokio::sync::mpsc::UnboundedSender<()>, std::thread::JoinHandle<()>)>,
}
impl Real {
    pub fn new(case: &Case, rng: &mut Rng, workers: usize, queue: usize) -> Real {
        Real::with_gc(case, rng, workers, queue, NEVER)
    }
    pub fn with_gc(case: &Case, rng: &mut Rng, workers: usize, queue: usize, gc: u64) -> Real {
        // the actor system lives on a thread of its own, so that this can be shared
        let n = rng.range(1, 2);
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let (atx, arx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            actix_rt::System::new().block_on(async {
                atx.send((0..n).map(|_| Arbiter::new()).collect::<Vec<_>>()).unwrap();
                rx.recv().await;
            })
        });
        let rt = Some((tx, h));
        let arbs = arx.recv().unwrap();
        let m = Master::start_in_arbiter(&arbs[0].handle(), move |_| Master::new(gc));
        let cache = HashCache::start_in_arbiter(&arbs.last().unwrap().handle(), |_| HashCache::default());
        let salt = rng.alnum(26);
        let sys = Some(Arc::new(build(&m, &cache, &salt, workers, queue)));
        case.ev(format!("{workers} workers, queue length {queue}, {} actor threads", arbs.len()));
        Real { m, cache, sys, salt, arbs, rt }
    }
    pub fn sys(&self) -> &Arc<System<HashCache, Master>> {
        self.sys.as_ref().unwrap()
    }
    pub fn add(&self, case: &Case, name: &str, lv: &[(u32, u32)], dur: u64) {
        if block_on(case.ask_real(&self.m, AddSite { id: name.into(), mcaptcha: build_mcaptcha(lv, dur) }), MAX)
            .flatten()
            .is_none()
        {
            case.abort("not-answered", "AddSite")
        }
    }
    /// `None` (recorded as a violation) if there is no answer
    pub fn get(&self, case: &Case, name: &str) -> CaptchaResult<Option<PoWConfig>> {
        match block_on(self.sys().get_pow(name.into()), MAX) {
            Some(r) => r,
            None => case.abort("not-answered", "get_pow: no answer"),
        }
    }
    pub fn challenge(&self, case: &Case, name: &str) -> PoWConfig {
        match self.get(case, name) {
            Ok(Some(p)) => p,
            r => case.abort("no-challenge", format!("get_pow({name:?}): {r:?}")),
        }
    }
    pub fn submit(&self, case: &Case, w: Work, ip: &str) -> CaptchaResult<(String, u32)> {
        match block_on(self.sys().verify_pow(w, ip.into()), MAX) {
            Some(r) => r,
            None => case.abort("not-answered", "verify_pow: no answer"),
        }
    }
    pub fn validate(&self, case: &Case, token: &str, key: &str) -> CaptchaResult<bool> {
        let msg = VerifyCaptchaResult { token: token.into(), key: key.into() };
        match block_on(self.sys().validate_verification_tokens(msg), MAX) {
            Some(r) => r,
            None => case.abort("not-answered", "validation: no answer"),
        }
    }
    /// seed the cache with a challenge of one's own
    pub fn plant(&self, case: &Case, string: &str, diff: u32, key: &str, dur: u64) {
        let msg = CachePoWBuilder::default()
            .string(string.into())
            .difficulty_factor(diff)
            .duration(dur)
            .key(key.into())
            .build()
            .unwrap();
        if block_on(case.ask_real(&self.cache, msg), MAX).flatten().is_none() {
            case.abort("not-answered", "CachePoW")
        }
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        self.sys = None;
        for a in self.arbs.drain(..) {
            a.stop();
            let _ = a.join();
        }
        if let Some((tx, h)) = self.rt.take() {
            drop(tx);
            let _ = h.join();
        }
    }
}
/// run `f(i)` on `n` threads that start together; panics in them end the case
pub fn together<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let b = Barrier::new(n);
    std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|i| {
                let (b, f) = (&b, &f);
                s.spawn(move || {
                    b.wait();
                    f(i)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| std::panic::panic_any(Abort))).collect()
    })
}

// ------------------------------------------------------------------ C01
pub fn c01(ctx: &Arc<Ctx>) {
    ctx.rule("submissions with true, insufficient, inflated, off-by-one, foreign and malformed proofs under own and near-miss site keys, for open, consumed, expired and never issued challenges; every verdict compared with an independent implementation of the scoring rule, and the cache's token log; distinct = distinct (kind of proof, key, lifetime, state, verdict, difficulty) situations");
    let w = Weights { get: 6, submit: 9, validate: 0, time: 2, load: 2, wrong: 5, family: false };
    run_cases(ctx, "world", ctx.n(1200, 15000), 4, |case| world(case, &w));
    // every kind of proof, one by one, over a range of difficulties
    run_cases(ctx, "kinds", ctx.n(60, 600), 4, |case| {
        let mut rng = case.rng(1);
        let r = Real::new(case, &mut rng, 2, 10);
        for diff in [1u32, 2, 3, 7, 50, 500, 2000] {
            let diff = diff + rng.below(diff as u64 / 3 + 1) as u32;
            let name = rng.name();
            r.add(case, &name, &[(5, diff), (100_000, 60_000_000)], 3600);
            for kind in WRONG.iter().copied().chain([Proof::Right, Proof::Right]) {
                let p = r.challenge(case, &name);
                let d = p.difficulty_factor;
                if d > 10_000 && !matches!(kind, Proof::TooEasy | Proof::Inflated | Proof::Max | Proof::Garbage) {
                    // too expensive to solve: is a proof for less accepted?
                    let mut w = proof(&mut rng, Proof::Right, &p.salt, &p.string, 300, &name).unwrap();
                    if score(&p.salt, &p.string, w.nonce) >= required(d) {
                        continue;
                    }
                    if rng.chance(1, 2) {
                        w.result = required(d).to_string();
                    }
                    let v = r.submit(case, w, "1");
                    case.check(v.is_err(), "accepted", || format!("proof of about 300 accepted at {d}"));
                    case.seen((diff, "too little for a raised level"));
                    case.count("submissions", 1);
                    continue;
                }
                let Some(w) = proof(&mut rng, kind, &p.salt, &p.string, d, &name) else { continue };
                let text = format!("{kind:?} at difficulty {d}: nonce {} result {:.60}", w.nonce, w.result);
                let v = r.submit(case, w, "1");
                case.ev(format!("{text}: {v:?}"));
                case.seen((kind, d));
                case.count("submissions", 1);
                match v {
                    Ok((_, got)) => {
                        case.check(kind == Proof::Right, "accepted", || format!("{text}: accepted"));
                        case.check(got == d, "difficulty", || format!("{text}: reported {got}"));
                    }
                    Err(e) => {
                        case.check(kind != Proof::Right, "refused", || format!("{text}: refused {e:?}"));
                    }
                }
                if case.failed() {
                    return;
                }
            }
        }
        case.sample_events(8);
    });
    // many in flight at once: each gets its own verdict
    run_cases(ctx, "concurrent", ctx.n(30, 400), 2, |case| in_flight(case, "accepted", "refused"));
    ctx.require("submissions", 3000);
    ctx.require("accepted", 300);
}

/// Many threads, right and wrong proofs mixed, each judged on its own.
fn in_flight(case: &Case, wrong_ok: &str, wrong_err: &str) {
    let mut rng = case.rng(1);
    let threads = rng.range(2, 6) as usize;
    let workers = rng.range(1, 4) as usize;
    let r = Real::new(case, &mut rng, workers, 64);
    for k in 0..3u32 {
        r.add(case, &format!("site{k}"), &[(u32::MAX, 3 + 60 * k)], 3600);
    }
    let n = 25;
    together(threads, |t| {
        let mut rng = case.rng(100 + t as u64);
        for _ in 0..n {
            if case.failed() {
                return;
            }
            let name = format!("site{}", rng.below(3));
            let p = r.challenge(case, &name);
            let kind = if rng.chance(1, 2) { Proof::Right } else { *rng.pick(&WRONG) };
            let Some(w) = proof(&mut rng, kind, &r.salt, &p.string, p.difficulty_factor, &name) else { continue };
            let text = format!("thread {t}: {kind:?} for {} at {}: result {:.50}", p.string, p.difficulty_factor, w.result);
            let v = r.submit(case, w, &format!("ip{}", rng.below(3)));
            case.tick();
            case.count("submissions", 1);
            case.seen((threads, kind, p.difficulty_factor, v.is_ok()));
            match v {
                Ok((_, d)) => {
                    case.count("accepted", 1);
                    case.check(kind == Proof::Right, wrong_ok, || format!("{text}: accepted"));
                    case.check(d == p.difficulty_factor, wrong_ok, || format!("{text}: reported difficulty {d}"));
                }
                Err(e) => {
                    case.check(kind != Proof::Right, wrong_err, || format!("{text}: refused with {e:?}"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C02
pub fn c02(ctx: &Arc<Ctx>) {
    ctx.rule("repeated submissions of the same challenge, one after the other with time and other traffic between, interleaved on one thread by delaying the cache, and from several threads at once; acceptances counted per challenge; distinct = distinct (order of proofs, verdicts) situations");
    let w = Weights { get: 6, submit: 12, validate: 1, time: 2, load: 0, wrong: 3, family: false };
    run_cases(ctx, "world", ctx.n(1200, 15000), 4, |case| world(case, &w));
    run_cases(ctx, "outstanding", ctx.n(8, 60), 8, |case| outstanding(case, false));
    run_cases(ctx, "interleaved", ctx.n(800, 8000), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let m = Master::new(NEVER).start();
            let st: Arc<Mutex<SpyState>> = Arc::default();
            st.lock().unwrap().delay = Some(case.rng(7));
            let cache = Spy { inner: HashCache::default().start(), st: st.clone() }.start();
            let sys = Rc::new(build(&m, &cache, "salt", rng.range(1, 3) as usize, 100));
            let r = case.ask_rx(&m, AddSite { id: "s".into(), mcaptcha: build_mcaptcha(&[(u32::MAX, 20)], 1000) }, "AddSite").await;
            case.must(r, "AddSite");
            let p = rng.range(1, 4);
            let mut tasks = vec![];
            let mut right = vec![true; p as usize];
            let mut strings = vec![];
            for i in 0..p as usize {
                let ch = match hold(sys.get_pow("s".into())).await {
                    Ok(Some(c)) => c,
                    r => case.abort("no-challenge", format!("{r:?}")),
                };
                for k in 0..rng.range(1, 5) {
                    let kind = if rng.chance(5, 6) { Proof::Right } else { *rng.pick(&WRONG) };
                    let Some(w) = proof(&mut rng, kind, "salt", &ch.string, ch.difficulty_factor, "s") else { continue };
                    right[i] &= kind == Proof::Right;
                    let d = rng.below(20);
                    let sys = sys.clone();
                    tasks.push((
                        i,
                        kind,
                        actix_rt::spawn(async move {
                            yields(d).await;
                            hold(sys.verify_pow(w, format!("ip{k}"))).await
                        }),
                    ));
                }
                strings.push(ch.string);
            }
            let mut wins: HashMap<usize, usize> = HashMap::new();
            let mut tried: HashMap<usize, usize> = HashMap::new();
            for (i, kind, t) in tasks {
                let r = match hold(t).await {
                    Ok(r) => r,
                    Err(e) => case.abort("not-answered", format!("submission panicked: {e:?}")),
                };
                case.ev(format!("challenge {i} {kind:?}: {r:?}"));
                case.count("concurrent_submissions", 1);
                *tried.entry(i).or_default() += 1;
                *wins.entry(i).or_default() += r.is_ok() as usize;
            }
            for (i, n) in &wins {
                case.check(*n <= 1, "redeemed-again", || format!("challenge {i} was redeemed {n} times"));
                case.check(*n == 1 || !right[*i], "not-redeemed", || {
                    format!("challenge {i}: {} correct submissions at once, none was accepted", tried[i])
                });
            }
            let minted = st.lock().unwrap().tokens.len();
            let won: usize = wins.values().sum();
            case.check(minted == won, "redeemed-again", || format!("{won} accepted, {minted} tokens came into existence"));
            // order in which the cache saw them
            let order: Vec<_> = st.lock().unwrap().retrieved.iter().map(|s| strings.iter().position(|x| x == s)).collect();
            case.seen((order, &right, won));
            case.sample_events(10);
            hold(async { drop(sys) }).await;
        });
    });
    run_cases(ctx, "threads", ctx.n(40, 500), 2, |case| {
        let mut rng = case.rng(1);
        let threads = rng.range(2, 6) as usize;
        let workers = rng.range(1, 4) as usize;
        let r = Real::new(case, &mut rng, workers, 64);
        r.add(case, "s", &[(u32::MAX, 8)], 3600);
        for round in 0..case.ctx.n(40, 60) {
            let ch = r.challenge(case, "s");
            let bystander = r.challenge(case, "s");
            let all_right = rng.chance(2, 3);
            let works: Vec<(Proof, Work)> = (0..threads)
                .map(|t| {
                    let k = if all_right || t % 2 == 0 { Proof::Right } else { Proof::Inflated };
                    match proof(&mut rng, k, &r.salt, &ch.string, ch.difficulty_factor, "s") {
                        Some(w) => (k, w),
                        None => (Proof::Right, proof(&mut rng, Proof::Right, &r.salt, &ch.string, ch.difficulty_factor, "s").unwrap()),
                    }
                })
                .collect();
            let res = together(threads, |t| r.submit(case, works[t].1.clone(), &format!("ip{}", t % 2)).is_ok());
            let wins = res.iter().filter(|x| **x).count();
            case.tick();
            case.count("concurrent_submissions", threads as u64);
            case.seen((threads, &res));
            case.ev(format!("round {round}: {:?} -> {res:?}", works.iter().map(|w| w.0).collect::<Vec<_>>()));
            case.check(wins <= 1, "redeemed-again", || format!("one challenge was redeemed {wins} times"));
            case.check(wins == 1 || works.iter().any(|w| w.0 != Proof::Right), "not-redeemed", || {
                format!("{threads} correct submissions at once, none was accepted")
            });
            let w = proof(&mut rng, Proof::Right, &r.salt, &bystander.string, bystander.difficulty_factor, "s").unwrap();
            let v = r.submit(case, w.clone(), "z");
            case.check(v.is_ok(), "bystander", || format!("another outstanding challenge was refused: {v:?}"));
            let v = r.submit(case, w, "z");
            case.check(v.is_err(), "redeemed-again", || "redeemed again right away".to_string());
            if case.failed() {
                return;
            }
        }
        case.sample_events(4);
    });
    ctx.require("submissions", 3000);
    ctx.require("concurrent_submissions", 2000);
}

/// Many entries outstanding at once, straight at the embedded cache: some are used, some
/// expire, more come, and in the end every one that is left must still be good, once.
pub fn outstanding(case: &Case, tokens: bool) {
    let mut rng = case.rng(1);
    virtual_time(async {
        let clock = Clock::new();
        let cache = HashCache::default().start();
        // few or thousands
        let top = *rng.pick(&[50u64, 200, 700, 1500, 2500]);
        let nsites = rng.range(1, 4);
        let shape = rng.below(3);
        // (string, site, difficulty, duration, issued at)
        let mut left: Vec<(String, u64, u32, u64, u64)> = vec![];
        let mut serial = 0u64;
        let put = |e: (String, u64, u32, u64, u64)| {
            let (case, cache) = (case.clone(), cache.clone());
            async move {
                let key = format!("s{}", e.1);
                if tokens {
                    let r = case.ask_rx(&cache, CacheResult { token: e.0, key, duration: e.3 }, "CacheResult").await;
                    case.must(r, "CacheResult");
                } else {
                    let m = CachePoW { string: e.0, difficulty_factor: e.2, duration: e.3, key };
                    let r = case.ask_rx(&cache, m, "CachePoW").await;
                    case.must(r, "CachePoW");
                }
            }
        };
        // what the cache says about it now: difficulty and duration, or 0 and 0 for a token
        let take = |e: (String, u64, u32, u64, u64)| {
            let (case, cache) = (case.clone(), cache.clone());
            async move {
                let m = VerifyCaptchaResult { token: e.0, key: format!("s{}", e.1) };
                if tokens {
                    let r = case.ask_rx(&cache, m, "VerifyCaptchaResult").await;
                    case.must(r, "VerifyCaptchaResult").then_some((0, 0, format!("s{}", e.1)))
                } else {
                    let r = case.ask_rx(&cache, RetrivePoW(m), "RetrivePoW").await;
                    case.must(r, "RetrivePoW").map(|c| (c.difficulty_factor, c.duration, c.key))
                }
            }
        };
        let good = |e: &(String, u64, u32, u64, u64)| if tokens { (0, 0, format!("s{}", e.1)) } else { (e.2, e.3, format!("s{}", e.1)) };
        let word = if tokens { "token" } else { "challenge" };
        for phase in 0..rng.range(1, 3) {
            let n = rng.range(top / 2, top);
            for _ in 0..n {
                serial += 1;
                let dur = if shape == 0 || rng.chance(1, 2) { 100_000 } else { rng.range(1, 5) };
                let name = match shape {
                    0 => format!("{serial}"),
                    _ => format!("{:x}-{serial}-{}", rng.u64(), "x".repeat(rng.below(20) as usize)),
                };
                let e = (name, rng.below(nsites), rng.range(1, 9) as u32, dur, clock.ms());
                put(e.clone()).await;
                left.push(e);
            }
            case.seen((phase, left.len()));
            // some are used, in any order, some twice
            for _ in 0..rng.below(left.len() as u64) {
                let i = rng.below(left.len() as u64) as usize;
                let e = left.swap_remove(i);
                let v = take(e.clone()).await;
                if !case.check(v == Some(good(&e)), "lost", || format!("{word} {:?}, one of {} outstanding, is {v:?}", e.0, left.len() + 1)) {
                    return;
                }
                if rng.chance(1, 20) {
                    let v = take(e.clone()).await;
                    case.check(v.is_none(), "twice", || format!("{word} {:?} is good a second time", e.0));
                }
            }
            if rng.chance(2, 3) {
                let to = clock.ms() + rng.range(5_500, 9_000);
                clock.until(to).await;
                let (gone, kept): (Vec<_>, Vec<_>) = left.into_iter().partition(|e| e.3 <= 5);
                left = kept;
                for e in gone.iter().take(20) {
                    let v = take(e.clone()).await;
                    case.check(v.is_none(), "expired", || format!("{word} {:?} of {} s is good after {to} ms", e.0, e.3));
                }
            }
        }
        let n = left.len();
        let now = clock.ms();
        while let Some(e) = left.pop() {
            if now + 20 >= e.4 + e.3 * 1000 {
                continue;
            }
            let v = take(e.clone()).await;
            if !case.check(v == Some(good(&e)), "lost", || format!("{word} {:?}, one of {n} outstanding at the end, is {v:?}", e.0)) {
                return;
            }
        }
        case.count("entries_outstanding", serial);
        case.ev(format!("{serial} entries of {nsites} sites, {n} left at the end"));
    });
    case.sample_events(3);
}

// ------------------------------------------------------------------ C03
pub fn c03(ctx: &Arc<Ctx>) {
    ctx.rule("tokens minted by accepted submissions validated under own, other and near-miss keys, altered, repeated, and concurrently, with and without delays in the cache; distinct = distinct (token state, key, verdict) situations and interleavings");
    let w = Weights { get: 5, submit: 7, validate: 10, time: 1, load: 0, wrong: 1, family: false };
    run_cases(ctx, "world", ctx.n(1200, 15000), 4, |case| world(case, &w));
    run_cases(ctx, "outstanding", ctx.n(3, 24), 8, |case| outstanding(case, true));
    run_cases(ctx, "interleaved", ctx.n(800, 8000), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let m = Master::new(NEVER).start();
            let st: Arc<Mutex<SpyState>> = Arc::default();
            st.lock().unwrap().delay = Some(case.rng(7));
            let cache = Spy { inner: HashCache::default().start(), st: st.clone() }.start();
            let sys = Rc::new(build(&m, &cache, "salt", 1, 100));
            for s in ["s", "s "] {
                let r = case.ask_rx(&m, AddSite { id: s.into(), mcaptcha: build_mcaptcha(&[(u32::MAX, 2)], 1000) }, "AddSite").await;
                case.must(r, "AddSite");
            }
            let mut tokens = vec![];
            for _ in 0..rng.range(1, 3) {
                let site = *rng.pick(&["s", "s "]);
                let Ok(Some(ch)) = hold(sys.get_pow(site.into())).await else { case.abort("no-challenge", "get_pow") };
                let w = proof(&mut rng, Proof::Right, "salt", &ch.string, 2, site).unwrap();
                match hold(sys.verify_pow(w, "ip".into())).await {
                    Ok(t) => tokens.push((site, t.0)),
                    Err(e) => case.abort("no-token", format!("{e:?}")),
                }
            }
            let mut tasks = vec![];
            let foreign = rng.chance(1, 3);
            for (i, (site, t)) in tokens.iter().enumerate() {
                for _ in 0..rng.range(1, 5) {
                    let key = if foreign && rng.chance(1, 4) { if *site == "s" { "s " } else { "s" } } else { *site };
                    let (sys, t, d) = (sys.clone(), t.clone(), rng.below(15));
                    let own = key == *site;
                    tasks.push((i, own, actix_rt::spawn(async move {
                        yields(d).await;
                        let msg = VerifyCaptchaResult { token: t, key: key.into() };
                        hold(sys.validate_verification_tokens(msg)).await
                    })));
                }
            }
            let mut yes = vec![0; tokens.len()];
            let mut pure = vec![true; tokens.len()];
            let mut tried = vec![0; tokens.len()];
            let mut seen = vec![];
            for (i, own, t) in tasks {
                let r = match hold(t).await {
                    Ok(Ok(r)) => r,
                    x => case.abort("not-answered", format!("validation: {x:?}")),
                };
                case.ev(format!("token {i} own key {own}: {r}"));
                case.count("concurrent_validations", 1);
                case.check(own || !r, "wrong-site", || "validated for another site".to_string());
                pure[i] &= own;
                tried[i] += 1;
                yes[i] += r as usize;
                seen.push((i, own, r));
            }
            for i in 0..tokens.len() {
                case.check(yes[i] <= 1, "validated-again", || format!("token {i} validated {} times", yes[i]));
                case.check(yes[i] == 1 || !pure[i], "not-validated", || format!("token {i}: none of {} concurrent validations succeeded", tried[i]));
            }
            case.seen(seen);
            // the cache fails to store the token: nobody may get it
            let Ok(Some(ch)) = hold(sys.get_pow("s".into())).await else { case.abort("no-challenge", "get_pow") };
            let w = proof(&mut rng, Proof::Right, "salt", &ch.string, 2, "s").unwrap();
            let fault = *rng.pick(&[Fault::Error, Fault::Closed]);
            st.lock().unwrap().on_token = fault;
            let v = hold(sys.verify_pow(w, "ip".into())).await;
            case.count("faults", 1);
            case.check(v.is_err(), "unstored-token", || format!("{v:?} although the cache could not store the token ({fault:?})"));
            // the cache fails to answer a validation: no made-up verdict
            st.lock().unwrap().on_validate = fault;
            let msg = VerifyCaptchaResult { token: tokens[0].1.clone(), key: tokens[0].0.into() };
            let v = hold(sys.validate_verification_tokens(msg)).await;
            case.check(v != Ok(true), "made-up", || format!("validation answered {v:?} although the cache did not answer"));
            case.sample_events(8);
            hold(async { drop(sys) }).await;
        });
    });
    run_cases(ctx, "threads", ctx.n(40, 500), 2, |case| {
        let mut rng = case.rng(1);
        let threads = rng.range(2, 6) as usize;
        let r = Real::new(case, &mut rng, 2, 64);
        for s in ["s", "t"] {
            r.add(case, s, &[(u32::MAX, 2)], 3600);
        }
        let mint = |rng: &mut Rng, site: &str| {
            let ch = r.challenge(case, site);
            let w = proof(rng, Proof::Right, &r.salt, &ch.string, ch.difficulty_factor, site).unwrap();
            match r.submit(case, w, "ip") {
                Ok(t) => t.0,
                Err(e) => case.abort("no-token", format!("{e:?}")),
            }
        };
        for round in 0..case.ctx.n(50, 60) {
            let t = mint(&mut rng, "s");
            let other = mint(&mut rng, "t");
            let miss = rng.near_miss(&t);
            let res = together(threads, |i| {
                // some of them try something else at the same time
                let a = if i == 1 && round % 3 == 0 { r.validate(case, &miss, "s") } else { Ok(false) };
                let b = r.validate(case, &t, "s");
                (a, b)
            });
            let n = res.iter().filter(|x| x.1 == Ok(true)).count();
            case.tick();
            case.count("concurrent_validations", threads as u64);
            case.seen((threads, format!("{res:?}")));
            case.ev(format!("round {round}: {res:?}"));
            case.check(n == 1, if n > 1 { "validated-again" } else { "not-validated" }, || format!("{threads} concurrent validations, {n} succeeded"));
            case.check(res.iter().all(|x| x.0 == Ok(false)), "accepted", || format!("an altered token validated: {res:?}"));
            let o = r.validate(case, &other, "t");
            case.check(o == Ok(true), "bystander", || format!("another token: {o:?}"));
            let o = r.validate(case, &other, "t");
            case.check(o == Ok(false), "validated-again", || format!("validated again: {o:?}"));
            if case.failed() {
                return;
            }
        }
        case.sample_events(4);
    });
    ctx.require("validations", 3000);
    ctx.require("validated_true", 300);
    ctx.require("concurrent_validations", 2000);
}

// ------------------------------------------------------------------ C04
pub fn c04(ctx: &Arc<Ctx>) {
    ctx.rule("virtual time; redemptions and validations placed up to 5 ms before and after each lifetime's end, in crowds of challenges and tokens of several sites with different durations; instants within 4 ms of an end are not judged; distinct = distinct (duration, age, state, verdict) situations");
    let w = Weights { get: 6, submit: 6, validate: 6, time: 8, load: 0, wrong: 1, family: false };
    run_cases(ctx, "world", ctx.n(1200, 15000), 4, |case| world(case, &w));
    run_cases(ctx, "crowds", ctx.n(120, 1500), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let m = Master::new(NEVER).start();
            let cache = HashCache::default().start();
            let sys = build(&m, &cache, "salt", 2, 100);
            let durs: Vec<u64> = (0..rng.range(1, 4)).map(|_| *rng.pick(&[1u64, 2, 3, 4, 7, 60, 86_400])).collect();
            for (i, d) in durs.iter().enumerate() {
                let r = case.ask_rx(&m, AddSite { id: format!("s{i}"), mcaptcha: build_mcaptcha(&[(u32::MAX, 1)], *d) }, "AddSite").await;
                case.must(r, "AddSite");
            }
            // (due, what): each challenge is redeemed once at a chosen age, each token validated once
            enum What {
                Redeem { string: String, site: usize, end: u64 },
                Validate { token: String, site: usize, end: u64 },
            }
            let mut agenda: Vec<(u64, What)> = vec![];
            let n = rng.range(10, 60);
            let mut t = 0;
            let age = |rng: &mut Rng, d: u64| match rng.below(6) {
                0 => 0,
                1 | 2 => d * 1000 - 5,
                3 => d * 1000 + 5,
                4 => d * 1000 + 5 + rng.below(d * 1000),
                _ => rng.below(d * 1000 - 5),
            };
            let mut issue: Vec<(u64, usize)> = (0..n)
                .map(|_| {
                    t += *rng.pick(&[0u64, 0, 0, 7, 250, 1000]);
                    (t, rng.below(durs.len() as u64) as usize)
                })
                .collect();
            issue.reverse();
            loop {
                // next event in time order
                let na = agenda.iter().enumerate().min_by_key(|x| x.1 .0).map(|x| (x.1 .0, x.0));
                let ni = issue.last().copied();
                let (at, is_issue) = match (na, ni) {
                    (None, None) => break,
                    (Some(a), Some(i)) if a.0 < i.0 => (a.0, false),
                    (_, Some(i)) => (i.0, true),
                    (Some(a), None) => (a.0, false),
                };
                if at > clock.ms() {
                    clock.until(at).await;
                }
                let now = clock.ms();
                case.tick();
                if is_issue {
                    let (_, s) = issue.pop().unwrap();
                    let Ok(Some(ch)) = hold(sys.get_pow(format!("s{s}"))).await else { case.abort("no-challenge", "get_pow") };
                    let a = age(&mut rng, durs[s]);
                    agenda.push((now + a, What::Redeem { string: ch.string, site: s, end: now + durs[s] * 1000 }));
                    continue;
                }
                match agenda.swap_remove(na.unwrap().1).1 {
                    What::Redeem { string, site, end } => {
                        let w = proof(&mut rng, Proof::Right, "salt", &string, 1, &format!("s{site}")).unwrap();
                        let v = hold(sys.verify_pow(w, "ip".into())).await;
                        case.ev(format!("{now}ms redeem a challenge of s{site} ({}s) that ends at {end}ms: {}", durs[site], v.is_ok()));
                        if dist(now, end) >= 4 {
                            case.seen(("redeem", durs[site], (end as i64 - now as i64).clamp(-9000, 9000) / 50, v.is_ok()));
                            case.count("ages_judged", 1);
                            case.check(v.is_err() || now < end, "expired-redeemed", || format!("{now}ms: redeemed although it ended at {end}ms"));
                            case.check(v.is_ok() || now > end, "expired-early", || format!("{now}ms: refused although it lasts until {end}ms: {v:?}"));
                        }
                        if let Ok((token, _)) = v {
                            let a = age(&mut rng, durs[site]);
                            agenda.push((now + a, What::Validate { token, site, end: now + durs[site] * 1000 }));
                        }
                    }
                    What::Validate { token, site, end } => {
                        let msg = VerifyCaptchaResult { token, key: format!("s{site}") };
                        let v = hold(sys.validate_verification_tokens(msg)).await;
                        case.ev(format!("{now}ms validate a token of s{site} ({}s) that ends at {end}ms: {v:?}", durs[site]));
                        if dist(now, end) >= 4 {
                            case.seen(("validate", durs[site], (end as i64 - now as i64).clamp(-9000, 9000) / 50, v == Ok(true)));
                            case.count("ages_judged", 1);
                            case.check(v != Ok(true) || now < end, "expired-validated", || format!("{now}ms: validated although it ended at {end}ms"));
                            case.check(v == Ok(true) || now > end, "expired-early", || format!("{now}ms: {v:?} although it lasts until {end}ms"));
                        }
                    }
                }
                if case.failed() {
                    return;
                }
            }
            case.sample_events(10);
            hold(async { drop(sys) }).await;
        });
    });
    // lifetimes of days, years and beyond
    run_cases(ctx, "long", ctx.n(60, 600), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let cache = HashCache::default().start();
            const LONG: [u64; 10] =
                [65_535, 65_536, 86_400, 2_147_483, 2_147_484, 4_294_967, 4_294_968, 10_000_000, 16_777_216, 31_536_000];
            // tokio's paused clock does not find its way past timers of more than 2^36 ms, so
            // beyond that the clock is only moved by hand, a little
            const FAR: [u64; 12] = [
                100_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 4_294_967_301, 9_223_372_036_854_775,
                18_446_744_073_709_551, 18_446_744_073_709_552, 9_223_372_036_854_775_807, u64::MAX - 1, u64::MAX,
            ];
            let far = rng.chance(1, 2);
            // (checked at, ends at or never, token?, key)
            let mut agenda: Vec<(u64, Option<u64>, bool, String, u64)> = vec![];
            for i in 0..rng.range(4, 16) {
                let d = match rng.below(4) {
                    0 if far => (1u64 << rng.below(64)).wrapping_add(rng.below(5)).max(1),
                    0 => (1u64 << rng.below(25)) + rng.below(5),
                    _ if far => *rng.pick(&FAR),
                    _ => *rng.pick(&LONG),
                };
                let token = rng.chance(1, 2);
                let k = format!("k{i}");
                let r = if token {
                    hold(case.ask_rx(&cache, CacheResult { token: k.clone(), key: "s".into(), duration: d }, "CacheResult")).await
                } else {
                    let m = CachePoWBuilder::default().string(k.clone()).difficulty_factor(7).duration(d).key("s".into()).build().unwrap();
                    hold(case.ask_rx(&cache, m, "CachePoW")).await
                };
                case.must(r, "storing");
                let ends = d.checked_mul(1000);
                let at = match (ends, rng.below(5)) {
                    _ if far => rng.below(5000),
                    (Some(e), 0) => e + 5 + rng.below(e),
                    (Some(e), 1) => e - 5,
                    (Some(e), _) => rng.below(e - 5),
                    (None, _) => rng.below(3000),
                };
                agenda.push((at, ends, token, k, d));
            }
            agenda.sort();
            for (at, ends, token, k, d) in agenda {
                while far && clock.ms() < at {
                    hold(async {
                        tokio::time::advance(Duration::from_millis(100)).await;
                        settle().await
                    })
                    .await;
                }
                if !far {
                    clock.until(at).await;
                }
                let now = clock.ms();
                if ends.map_or(false, |e| dist(now, e) < 4) {
                    continue;
                }
                let msg = VerifyCaptchaResult { token: k.clone(), key: "s".into() };
                let there = if token {
                    case.must(hold(case.ask_rx(&cache, msg, "VerifyCaptchaResult")).await, "VerifyCaptchaResult")
                } else {
                    case.must(hold(case.ask_rx(&cache, RetrivePoW(msg), "RetrivePoW")).await, "RetrivePoW").is_some()
                };
                let want = ends.map_or(true, |e| now < e);
                case.ev(format!("{now}ms {} of {d}s: {there}", if token { "token" } else { "challenge" }));
                case.seen(("long", d, token, now >> 10));
                case.count("ages_judged", 1);
                case.count("long_lifetimes_judged", 1);
                case.check(there == want, if want { "expired-early" } else { "expired-found" }, || {
                    format!("{} stored for {d} s is {}there after {now} ms", if token { "token" } else { "challenge" }, if there { "" } else { "not " })
                });
            }
            case.sample_events(8);
        });
    });
    ctx.require("ages_judged", 2000);
    ctx.require("long_lifetimes_judged", 100);
    ctx.require("validated_true", 100);
}

// ------------------------------------------------------------------ C05
pub fn c05(ctx: &Arc<Ctx>) {
    ctx.rule("challenges requested under changing load, one by one and interleaved on one thread, for registered and near-miss unregistered names, with delayed and failing caches; compared with the load model, the cache's log and the registry's snapshot; distinct = distinct (difficulty, duration, situation)");
    let w = Weights { get: 12, submit: 3, validate: 0, time: 3, load: 3, wrong: 2, family: false };
    run_cases(ctx, "world", ctx.n(800, 10000), 4, |case| world(case, &w));
    run_cases(ctx, "names-and-faults", ctx.n(600, 6000), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let m = Master::new(NEVER).start();
            let st: Arc<Mutex<SpyState>> = Arc::default();
            st.lock().unwrap().delay = Some(case.rng(7));
            let inner = HashCache::default().start();
            let cache = Spy { inner, st: st.clone() }.start();
            let sys = Rc::new(build(&m, &cache, &rng.name(), 1, 100));
            let mut model: BTreeMap<String, Site> = BTreeMap::new();
            for _ in 0..rng.range(1, 3) {
                let (n, lv) = (rng.name(), gen_levels(&mut rng, 4, 8, 1000));
                let r = case.ask_rx(&m, AddSite { id: n.clone(), mcaptcha: build_mcaptcha(&lv, 1000) }, "AddSite").await;
                case.must(r, "AddSite");
                model.insert(n, Site::new(lv, 1000));
            }
            let names: Vec<String> = model.keys().cloned().collect();
            for _ in 0..rng.range(5, 25) {
                let name = rng.pick(&names).clone();
                let before = st.lock().unwrap().pows.len();
                match rng.below(4) {
                    0 => {
                        let mut x = rng.near_miss(&name);
                        while model.contains_key(&x) {
                            x.push('~');
                        }
                        let r = hold(sys.get_pow(x.clone())).await;
                        case.ev(format!("get_pow({x:?}) = {r:?}"));
                        case.check(matches!(r, Ok(None)), "unknown-answered", || format!("unregistered {x:?} got {r:?}"));
                        let n = st.lock().unwrap().pows.len();
                        case.check(n == before, "unknown-stored", || "a challenge was stored for an unregistered name".to_string());
                        case.count("unknown_names", 1);
                    }
                    1 => {
                        let fault = *rng.pick(&[Fault::Error, Fault::Closed]);
                        st.lock().unwrap().on_store = fault;
                        let r = hold(sys.get_pow(name.clone())).await;
                        st.lock().unwrap().on_store = Fault::None;
                        case.ev(format!("get_pow({name:?}) with a failing cache ({fault:?}) = {r:?}"));
                        case.check(r.is_err(), "unstored-challenge", || format!("cache failed to store ({fault:?}), caller got {r:?}"));
                        // the visitor came all the same
                        model.get_mut(&name).unwrap().visit();
                        case.count("faults", 1);
                    }
                    2 => {
                        let r = hold(sys.get_pow(name.clone())).await;
                        let want = model.get_mut(&name).unwrap().visit();
                        case.check(matches!(&r, Ok(Some(p)) if p.difficulty_factor == want), "difficulty", || {
                            format!("got {r:?}, expected difficulty {want}")
                        });
                    }
                    _ => {
                        // several at once: together they must look like that many visitors
                        let k = rng.range(2, 6);
                        let mut tasks = vec![];
                        for _ in 0..k {
                            let (sys, name, d) = (sys.clone(), name.clone(), rng.below(12));
                            let st = st.clone();
                            tasks.push(actix_rt::spawn(async move {
                                yields(d).await;
                                let r = hold(sys.get_pow(name)).await;
                                let held = match &r {
                                    Ok(Some(p)) => st.lock().unwrap().held.contains(&p.string),
                                    _ => false,
                                };
                                (r, held)
                            }));
                        }
                        let site = model.get_mut(&name).unwrap();
                        let mut want: Vec<u32> = (0..k).map(|_| site.visit()).collect();
                        let mut got = vec![];
                        for t in tasks {
                            match hold(t).await {
                                Ok((Ok(Some(p)), held)) => {
                                    case.check(held, "not-held", || "handed out before the cache held it".to_string());
                                    got.push(p.difficulty_factor);
                                }
                                x => case.abort("no-challenge", format!("{x:?}")),
                            }
                        }
                        got.sort();
                        want.sort();
                        case.ev(format!("{k} concurrent get_pow({name:?}): difficulties {got:?}"));
                        case.check(got == want, "difficulty", || format!("{k} concurrent requests got difficulties {got:?}, expected {want:?}"));
                        let n = st.lock().unwrap().pows.len() - before;
                        case.check(n == k as usize, "stored-differently", || format!("{k} requests, {n} challenges stored"));
                    }
                }
                // nothing but the visits happened
                let s = case.must(case.ask_rx(&m, GetInternalData, "GetInternalData").await, "GetInternalData");
                case.check(
                    s.len() == model.len() && model.iter().all(|(n, x)| s.get(n).map(observe) == Some(expect_of(x))),
                    "registry",
                    || format!("registry is {:?}, expected {model:?}", s.iter().map(|(n, x)| (n, observe(x))).collect::<Vec<_>>()),
                );
                case.count("requests_judged", 1);
                case.seen((&name, model[&name].level, model[&name].count, clock.ms()));
                if case.failed() {
                    return;
                }
            }
            // a cache that is gone
            st.lock().unwrap().delay = None;
            case.ask(&cache, Quit, "stop the cache").await;
            let r = hold(sys.get_pow(names[0].clone())).await;
            case.check(r.is_err(), "unstored-challenge", || format!("cache is gone, caller got {r:?}"));
            case.count("faults", 1);
            case.sample_events(8);
            hold(async { drop(sys) }).await;
        });
    });
    ctx.require("requests_judged", 2000);
    ctx.require("faults", 200);
    ctx.require("unknown_names", 200);
    ctx.require("challenges", 500);
}

// ------------------------------------------------------------------ C13-C16, public view
/// a string whose proof check takes a while
fn slow_string(rng: &mut Rng, mb: usize) -> String {
    let tag = rng.alnum(32);
    let mut s = "x".repeat(mb << 20);
    s.push_str(&tag);
    s
}
fn some_result() -> String {
    u128::MAX.to_string()
}

pub fn c13_public(ctx: &Arc<Ctx>) {
    ctx.rule("through the public System: submissions of right and wrong proofs from many threads and, on a single thread, in every order of being resumed; each caller must get the verdict of its own submission");
    run_cases(ctx, "own-verdict", ctx.n(30, 300), 2, |case| in_flight(case, "foreign-verdict", "foreign-verdict"));
    // one thread, few workers: callers are resumed in an order chosen by us
    run_cases(ctx, "one-thread", ctx.n(150, 1500), 4, |case| {
        let mut rng = case.rng(1);
        let workers = rng.range(1, 2) as usize;
        let r = Real::new(case, &mut rng, workers, 100);
        r.add(case, "s", &[(u32::MAX, 40)], 3600);
        let slow = rng.chance(2, 3);
        let mut works: Vec<(Option<Proof>, Work, String)> = vec![];
        if slow {
            // keeps a worker busy until the others are waiting
            let s = slow_string(&mut rng, 4);
            r.plant(case, &s, 1, "s", 3600);
            works.push((None, Work { string: s, result: some_result(), nonce: 0, key: "s".into() }, "ip0".into()));
        }
        for _ in 0..rng.range(2, 7) {
            let ch = r.challenge(case, "s");
            let kind = if rng.chance(1, 2) { Proof::Right } else { *rng.pick(&WRONG) };
            let Some(w) = proof(&mut rng, kind, &r.salt, &ch.string, ch.difficulty_factor, "s") else { continue };
            works.push((Some(kind), w, format!("ip{}", rng.below(3))));
        }
        let kinds: Vec<_> = works.iter().map(|w| w.0).collect();
        case.ev(format!("{kinds:?} from {:?}", works.iter().map(|w| &w.2).collect::<Vec<_>>()));
        // Poll them in turn until each one is admitted, then resume in a random order.
        // verify_pow reaches its admission after a few rounds with the cache.
        let sys = r.sys().clone();
        let mut futs: Vec<_> = works
            .iter()
            .map(|w| Some(Box::pin(sys.verify_pow(w.1.clone(), w.2.clone()))))
            .collect();
        let flags: Vec<Arc<WakeFlag>> = futs.iter().map(|_| Arc::new(WakeFlag(AtomicUsize::new(1)))).collect();
        let mut order: Vec<usize> = (0..futs.len()).collect();
        rng.shuffle(&mut order);
        let reverse = rng.chance(1, 2);
        let t = Instant::now();
        let mut out: Vec<Option<CaptchaResult<(String, u32)>>> = works.iter().map(|_| None).collect();
        let mut polls = 0u64;
        while out.iter().any(|o| o.is_none()) {
            let mut any = false;
            let ready: Vec<usize> = order.iter().copied().filter(|i| futs[*i].is_some() && flags[*i].0.load(SeqCst) > 0).collect();
            let pick = if reverse { ready.last().copied() } else if ready.is_empty() { None } else { Some(*rng.pick(&ready)) };
            if let Some(i) = pick {
                flags[i].0.store(0, SeqCst);
                let w = std::task::Waker::from(flags[i].clone());
                let mut cx = std::task::Context::from_waker(&w);
                if let std::task::Poll::Ready(v) = std::future::Future::poll(futs[i].as_mut().unwrap().as_mut(), &mut cx) {
                    futs[i] = None;
                    out[i] = Some(v);
                }
                any = true;
                polls += 1;
                // everyone who can be admitted shall be before anybody goes on
                if rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(rng.below(300)));
                }
            }
            if !any {
                if t.elapsed() > MAX {
                    case.fail("not-answered", format!("submissions without an answer: {:?}", out.iter().map(|o| o.is_some()).collect::<Vec<_>>()));
                    return;
                }
                std::thread::sleep(Duration::from_micros(20));
            }
        }
        case.seen((&kinds, reverse, &order));
        case.count("polls", polls);
        for (i, o) in out.iter().enumerate() {
            case.count("public_submissions", 1);
            if let Some(k) = kinds[i] {
                let ok = o.as_ref().unwrap().is_ok();
                case.check(ok == (k == Proof::Right), "foreign-verdict", || format!("{k:?} was answered {:?}", o));
            }
        }
        case.sample_events(3);
    });
    ctx.require("public_submissions", 300);
}
pub struct WakeFlag(pub AtomicUsize);
impl std::task::Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

pub fn c14_public(ctx: &Arc<Ctx>) {
    ctx.rule("through the public System: long runs of submissions from ever new addresses, none waiting when the next one arrives; live heap compared before and after");
    run_cases(ctx, "new-addresses", ctx.n(6, 40), 1, |case| {
        let mut rng = case.rng(1);
        let limit = rng.range(1, 3) as usize;
        let workers = rng.range(1, 3) as usize;
        let r = Real::new(case, &mut rng, workers, limit);
        let n = case.ctx.n(400, 2000);
        // verdicts do not matter here
        let mut before = 0;
        for i in 0..n {
            let s = rng.alnum(32);
            r.plant(case, &s, 1, "s", 1);
            let ip = format!("{}{}", "i".repeat(20_000), i);
            let v = r.submit(case, Work { string: s, result: some_result(), nonce: 0, key: "s".into() }, &ip);
            case.check(v != Err(CaptchaError::QueueFull), "full-while-empty", || {
                format!("submission {i} was refused although nothing was waiting (queue length {limit})")
            });
            if i == 20 {
                before = live_bytes();
            }
            case.count("public_submissions", 1);
            if case.failed() {
                return;
            }
        }
        let grown = live_bytes() - before;
        let all = (n as i64 - 20) * 20_000;
        case.seen((limit, n));
        case.ev(format!("{n} addresses of 20 kB each; live heap grew by {grown}"));
        case.check(grown < all / 3, "addresses-kept", || format!("live heap grew by {grown} bytes while {all} bytes of addresses came and went"));
        case.sample_events(3);
    });
    ctx.require("public_submissions", 1000);
}

pub fn c15_public(ctx: &Arc<Ctx>) {
    // order and rotation can only be timed here; done exactly when the queue itself is visible
    if cfg!(feature = "hooks") {
        return;
    }
    ctx.rule("through the public System only (the queue is not visible): one address floods a single busy worker, another one comes later; order of verdicts");
    run_cases(ctx, "flood", ctx.n(6, 30), 1, |case| {
        let mut rng = case.rng(1);
        let r = Real::new(case, &mut rng, 1, 100);
        let done: Mutex<Vec<(usize, Instant)>> = Mutex::default();
        let mut jobs = vec![(0usize, "flood", slow_string(&mut rng, 160))];
        for i in 1..7 {
            jobs.push((i, "flood", slow_string(&mut rng, 12)));
        }
        jobs.push((7, "other", slow_string(&mut rng, 12)));
        for j in &jobs {
            r.plant(case, &j.2, 1, "s", 3600);
        }
        let started = Instant::now();
        let admitted = AtomicU64::new(0);
        std::thread::scope(|s| {
            for (k, ip, string) in jobs {
                let (r, done, admitted) = (&r, &done, &admitted);
                s.spawn(move || {
                    let _ = r.submit(case, Work { string, result: some_result(), nonce: 0, key: "s".into() }, ip);
                    done.lock().unwrap().push((k, Instant::now()));
                });
                std::thread::sleep(Duration::from_millis(25));
                admitted.store(started.elapsed().as_millis() as u64, SeqCst);
            }
        });
        let d = done.into_inner().unwrap();
        let order: Vec<usize> = d.iter().map(|x| x.0).collect();
        let first = d.iter().find(|x| x.0 == 0).unwrap().1.duration_since(started).as_millis() as u64;
        case.ev(format!("order {order:?}; first done after {first}ms, all submitted after {}ms", admitted.load(SeqCst)));
        if first > admitted.load(SeqCst) + 100 {
            case.count("floods", 1);
            case.seen(&order);
            let pos = order.iter().position(|x| *x == 7).unwrap();
            case.check(pos <= 3, "starved", || format!("order of verdicts {order:?}: 7 is the other address"));
        }
        case.sample_events(2);
    });
}

pub fn c16_public(ctx: &Arc<Ctx>) {
    ctx.rule("through the public System: systems created, loaded, abandoned with a backlog and dropped; threads of the process counted by the OS");
    run_cases(ctx, "lifecycle", ctx.n(25, 300), 1, |case| {
        let mut rng = case.rng(1);
        let workers = rng.range(1, 6) as usize;
        let mut r = Real::new(case, &mut rng, workers, 50);
        r.add(case, "s", &[(u32::MAX, 3)], 3600);
        let extra: Vec<_> = (0..rng.below(3)).map(|_| build(&r.m, &r.cache, "x", 3, 10)).collect();
        let busy = os_threads();
        let backlog = rng.below(12);
        let sys = r.sys().clone();
        let mut works = vec![];
        for i in 0..backlog {
            let s = slow_string(&mut rng, if i < 2 { 3 } else { 1 });
            r.plant(case, &s, 1, "s", 3600);
            works.push(Work { string: s, result: some_result(), nonce: 0, key: "s".into() });
        }
        // poll until it would wait for its admission, then walk away: the job stays queued
        for (i, w) in works.into_iter().enumerate() {
            let mut f = Box::pin(sys.verify_pow(w, format!("ip{}", i % 3)));
            let flag = Arc::new(WakeFlag(AtomicUsize::new(1)));
            let wk = std::task::Waker::from(flag.clone());
            let t = Instant::now();
            // two rounds with the cache come first
            let mut n = 0;
            while n < 3 && t.elapsed() < Duration::from_secs(10) {
                if flag.0.swap(0, SeqCst) > 0 {
                    let mut cx = std::task::Context::from_waker(&wk);
                    n += 1;
                    if std::future::Future::poll(f.as_mut(), &mut cx).is_ready() {
                        break;
                    }
                } else {
                    std::thread::sleep(Duration::from_micros(20));
                }
            }
            drop(f);
            case.tick();
        }
        drop(sys);
        let t = Instant::now();
        let done = Arc::new(AtomicBool::new(false));
        let s = r.sys.take();
        let d2 = done.clone();
        let h = std::thread::spawn(move || {
            drop(s);
            drop(extra);
            d2.store(true, SeqCst);
        });
        let ok = wait_for(MAX, || done.load(SeqCst));
        case.ev(format!("{workers} workers, {backlog} abandoned submissions: dropped in {:?}, threads {busy} before", t.elapsed()));
        if !case.check(ok, "drop-hangs", || format!("dropping a system with {workers} workers and {backlog} queued submissions does not end")) {
            return;
        }
        let _ = h.join();
        case.seen((workers, backlog));
        case.count("systems_dropped", 1);
        case.sample_events(2);
    });
    // nobody is left, however often
    run_cases(ctx, "thread-census", 1, 1, |case| {
        let mut rng = case.rng(1);
        let r = Real::new(case, &mut rng, 1, 10);
        r.add(case, "s", &[(u32::MAX, 3)], 3600);
        let base = os_threads();
        let n = case.ctx.n(60, 400);
        for i in 0..n {
            let s = build(&r.m, &r.cache, "x", 1 + (i as usize % 8), 10);
            if i % 2 == 0 {
                let ch = match block_on(s.get_pow("s".into()), MAX) {
                    Some(Ok(Some(c))) => c,
                    x => case.abort("not-answered", format!("{x:?}")),
                };
                let w = proof(&mut rng, Proof::Right, "x", &ch.string, ch.difficulty_factor, "s").unwrap();
                let v = block_on(s.verify_pow(w, "1".into()), MAX);
                case.check(matches!(v, Some(Ok(_))), "refused", || format!("{v:?}"));
            }
            drop(s);
            let left = if wait_for(Duration::from_secs(10), || os_threads() <= base) { 0 } else { os_threads() - base };
            case.count("systems_dropped", 1);
            case.tick();
            if !case.check(left == 0, "threads-left", || format!("{left} threads more than before after creating and dropping system {i}")) {
                return;
            }
        }
        case.seen(n);
        case.ev(format!("{n} systems created and dropped, {base} threads before and after each"));
        case.sample_events(1);
    });
    ctx.require("systems_dropped", 60);
}
