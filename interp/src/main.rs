//! Small scenarios for the interpreter (cargo miri run -- <scenario> <seed>): the real code on
//! real threads under a scheduler that switches threads anywhere, a clock that is virtual,
//! weak memory, and an observer of undefined behaviour, data races, deadlocks, leaks and
//! threads left over at the end. Each scenario also judges what it sees.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Wake};
use std::thread;
use std::time::Duration;

use actix::clock::sleep;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::VerifyCaptchaResult;
use libmcaptcha::defense::Level;
use libmcaptcha::master::embedded::master::{CleanUp, Master};
use libmcaptcha::master::messages::{AddSite, AddVisitor, GetInternalData, RemoveCaptcha, Rename};
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
use libmcaptcha::system::{System as Captcha, SystemBuilder};
use libmcaptcha::{DefenseBuilder, MCaptcha, MCaptchaBuilder};

type Sys = Captcha<HashCache, Master>;

fn broken(sig: &str, detail: String) -> ! {
    eprintln!("BROKEN {sig}: {detail}");
    std::process::abort()
}
macro_rules! must {
    ($c:expr, $sig:expr, $($d:tt)*) => { if !$c { broken($sig, format!($($d)*)) } };
}

struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d) >> 11
    }
    /// from..=to
    fn range(&mut self, from: u64, to: u64) -> u64 {
        from + self.next() % (to - from + 1)
    }
    fn chance(&mut self, n: u64, of: u64) -> bool {
        self.next() % of < n
    }
}

struct Unpark(thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Arc::new(Unpark(thread::current())).into();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        thread::park();
    }
}
/// poll `f` `n` times, pausing in between, then drop it
fn abandon<F: Future>(f: F, n: u64) -> Option<F::Output> {
    let mut f: Pin<Box<F>> = Box::pin(f);
    let w = Arc::new(Unpark(thread::current())).into();
    let mut cx = Context::from_waker(&w);
    for _ in 0..n {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
        thread::yield_now();
    }
    None
}
/// the actors' thread waits for the others
async fn join<T>(hs: Vec<thread::JoinHandle<T>>) -> Vec<T> {
    while hs.iter().any(|h| !h.is_finished()) {
        sleep(Duration::from_millis(1)).await;
    }
    hs.into_iter().map(|h| h.join().unwrap()).collect()
}

fn site(levels: &[(u32, u32)], duration: u64) -> MCaptcha {
    let mut d = DefenseBuilder::default();
    for l in levels {
        d.add_level(Level { visitor_threshold: l.0, difficulty_factor: l.1 }).unwrap();
    }
    MCaptchaBuilder::default().defense(d.build().unwrap()).duration(duration).build().unwrap()
}
fn config() -> mcaptcha_pow_sha256::Config {
    ConfigBuilder::default().salt("a salt for the interpreter".into()).build().unwrap()
}
fn solve(c: &PoWConfig, key: &str) -> Work {
    let w = config().prove_work(&c.string, c.difficulty_factor).unwrap();
    Work { string: c.string.clone(), result: w.result, nonce: w.nonce, key: key.into() }
}
fn system(m: &Addr<Master>, c: &Addr<HashCache>, rng: &mut Rng) -> Arc<Sys> {
    Arc::new(
        SystemBuilder::default()
            .master(m.clone())
            .cache(c.clone())
            .pow(config())
            .runners(rng.range(1, 3) as usize)
            .queue_length(20)
            .build(),
    )
}
async fn add(m: &Addr<Master>, name: &str, s: MCaptcha) {
    m.send(AddSite { id: name.into(), mcaptcha: s }).await.unwrap().await.unwrap().unwrap()
}

// ------------------------------------------------------------------ the queue
#[cfg(feature = "hooks")]
mod queue {
    use super::*;
    use libmcaptcha::verif::{Manager, Runnable};

    #[derive(Default)]
    pub struct Fate {
        ran: AtomicUsize,
        dropped: AtomicUsize,
    }
    struct Job(Arc<Fate>, u64);
    impl Runnable for Job {
        fn run(&self) {
            for _ in 0..self.1 {
                thread::yield_now();
            }
            self.0.ran.fetch_add(1, SeqCst);
        }
    }
    impl Drop for Job {
        fn drop(&mut self) {
            self.0.dropped.fetch_add(1, SeqCst);
        }
    }

    pub fn run(rng: &mut Rng) {
        let workers = rng.range(1, 3) as usize;
        let length = rng.range(1, 4) as usize;
        let m = Arc::new(Manager::new(workers, length));
        let all = rng.range(1, 3);
        let wait = rng.chance(1, 2);
        let threads: Vec<_> = (0..all)
            .map(|t| {
                let m = m.clone();
                let mut rng = Rng::new(rng.next());
                thread::spawn(move || {
                    let mut fates = vec![];
                    for _ in 0..rng.range(1, 4) {
                        let f = Arc::new(Fate::default());
                        let ip = format!("{}", if rng.chance(1, 2) { t } else { 0 });
                        let a = m.add(ip, Box::new(Job(f.clone(), rng.range(0, 3))));
                        let r = if rng.chance(1, 4) { abandon(a, rng.range(0, 3)) } else { Some(block(a)) };
                        fates.push((f, r.map(|r| r.is_ok())));
                    }
                    fates
                })
            })
            .collect();
        let fates: Vec<_> = threads.into_iter().flat_map(|t| t.join().unwrap()).collect();
        if wait {
            for _ in 0..2000 {
                if fates.iter().all(|(f, r)| *r != Some(true) || f.ran.load(SeqCst) > 0) {
                    break;
                }
                thread::sleep(Duration::from_millis(1));
            }
            for (f, r) in &fates {
                must!(*r != Some(true) || f.ran.load(SeqCst) > 0, "never-checked", "an admitted submission is not checked");
            }
        }
        drop(m);
        let before: Vec<_> = fates.iter().map(|(f, _)| f.ran.load(SeqCst)).collect();
        thread::sleep(Duration::from_millis(5));
        for ((f, r), b) in fates.iter().zip(before) {
            let (ran, dropped) = (f.ran.load(SeqCst), f.dropped.load(SeqCst));
            must!(ran <= 1, "twice", "a submission was checked {ran} times");
            must!(*r != Some(false) || ran == 0, "refused-checked", "a refused submission was checked");
            must!(dropped == 1, "kept", "a submission is still held after shutting down");
            must!(ran == b, "late", "a submission was checked after shutting down");
        }
    }
}

// ------------------------------------------------------------------ one challenge, one token
fn tokens(rng: &mut Rng) {
    actix_rt::System::new().block_on(async {
        let m = Master::new(1_000_000).start();
        let c = HashCache::default().start();
        let s = system(&m, &c, rng);
        add(&m, "s", site(&[(rng.range(1, 3) as u32, 2), (9, 3)], 100_000)).await;
        add(&m, "short", site(&[(9, 2)], 1)).await;
        for _ in 0..rng.range(1, 2) {
            let ch = s.get_pow("s".into()).await.unwrap().unwrap();
            let w = solve(&ch, "s");
            let n = rng.range(2, 3) as usize;
            let gate = Arc::new(Barrier::new(n));
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (s, w, gate, give_up) = (s.clone(), w.clone(), gate.clone(), rng.chance(1, 5));
                    let polls = rng.range(0, 3);
                    thread::spawn(move || {
                        gate.wait();
                        let f = s.verify_pow(w, i.to_string());
                        if give_up {
                            (true, abandon(f, polls).and_then(|r| r.ok()))
                        } else {
                            (false, block(f).ok())
                        }
                    })
                })
                .collect();
            let rs = join(hs).await;
            let won: Vec<_> = rs.iter().filter_map(|r| r.1.clone()).collect();
            must!(won.len() <= 1, "redeemed-twice", "one challenge earned {won:?}");
            must!(won.len() == 1 || rs.iter().any(|r| r.0), "refused", "a right proof earned nothing");
            let Some((token, d)) = won.first().cloned() else { continue };
            must!(d == ch.difficulty_factor, "difficulty", "{d} reported, issued at {}", ch.difficulty_factor);
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let (s, token, gate) = (s.clone(), token.clone(), gate.clone());
                    thread::spawn(move || {
                        gate.wait();
                        let msg = VerifyCaptchaResult { token, key: "s".into() };
                        block(s.validate_verification_tokens(msg)).unwrap()
                    })
                })
                .collect();
            let yes = join(hs).await.into_iter().filter(|y| *y).count();
            must!(yes == 1, "validated", "one token validated {yes} times");
        }
        if rng.chance(1, 2) {
            let ch = s.get_pow("short".into()).await.unwrap().unwrap();
            sleep(Duration::from_millis(1200)).await;
            let r = s.verify_pow(solve(&ch, "short"), "a".into()).await;
            must!(r.is_err(), "expired", "an expired challenge earned {r:?}");
        }
    });
}

// ------------------------------------------------------------------ systems that end
fn lives(rng: &mut Rng) {
    actix_rt::System::new().block_on(async {
        let m = Master::new(1_000_000).start();
        let c = HashCache::default().start();
        add(&m, "s", site(&[(9, 2)], 100_000)).await;
        for _ in 0..rng.range(1, 2) {
            let s = system(&m, &c, rng);
            let mut works = vec![];
            for _ in 0..rng.range(1, 4) {
                let ch = s.get_pow("s".into()).await.unwrap().unwrap();
                works.push(solve(&ch, "s"));
            }
            let hs: Vec<_> = works
                .into_iter()
                .enumerate()
                .map(|(i, w)| {
                    let (s, polls) = (s.clone(), rng.range(0, 6));
                    thread::spawn(move || {
                        abandon(s.verify_pow(w, (i % 2).to_string()), polls);
                    })
                })
                .collect();
            if rng.chance(1, 2) {
                // the last one to leave shuts down
                drop(s);
                join(hs).await;
            } else {
                join(hs).await;
                drop(s);
            }
        }
    });
}

// ------------------------------------------------------------------ the registry
fn registry(rng: &mut Rng) {
    actix_rt::System::new().block_on(async {
        let m = Master::new(1).start();
        let n = rng.range(2, 3);
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let m = m.clone();
                let mut rng = Rng::new(rng.next());
                thread::spawn(move || {
                    let (a, b) = (format!("site {t}"), format!("other {t}"));
                    let diff = 10 + t as u32;
                    let visit = |n: &str| {
                        let r = block(block(m.send(AddVisitor(n.into()))).unwrap()).unwrap().unwrap();
                        r.map(|r| (r.duration, r.difficulty_factor))
                    };
                    for _ in 0..rng.range(1, 3) {
                        let msg = AddSite { id: a.clone(), mcaptcha: site(&[(50, diff)], 1 + t) };
                        block(block(m.send(msg)).unwrap()).unwrap().unwrap();
                        if rng.chance(1, 2) {
                            let r = visit(&a);
                            must!(r == Some((1 + t, diff)), "lost", "a site just added answers {r:?}");
                        }
                        match rng.range(0, 4) {
                            0 => {
                                block(block(m.send(Rename { name: a.clone(), rename_to: b.clone() })).unwrap()).unwrap().unwrap();
                                let r = visit(&a);
                                must!(r.is_none(), "old-name", "a renamed site still answers {r:?}");
                            }
                            1 => {
                                block(block(m.send(RemoveCaptcha(a.clone()))).unwrap()).unwrap().unwrap();
                                let r = visit(&a);
                                must!(r.is_none(), "removed", "a removed site answers {r:?}");
                            }
                            2 => {
                                let d = block(block(m.send(GetInternalData)).unwrap()).unwrap().unwrap();
                                if let Some(s) = d.get(&a) {
                                    must!(s.get_difficulty() == diff, "snapshot", "{}", s.get_difficulty());
                                }
                            }
                            3 => {
                                m.do_send(CleanUp);
                            }
                            _ => {
                                abandon(m.send(AddVisitor(a.clone())), rng.range(0, 2));
                            }
                        }
                    }
                })
            })
            .collect();
        join(hs).await;
        if rng.chance(1, 2) {
            // collections go on
            sleep(Duration::from_millis(9500)).await;
            let d = m.send(GetInternalData).await.unwrap().await.unwrap().unwrap();
            for (n, s) in &d {
                must!(s.get_visitors() == 0, "count", "{n} has {} visitors, all are gone", s.get_visitors());
            }
        }
        add(&m, "last", site(&[(5, 3)], 30)).await;
        let r = m.send(AddVisitor("last".into())).await.unwrap().await.unwrap().unwrap();
        must!(r.map(|r| r.difficulty_factor) == Some(3), "last", "the registry does not serve any more");
    });
}

fn main() {
    let mut args = std::env::args().skip(1);
    let what = args.next().unwrap();
    let mut rng = Rng::new(args.next().unwrap().parse().unwrap());
    match what.as_str() {
        #[cfg(feature = "hooks")]
        "queue" => queue::run(&mut rng),
        "tokens" => tokens(&mut rng),
        "lives" => lives(&mut rng),
        "registry" => registry(&mut rng),
        "leak" => std::mem::forget(vec![1, 2, 3]),
        "race" => {
            static mut N: u64 = 0;
            let t = thread::spawn(|| unsafe { N = 1 });
            unsafe { N = 2 };
            t.join().unwrap();
        }
        "thread" => {
            thread::spawn(|| loop {
                thread::park()
            });
        }
        _ => {}
    }
    println!("FINE");
}
