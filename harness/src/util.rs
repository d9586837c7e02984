//! Shared monitoring infrastructure: seeded randomness, event recording,
//! verdicts, panic observation, watchdog, counting allocator.
use libmcaptcha::errors::CaptchaResult;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System as SysAlloc};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        SysAlloc.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        SysAlloc.dealloc(p, l)
    }
}
pub fn live_bytes() -> i64 {
    LIVE.load(SeqCst)
}

// ---------------------------------------------------------------- randomness
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(mix(s ^ 0xA5A5_5A5A))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn alnum(&mut self, n: usize) -> String {
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        (0..n).map(|_| A[self.below(62) as usize] as char).collect()
    }
    /// adversarial names: near misses of each other, separators, unicode, empty
    pub fn name(&mut self) -> String {
        const POOL: &[&str] = &[
            "", " ", "a", "A", "a ", " a", "a\t", "a\n", "aa", "a:b", "a:b:c", "b", "b:c", ":", "::", "a:",
            ":a", "batsense.net", "Batsense.net", "batsense.net.", "batsense.net:8080", "batsense.net/",
            "http://batsense.net", "é", "e\u{301}", "ß", "ss", "İ", "i", "名前", "🙂", "a\0b", "a\0", "%61",
            "\"a\"", "{\"a\":1}", "*", "?", "a,b", "a b", "mcaptcha:token:a", "null", "0", "00", "-1",
            "very", "very-long-site-key-very-long-site-key-very-long-site-key-very-long-site-key-1",
            "very-long-site-key-very-long-site-key-very-long-site-key-very-long-site-key-2",
        ];
        match self.below(10) {
            0..=5 => self.pick(POOL).to_string(),
            6 => format!("site{}", self.below(20)),
            7 => self.alnum(32),
            8 => {
                let n = self.range(100, 3000) as usize;
                let c = *self.pick(&['x', 'y', 'é']);
                std::iter::repeat(c).take(n).collect()
            }
            _ => {
                let n = self.range(1, 6) as usize;
                self.alnum(n)
            }
        }
    }
    /// variants that differ from `s` but look alike
    pub fn near_miss(&mut self, s: &str) -> String {
        loop {
            let v = match self.below(17) {
                12 | 13 => {
                    // what software likes to strip or to treat alike
                    let x = *self.pick(&[
                        ".", "/", "\n", "\r\n", "\t", ":", ":80", ":443", "#", "?", "*", "%", "\u{a0}", "\u{200b}", "\u{feff}", "=", "&",
                        ";", ",", "-", "_", "+", "'", "\"", "\\", "0", "1", "\u{301}", "/a", ".a", ":a",
                    ]);
                    format!("{s}{x}")
                }
                14 => {
                    let x = *self.pick(&[
                        "www.", "http://", "https://", ".", "/", "\n", "\t", "0", "+", "-", "a.", "*.", ":", "a:", "\u{feff}", "a/",
                    ]);
                    format!("{x}{s}")
                }
                15 => {
                    let t = *self.pick(&[
                        s.trim(), s.trim_end_matches('.'), s.trim_end_matches('/'), s.trim_start_matches("www."), s.trim_start_matches('0'),
                        s.split(':').next().unwrap(), s.split('/').next().unwrap(), s.split('.').next().unwrap(),
                        s.split(' ').next().unwrap(), s.split('\0').next().unwrap(),
                    ]);
                    t.to_string()
                }
                16 => {
                    let (a, b) = *self.pick(&[
                        ("-", "_"), ("_", "-"), (".", ""), ("/", ""), ("-", ""), (" ", ""), (":", "."), ("+", " "), (" ", "+"), ("%20", " "),
                        ("é", "e\u{301}"), ("e\u{301}", "é"), ("ß", "ss"), ("İ", "i"), ("0", "O"), ("l", "1"),
                    ]);
                    s.replace(a, b)
                }
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                2 => format!("{s} "),
                3 => format!(" {s}"),
                4 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
                5 => s.chars().skip(1).collect(),
                6 => format!("{s}{s}"),
                7 => format!("{s}a"),
                8 => format!("{s}\0"),
                9 => {
                    let mut c: Vec<char> = s.chars().collect();
                    if !c.is_empty() {
                        let i = self.below(c.len() as u64) as usize;
                        c[i] = if c[i] == 'x' { 'y' } else { 'x' };
                    }
                    c.into_iter().collect()
                }
                10 => s.chars().rev().collect(),
                _ => {
                    let mut c: Vec<char> = s.chars().collect();
                    if !c.is_empty() {
                        let i = self.below(c.len() as u64) as usize;
                        c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
                    }
                    c.into_iter().collect()
                }
            };
            if v != s {
                return v;
            }
            if self.chance(1, 4) {
                return format!("{s}#");
            }
        }
    }
}

// ---------------------------------------------------------------- panics
#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub thread: std::thread::ThreadId,
    pub file: String,
    pub line: u32,
    pub msg: String,
}
static PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());
static RUNNERS: Mutex<Vec<std::thread::ThreadId>> = Mutex::new(Vec::new());
static NPANICS: AtomicUsize = AtomicUsize::new(0);

/// Panic payload that ends a case whose verdict is already recorded.
pub struct Abort;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Abort>().is_some() {
            return;
        }
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        eprintln!("[panic observed] {file}:{line}: {msg}");
        let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if p.len() < 10_000 {
            p.push(PanicInfo { thread: std::thread::current().id(), file, line, msg });
        }
        NPANICS.store(p.len(), SeqCst);
    }));
}
pub fn panic_mark() -> usize {
    NPANICS.load(SeqCst)
}
/// Panics recorded since `mark` on this thread or on threads that run no case of their own.
pub fn panics_since(mark: usize) -> Vec<PanicInfo> {
    if NPANICS.load(SeqCst) <= mark {
        return vec![];
    }
    let me = std::thread::current().id();
    let others: Vec<_> = RUNNERS.lock().unwrap().iter().filter(|t| **t != me).cloned().collect();
    PANICS.lock().unwrap()[mark..].iter().filter(|p| !others.contains(&p.thread)).cloned().collect()
}
pub fn is_harness_file(f: &str) -> bool {
    f.contains("harness/src/") || f.starts_with("src/")
}

/// How long a request to an actor may stay unanswered (virtual time mostly).
pub const PATIENCE: Duration = Duration::from_secs(20_000);

// ---------------------------------------------------------------- context & cases
#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub index: u64,
    pub case_seed: u64,
    pub sig: String,
    pub detail: String,
    pub events: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub rules: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub rep: Mutex<Report>,
    pub started: Instant,
    pub deadline: Instant,
    pub progress: AtomicU64,
    pub running: Mutex<Vec<(String, u64, u64)>>,
    pub stop: AtomicBool,
    /// thorough runs repeat their workloads with new cases while time is left
    pub round: AtomicU64,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<(String, u64)>, budget: Duration) -> Arc<Ctx> {
        Arc::new(Ctx {
            prop: prop.into(),
            seed,
            thorough,
            only,
            rep: Mutex::new(Report::default()),
            started: Instant::now(),
            deadline: Instant::now() + budget,
            progress: AtomicU64::new(0),
            running: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            round: AtomicU64::new(0),
        })
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            return thorough;
        }
        // what is cheap is repeated more often: about 10-15 s per property
        let k = match self.prop.as_str() {
            "C01" | "C02" | "C16" => 3,
            "C03" | "C12" | "C10" => 8,
            "C04" | "C05" | "C15" => 10,
            "C07" | "C21" => 20,
            "C08" | "C14" => 5,
            "C09" | "C17" | "C18" => 2,
            _ => 1,
        };
        (quick * k).min(thorough).max(quick)
    }
    pub fn rule(&self, s: &str) {
        let mut r = self.rep.lock().unwrap();
        if !r.rules.iter().any(|x| x == s) {
            r.rules.push(s.into());
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.rep.lock().unwrap().counters.entry(k.into()).or_insert(0) += n;
        self.progress.fetch_add(1, Relaxed);
    }
    pub fn inconclusive(&self, s: String) {
        self.rep.lock().unwrap().inconclusive.push(s);
    }
    /// A run that observed too little of what it exists to observe is inconclusive.
    pub fn require(&self, key: &str, min: u64) {
        if self.only.is_some() {
            return;
        }
        let v = self.rep.lock().unwrap().counters.get(key).copied().unwrap_or(0);
        if v < min && self.rep.lock().unwrap().violations.is_empty() {
            self.inconclusive(format!("observed only {v} x {key} (need {min})"));
        }
    }
}

pub struct CaseInner {
    pub ctx: Arc<Ctx>,
    pub name: String,
    pub index: u64,
    pub seed: u64,
    events: Mutex<Vec<String>>,
    dropped: AtomicU64,
    failed: AtomicBool,
}
#[derive(Clone)]
pub struct Case(pub Arc<CaseInner>);
impl std::ops::Deref for Case {
    type Target = CaseInner;
    fn deref(&self) -> &CaseInner {
        &self.0
    }
}
impl Case {
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed ^ mix(salt))
    }
    /// record an event of the history
    pub fn ev<S: Into<String>>(&self, s: S) {
        self.ctx.progress.fetch_add(1, Relaxed);
        let mut e = self.events.lock().unwrap();
        if e.len() >= 600 {
            e.drain(..300);
            self.dropped.fetch_add(300, Relaxed);
        }
        e.push(s.into());
    }
    pub fn tick(&self) {
        self.ctx.progress.fetch_add(1, Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        self.ctx.count(k, n);
    }
    /// one more distinct state / situation seen
    pub fn seen<T: Hash>(&self, t: T) {
        let h = hash(t);
        let mut r = self.ctx.rep.lock().unwrap();
        r.evaluations += 1;
        if r.distinct.len() < 5_000_000 {
            r.distinct.insert(h);
        }
    }
    pub fn failed(&self) -> bool {
        self.failed.load(SeqCst)
    }
    pub fn fail<S: Into<String>>(&self, sig: &str, detail: S) {
        if self.failed.swap(true, SeqCst) {
            return;
        }
        let detail = detail.into();
        eprintln!("[violation] {} case {}#{} {sig}: {detail}", self.ctx.prop, self.name, self.index);
        let mut events = self.events.lock().unwrap().clone();
        let d = self.dropped.load(Relaxed);
        if d > 0 {
            events.insert(0, format!("... {d} earlier events not kept ..."));
        }
        let mut r = self.ctx.rep.lock().unwrap();
        r.violations.push(Violation {
            case: self.name.clone(),
            index: self.index,
            case_seed: self.seed,
            sig: sig.into(),
            detail,
            events,
        });
        if r.violations.len() >= 5 {
            self.ctx.stop.store(true, SeqCst);
        }
    }
    /// assert an oracle condition; true if it held
    pub fn check<S: Into<String>>(&self, ok: bool, sig: &str, detail: impl FnOnce() -> S) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
    /// record a violation and end this case
    pub fn abort<S: Into<String>>(&self, sig: &str, detail: S) -> ! {
        self.fail(sig, detail);
        std::panic::panic_any(Abort)
    }
    /// Send a request to an actor; not being answered is a violation.
    pub async fn ask<A, M>(&self, a: &actix::Addr<A>, m: M, what: &str) -> M::Result
    where
        A: actix::Actor + actix::Handler<M>,
        A::Context: actix::dev::ToEnvelope<A, M>,
        M: actix::Message + Send + 'static,
        M::Result: Send,
    {
        match tokio::time::timeout(PATIENCE, a.send(m)).await {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => self.abort("not-answered", format!("{what}: the actor gave no answer: {e:?}")),
            Err(_) => self.abort("not-answered", format!("{what}: no answer from the actor")),
        }
    }
    /// Same for requests answered through a one-shot channel.
    pub async fn ask_rx<A, M, T>(&self, a: &actix::Addr<A>, m: M, what: &str) -> CaptchaResult<T>
    where
        A: actix::Actor + actix::Handler<M>,
        A::Context: actix::dev::ToEnvelope<A, M>,
        M: actix::Message<Result = tokio::sync::oneshot::Receiver<CaptchaResult<T>>> + Send + 'static,
        T: Send + 'static,
    {
        let rx = self.ask(a, m, what).await;
        match tokio::time::timeout(PATIENCE, rx).await {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => self.abort("not-answered", format!("{what}: reply channel closed: {e:?}")),
            Err(_) => self.abort("not-answered", format!("{what}: no reply")),
        }
    }
    pub fn must<T, E: std::fmt::Debug>(&self, r: Result<T, E>, what: &str) -> T {
        match r {
            Ok(v) => v,
            Err(e) => self.abort("request-failed", format!("{what}: {e:?}")),
        }
    }
    pub fn sample(&self, v: Value) {
        let mut r = self.ctx.rep.lock().unwrap();
        let same = r.samples.iter().filter(|s| s["case"] == self.name.as_str()).count();
        if same < 2 && r.samples.len() < 16 {
            r.samples.push(json!({"case": self.name, "index": self.index, "data": v}));
        }
    }
    pub fn sample_events(&self, n: usize) {
        let e: Vec<String> = self.events.lock().unwrap().iter().take(n).cloned().collect();
        self.sample(json!({ "first_events": e }));
    }
}

/// workloads that are complete, or judged, as a whole
pub const ONCE: [&str; 5] = ["small-exhaustive", "exhaustive-step", "distribution", "export", "import"];
const ROUND: u64 = 1_000_000_000;

/// Run `n` cases of a workload on `threads` threads.
pub fn run_cases<F>(ctx: &Arc<Ctx>, name: &str, n: u64, threads: usize, f: F)
where
    F: Fn(&Case) + Send + Sync,
{
    let next = AtomicU64::new(0);
    let only = ctx.only.clone();
    if let Some((o, _)) = &only {
        if o != name {
            return;
        }
    }
    let threads = if only.is_some() { 1 } else { threads };
    let round = ctx.round.load(SeqCst);
    if round > 0 && ONCE.contains(&name) {
        return;
    }
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let me = std::thread::current().id();
                RUNNERS.lock().unwrap().push(me);
                loop {
                    let mut i = next.fetch_add(1, SeqCst);
                    if let Some((_, idx)) = &only {
                        if i > 0 {
                            break;
                        }
                        i = *idx;
                    } else if i >= n || Instant::now() > ctx.deadline || ctx.stop.load(SeqCst) {
                        break;
                    } else {
                        i += round * ROUND;
                    }
                    run_one(ctx, name, i, &f);
                }
            });
        }
    });
}

fn run_one<F: Fn(&Case)>(ctx: &Arc<Ctx>, name: &str, index: u64, f: &F) {
    let seed = mix(mix(ctx.seed) ^ hash(name) ^ mix(index));
    let case = Case(Arc::new(CaseInner {
        ctx: ctx.clone(),
        name: name.into(),
        index,
        seed,
        events: Mutex::new(vec![]),
        dropped: AtomicU64::new(0),
        failed: AtomicBool::new(false),
    }));
    ctx.running.lock().unwrap().push((name.into(), index, seed));
    let mark = panic_mark();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&case)));
    let ps = panics_since(mark);
    let lib: Vec<_> = ps.iter().filter(|p| !is_harness_file(&p.file)).collect();
    if let Some(p) = lib.first() {
        case.fail("panic", format!("panic in the code under test at {}:{}: {}", p.file, p.line, p.msg));
    } else if r.is_err() || !ps.is_empty() {
        // a panic of the harness itself decides nothing
        if !case.failed() {
            ctx.inconclusive(format!("harness error in {name}#{index}: {:?}", ps.first()));
            ctx.stop.store(true, SeqCst);
        }
    }
    ctx.running.lock().unwrap().retain(|x| x.0 != name || x.1 != index);
    let mut rep = ctx.rep.lock().unwrap();
    *rep.counters.entry("cases".into()).or_insert(0) += 1;
    drop(rep);
    ctx.progress.fetch_add(1, Relaxed);
}

// ---------------------------------------------------------------- virtual time
/// Run a future in a fresh actor system whose clock is virtual: it only moves
/// when every task on the thread is waiting for a timer.
pub fn virtual_time<F: Future>(f: F) -> F::Output {
    let sys = actix_rt::System::with_tokio_rt(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
    });
    sys.block_on(f)
}
pub fn real_time<F: Future>(f: F) -> F::Output {
    actix_rt::System::new().block_on(f)
}
/// Await `f` without letting the virtual clock move (needed while real worker
/// threads compute the answer).
pub async fn hold<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(v) => std::task::Poll::Ready(v),
        std::task::Poll::Pending => {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    })
    .await
}
/// Let every ready task run, without moving the clock.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
pub struct Clock(tokio::time::Instant);
impl Clock {
    pub fn new() -> Self {
        Clock(tokio::time::Instant::now())
    }
    pub fn ms(&self) -> u64 {
        self.0.elapsed().as_millis() as u64
    }
    /// sleep until `ms` on this clock (virtual time jumps there)
    pub async fn until(&self, ms: u64) {
        tokio::time::sleep_until(self.0 + Duration::from_millis(ms)).await;
        settle().await;
    }
}

/// Distance of `a` and `b`
pub fn dist(a: u64, b: u64) -> u64 {
    a.max(b) - a.min(b)
}

// ---------------------------------------------------------------- OS view
pub fn os_threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
/// wait (up to `max`) until `f` holds
pub fn wait_for(max: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    let mut d = 20;
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > max {
            return false;
        }
        std::thread::sleep(Duration::from_micros(d));
        d = (d * 2).min(20_000);
    }
}

// ---------------------------------------------------------------- executor
struct Unpark(std::thread::Thread);
impl std::task::Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
/// Run a future on this thread without any runtime; None if it is not done after `max`.
pub fn block_on<F: Future>(f: F, max: Duration) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let waker = std::task::Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = std::task::Context::from_waker(&waker);
    let t = Instant::now();
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        let left = max.checked_sub(t.elapsed())?;
        std::thread::park_timeout(left.min(Duration::from_millis(50)));
    }
}
pub fn spin(micros: u64) {
    let t = Instant::now();
    while t.elapsed() < Duration::from_micros(micros) {
        std::hint::spin_loop()
    }
}
/// is this thread of ours blocked in the kernel?
pub fn thread_sleeps(tid: u64) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit_once(") ").map(|x| x.1.starts_with('S')))
        .unwrap_or(false)
}
pub fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

// ---------------------------------------------------------------- holding threads
/// ids of this process's threads
pub fn threads_now() -> Vec<u64> {
    std::fs::read_dir("/proc/self/task")
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
        .unwrap_or_default()
}
/// is this thread of ours running or ready to?
pub fn thread_runs(tid: u64) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit_once(") ").map(|x| x.1.starts_with('R')))
        .unwrap_or(false)
}
mod sched {
    extern "C" {
        pub fn sched_setaffinity(tid: i32, size: usize, mask: *const u64) -> i32;
        pub fn sched_getaffinity(tid: i32, size: usize, mask: *mut u64) -> i32;
        pub fn sched_setscheduler(tid: i32, policy: i32, param: *const i32) -> i32;
    }
}
/// Holds computing threads of this process: they get the lowest priority on a processor that
/// another thread of ours keeps busy, so that they all but stop until this is dropped.
pub struct Hold {
    tid: u64,
    spinner_tid: Arc<AtomicU64>,
    all: [u64; 16],
    on: Arc<AtomicBool>,
    spinner: Option<std::thread::JoinHandle<()>>,
}
impl Hold {
    pub fn new(tid: u64) -> Option<Hold> {
        let mut all = [0u64; 16];
        let mut one = [0u64; 16];
        // SAFETY: both masks are 128 bytes, as said
        if unsafe { sched::sched_getaffinity(0, 128, all.as_mut_ptr()) } < 0 {
            return None;
        }
        let last = (0..1024).rev().find(|b| all[b / 64] >> (b % 64) & 1 == 1)?;
        one[last / 64] |= 1 << (last % 64);
        let on = Arc::new(AtomicBool::new(true));
        let o = on.clone();
        let spinner_tid: Arc<AtomicU64> = Arc::default();
        let st = spinner_tid.clone();
        let spinner = std::thread::spawn(move || {
            st.store(my_tid(), SeqCst);
            // SAFETY: as above
            unsafe { sched::sched_setaffinity(0, 128, one.as_ptr()) };
            while o.load(Relaxed) {
                std::hint::spin_loop()
            }
        });
        // SAFETY: as above; the parameter of this policy is a priority of 0
        unsafe {
            sched::sched_setscheduler(tid as i32, 5, &0);
            sched::sched_setaffinity(tid as i32, 128, one.as_ptr());
        }
        while spinner_tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        Some(Hold { tid, spinner_tid, all, on, spinner: Some(spinner) })
    }
}
impl Drop for Hold {
    fn drop(&mut self) {
        self.on.store(false, Relaxed);
        if let Some(s) = self.spinner.take() {
            let _ = s.join();
        }
        // SAFETY: as above
        unsafe {
            sched::sched_setaffinity(self.tid as i32, 128, self.all.as_ptr());
            sched::sched_setscheduler(self.tid as i32, 0, &0);
        }
    }
}
/// Wait until a thread that is not one of `others` computes, and hold it. None if none does.
pub fn hold_computing(others: &[u64], held: &[Hold]) -> Option<Hold> {
    let among: Vec<u64> = threads_now()
        .into_iter()
        .filter(|t| !others.contains(t) && !held.iter().any(|h| h.tid == *t || h.spinner_tid.load(SeqCst) == *t))
        .collect();
    let t = Instant::now();
    let mut last: Vec<u64> = vec![];
    while t.elapsed() < Duration::from_millis(400) {
        let now: Vec<u64> = among.iter().copied().filter(|t| thread_runs(*t)).collect();
        if now.len() == 1 && now == last {
            return Hold::new(now[0]);
        }
        last = now;
        std::thread::sleep(Duration::from_micros(300));
    }
    None
}
