//! C10 the registry as a map, C11 idle collection, C12 snapshot and restore
use crate::model::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::master::embedded::counter::{Counter, GetInternalData as CGet, SetInternalData as CSet, Stop};
use libmcaptcha::master::embedded::master::{GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::MCaptcha;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const NEVER: u64 = 20_000_000;

#[derive(Clone, Default)]
struct Reg {
    sites: BTreeMap<String, TimedSite>,
}
impl Reg {
    fn at(&mut self, now: u64) {
        self.sites.values_mut().for_each(|t| {
            t.at(now);
        });
    }
    fn ambiguous(&self, t: u64, slack: u64) -> bool {
        self.sites.values().any(|s| s.ambiguous(t, slack))
    }
    fn rename(&mut self, a: &str, b: &str) {
        if let Some(mut s) = self.sites.remove(a) {
            s.used = false;
            self.sites.insert(b.into(), s);
        }
    }
    fn restore(&mut self, now: u64, snap: &BTreeMap<String, Site>) {
        for (n, s) in snap {
            let mut t = TimedSite::new(s.levels.clone(), s.duration);
            t.site = s.clone();
            if s.count > 0 {
                t.pending.push((now + s.duration * 1000, s.count));
            }
            t.used = true;
            self.sites.insert(n.clone(), t);
        }
    }
    fn snapshot(&self) -> BTreeMap<String, Site> {
        self.sites.iter().map(|(n, t)| (n.clone(), t.site.clone())).collect()
    }
}
fn short(s: &str) -> String {
    if s.chars().count() > 40 {
        format!("{}..[{}]", s.chars().take(30).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

async fn add(case: &Case, m: &Addr<Master>, name: &str, lv: &[(u32, u32)], dur: u64) {
    let r = case.ask_rx(m, AddSite { id: name.into(), mcaptcha: build_mcaptcha(lv, dur) }, "AddSite").await;
    case.must(r, "AddSite");
}
async fn remove(case: &Case, m: &Addr<Master>, name: &str) {
    let r = case.ask_rx(m, RemoveCaptcha(name.into()), "RemoveCaptcha").await;
    case.must(r, "RemoveCaptcha");
}
async fn rename(case: &Case, m: &Addr<Master>, a: &str, b: &str) {
    let r = case.ask_rx(m, Rename { name: a.into(), rename_to: b.into() }, "Rename").await;
    case.must(r, "Rename");
}
async fn visit(case: &Case, m: &Addr<Master>, name: &str) -> Option<(u64, u32)> {
    let r = case.ask_rx(m, AddVisitor(name.into()), "AddVisitor").await;
    case.must(r, "AddVisitor").map(|r| (r.duration, r.difficulty_factor))
}
async fn snap(case: &Case, m: &Addr<Master>) -> HashMap<String, MCaptcha> {
    let r = case.ask_rx(m, GetInternalData, "GetInternalData").await;
    case.must(r, "GetInternalData")
}
/// the snapshot must show exactly the model's sites and states
async fn compare(case: &Case, m: &Addr<Master>, reg: &Reg, after: &str) -> bool {
    let s = snap(case, m).await;
    case.count("snapshots_compared", 1);
    for (n, t) in &reg.sites {
        let got = s.get(n).map(observe);
        if !case.check(got.as_ref() == Some(&expect_of(&t.site)), "registry-state", || {
            format!("after {after}: site {:?} is {got:?}, expected {:?}", short(n), expect_of(&t.site))
        }) {
            return false;
        }
    }
    for n in s.keys() {
        if !case.check(reg.sites.contains_key(n), "registry-extra-site", || {
            format!("after {after}: {:?} is registered, expected only {:?}", short(n), reg.sites.keys().map(|k| short(k)).collect::<Vec<_>>())
        }) {
            return false;
        }
    }
    true
}

// ------------------------------------------------------------------ C10
pub fn c10(ctx: &Arc<Ctx>) {
    ctx.rule("random request sequences over few, near-identical names against a sequential map model, every reply and the full snapshot compared after each step, in virtual time with expiring visitors; concurrent histories from OS threads checked for linearizability; distinct = distinct (request, names registered, counts) situations");
    run_cases(ctx, "sequential", ctx.n(500, 5000), 8, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let m = Master::new(NEVER).start();
            let mut reg = Reg::default();
            let mut names: Vec<String> = (0..rng.range(1, 5)).map(|_| rng.name()).collect();
            for _ in 0..rng.range(0, 4) {
                let n = rng.pick(&names).clone();
                names.push(rng.near_miss(&n));
            }
            let steps = rng.range(10, 90);
            for _ in 0..steps {
                if rng.chance(1, 5) {
                    let mut to = clock.ms() + *rng.pick(&[1u64, 300, 990, 1010, 2000, 5000]);
                    while reg.ambiguous(to, 4) {
                        to += 5;
                    }
                    clock.until(to).await;
                }
                let now = clock.ms();
                if reg.ambiguous(now, 3) {
                    continue;
                }
                reg.at(now);
                let a = rng.pick(&names).clone();
                let b = rng.pick(&names).clone();
                let situation: Vec<_> = reg.sites.iter().map(|(n, t)| (n.clone(), t.site.count.min(9))).collect();
                let op = rng.below(14);
                case.seen((op.min(8), &a, &b, situation));
                let what = match op {
                    0 | 1 => {
                        let lv = gen_levels(&mut rng, 4, 12, 1000);
                        let dur = rng.range(1, 9);
                        add(case, &m, &a, &lv, dur).await;
                        reg.sites.insert(a.clone(), TimedSite::new(lv, dur));
                        format!("add {:?}", short(&a))
                    }
                    2 => {
                        remove(case, &m, &a).await;
                        reg.sites.remove(&a);
                        format!("remove {:?}", short(&a))
                    }
                    3 | 4 => {
                        rename(case, &m, &a, &b).await;
                        reg.rename(&a, &b);
                        format!("rename {:?} to {:?}", short(&a), short(&b))
                    }
                    5 => {
                        let g = case.ask(&m, GetSite(a.clone()), "GetSite").await;
                        case.check(g.is_some() == reg.sites.contains_key(&a), "lookup", || {
                            format!("lookup of {:?}: found {}, registered {}", short(&a), g.is_some(), reg.sites.contains_key(&a))
                        });
                        if let Some(c) = g {
                            let o = observe(&case.ask(&c, CGet, "site state").await);
                            case.check(o == expect_of(&reg.sites[&a].site), "lookup", || {
                                format!("lookup of {:?} leads to {o:?}, expected {:?}", short(&a), expect_of(&reg.sites[&a].site))
                            });
                        }
                        format!("lookup {:?}", short(&a))
                    }
                    6 => {
                        // the very same site again (a service re-adding its sites)
                        if let Some(t) = reg.sites.get(&a) {
                            let (lv, dur) = (t.site.levels.clone(), t.site.duration);
                            add(case, &m, &a, &lv, dur).await;
                            reg.sites.insert(a.clone(), TimedSite::new(lv, dur));
                        }
                        format!("re-add {:?}", short(&a))
                    }
                    7 => {
                        // a name nobody ever registered
                        let mut x = rng.near_miss(&a);
                        while reg.sites.contains_key(&x) {
                            x.push('~');
                        }
                        let r = visit(case, &m, &x).await;
                        case.check(r.is_none(), "unknown-answered", || format!("unregistered {:?} answered {r:?}", short(&x)));
                        rename(case, &m, &x, &a).await;
                        remove(case, &m, &x).await;
                        format!("requests for unregistered {:?}", short(&x))
                    }
                    _ => {
                        let mut got = vec![];
                        for _ in 0..rng.range(1, 6) {
                            let r = visit(case, &m, &a).await;
                            let want = reg.sites.get_mut(&a).map(|t| (t.site.duration, t.visit(now)));
                            case.check(r == want, "visitor-reply", || {
                                format!("visit to {:?} answered {r:?}, expected {want:?}", short(&a))
                            });
                            got.push(r);
                        }
                        format!("visits to {:?}: {got:?}", short(&a))
                    }
                };
                case.ev(format!("{now}ms {what}"));
                case.count("requests_judged", 1);
                if case.failed() || !compare(case, &m, &reg, &what).await {
                    return;
                }
            }
            case.sample_events(10);
        });
    });
    run_cases(ctx, "many", ctx.n(16, 160), 8, |case| many(case, Many::Requests));
    run_cases(ctx, "concurrent", ctx.n(150, 1500), 2, |case| concurrent(case));
    run_cases(ctx, "crowds", ctx.n(400, 5000), 8, |case| crowds(case));
    run_cases(ctx, "bursts", ctx.n(3000, 40000), 8, |case| bursts(case));
    // the synchronous interface of the registry object itself
    run_cases(ctx, "direct", ctx.n(100, 1000), 4, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let mut m = Master::new(NEVER);
            let mut model: BTreeMap<String, Addr<Counter>> = BTreeMap::new();
            let names: Vec<String> = (0..4).map(|_| rng.name()).collect();
            for _ in 0..60 {
                let (a, b) = (rng.pick(&names).clone(), rng.pick(&names).clone());
                case.seen((&a, &b, model.keys().cloned().collect::<Vec<_>>()));
                case.count("requests_judged", 1);
                match rng.below(4) {
                    0 => {
                        let c = Counter::from(build_mcaptcha(&[(1, 1)], 1)).start();
                        m.add_site(c.clone(), a.clone());
                        model.insert(a.clone(), c);
                    }
                    1 => {
                        let r = m.rm_site(&a).map(|x| x.1);
                        let w = model.remove(&a);
                        case.check(r == w, "direct", || format!("rm_site({:?}) returned the wrong site", short(&a)));
                    }
                    2 => {
                        m.rename(Rename { name: a.clone(), rename_to: b.clone() });
                        if let Some(c) = model.remove(&a) {
                            model.insert(b.clone(), c);
                        }
                    }
                    _ => {}
                }
                for n in &names {
                    let r = m.get_site(n);
                    case.check(r.as_ref() == model.get(n), "direct", || {
                        format!("get_site({:?}): found {}, expected {}, or another site", short(n), r.is_some(), model.contains_key(n))
                    });
                }
                if case.failed() {
                    return;
                }
            }
        });
    });
    ctx.require("requests_judged", 2000);
    ctx.require("histories_linearized", 20);
}

// --- concurrent histories; site ids are durations, difficulty encodes the visitor's number
#[derive(Clone, Debug)]
enum Op {
    Add(usize, u64),
    Remove(usize),
    Rename(usize, usize),
    Visit(usize, Option<(u64, u32)>),
    Look(usize, bool),
    Nothing,
}
type LState = Vec<Option<(u64, u32)>>;
fn apply(s: &LState, op: &Op) -> Option<LState> {
    let mut s = s.clone();
    match op {
        Op::Nothing => {}
        Op::Add(n, id) => s[*n] = Some((*id, 0)),
        Op::Remove(n) => s[*n] = None,
        Op::Rename(a, b) => {
            if let Some(x) = s[*a].take() {
                s[*b] = Some(x)
            }
        }
        Op::Visit(n, r) => match (&mut s[*n], r) {
            (None, None) => {}
            (Some((id, c)), Some((d, k))) => {
                *c += 1;
                if id != d || *c != *k {
                    return None;
                }
            }
            _ => return None,
        },
        Op::Look(n, r) => {
            if s[*n].is_some() != *r {
                return None;
            }
        }
    }
    Some(s)
}
/// is there an order of all ops, respecting real time, that explains every reply?
fn linearizable(h: &[(u64, u64, Op)], s0: LState, end: &LState) -> Option<bool> {
    let n = h.len();
    let mut seen: HashSet<(u64, LState)> = HashSet::new();
    let mut stack = vec![(0u64, s0)];
    let mut visited = 0u64;
    while let Some((done, s)) = stack.pop() {
        visited += 1;
        if visited > 2_000_000 {
            return None;
        }
        if done == (1u64 << n) - 1 {
            if s == *end {
                return Some(true);
            }
            continue;
        }
        let first_ret = (0..n).filter(|i| done & (1 << i) == 0).map(|i| h[i].1).min().unwrap();
        for i in 0..n {
            if done & (1 << i) == 0 && h[i].0 <= first_ret {
                if let Some(t) = apply(&s, &h[i].2) {
                    let k = (done | 1 << i, t);
                    if seen.insert(k.clone()) {
                        stack.push(k);
                    }
                }
            }
        }
    }
    Some(false)
}
fn concurrent(case: &Case) {
    let rng = case.rng(1);
    let names = ["a", "a ", "b"];
    let lv: Vec<(u32, u32)> = (1..60).map(|i| (i, i)).collect();
    let hist: Mutex<Vec<(u64, u64, Op)>> = Mutex::default();
    let clk = std::sync::atomic::AtomicU64::new(0);
    let tick = || clk.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let sys = actix_rt::System::new();
    let r = sys.block_on(async { run_concurrent(case, rng, &names, &lv, &hist, &tick).await });
    drop(sys);
    let Some(end) = r else { return };
    let h = hist.into_inner().unwrap();
    for (a, b, op) in &h {
        case.ev(format!("[{a},{b}] {op:?}"));
    }
    case.ev(format!("end {end:?}"));
    case.seen(h.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>());
    match linearizable(&h, vec![None; 3], &end) {
        Some(true) => case.count("histories_linearized", 1),
        Some(false) => case.fail("not-linearizable", "no order of these concurrent requests explains their replies and the final registry"),
        None => case.count("linearization_gave_up", 1),
    }
    case.count("requests_judged", h.len() as u64);
    case.sample_events(20);
}
/// A crowd of visitors, and the site is removed, replaced or renamed in its middle.
fn crowds(case: &Case) {
    let mut rng = case.rng(1);
    let (n, at) = (rng.range(10, 200), rng.range(1, 200));
    let what = rng.below(3);
    let pause = rng.below(3);
    virtual_time(async {
        let m = Master::new(NEVER).start();
        if rng.chance(1, 2) {
            settle().await;
        }
        add(case, &m, "a", &[(1_000_000, 5)], 100_000).await;
        let mut tasks = Vec::new();
        let counts: Rc<RefCell<Vec<Option<u64>>>> = Rc::default();
        for k in 0..n {
            let (case, m, counts) = (case.clone(), m.clone(), counts.clone());
            tasks.push(actix_rt::spawn(async move {
                if k == at {
                    match what {
                        0 => remove(&case, &m, "a").await,
                        1 => rename(&case, &m, "a", "b").await,
                        _ => add(&case, &m, "a", &[(1_000_000, 6)], 200_000).await,
                    }
                } else {
                    let r = visit(&case, &m, "a").await.map(|r| r.0);
                    case.tick();
                    counts.borrow_mut().push(r);
                }
            }));
            yields(rng.below(pause + 1)).await;
        }
        for t in tasks {
            match tokio::time::timeout(PATIENCE, t).await {
                Ok(Ok(())) => {}
                Ok(Err(_)) => return,
                Err(_) => {
                    case.fail("not-answered", "a request of a crowd was never answered");
                    return;
                }
            }
        }
        let c = counts.borrow();
        let known = c.iter().filter(|x| x.is_some()).count() as u64;
        let s = snap(case, &m).await;
        let seen = |n: &str| s.get(n).map(|m| (m.get_duration(), m.get_visitors() as u64));
        let old = c.iter().filter(|x| **x == Some(100_000)).count() as u64;
        let new = known - old;
        case.ev(format!("{n} requests, number {at} does {what}: {old} visitors of the old site, {new} of the new one"));
        case.seen((n, at.min(n), what, old, new));
        let want = if at >= n {
            (Some((100_000, n)), None)
        } else {
            match what {
                0 => (None, None),
                1 => (None, Some((100_000, old))),
                _ => (Some((200_000, new)), None),
            }
        };
        case.check((seen("a"), seen("b")) == want, "registry-state", || {
            format!("after a crowd: a and b are {:?}, expected {want:?}", (seen("a"), seen("b")))
        });
        case.count("crowds", 1);
    });
    case.sample_events(3);
}
/// Many clients on one thread: requests are made a few task switches apart, without waiting
/// for the replies of earlier ones.
fn bursts(case: &Case) {
    let mut rng = case.rng(1);
    let names = ["a", "a ", "b"];
    let lv: Vec<(u32, u32)> = (1..60).map(|i| (i, i)).collect();
    let n = rng.range(4, 13) as usize;
    let lazy = rng.range(0, 4);
    virtual_time(async {
        let m = Master::new(NEVER).start();
        if rng.chance(1, 2) {
            settle().await;
        }
        let hist: Rc<RefCell<Vec<(u64, u64, Op)>>> = Rc::default();
        let clk = Rc::new(std::cell::Cell::new(0u64));
        fn tick(c: &std::cell::Cell<u64>) -> u64 {
            c.set(c.get() + 1);
            c.get()
        }
        let mut tasks = Vec::new();
        for k in 0..n {
            let (a, b) = (rng.below(3) as usize, rng.below(3) as usize);
            let what = if k == 0 { rng.below(12) } else { rng.below(10) };
            let (case, m, hist, clk) = (case.clone(), m.clone(), hist.clone(), clk.clone());
            let t0 = tick(&clk);
            let mcaptcha = (what < 2).then(|| build_mcaptcha(&lv, 100_000 + k as u64));
            let task = async move {
                let op = match what {
                    0 | 1 => case.ask_real(&m, AddSite { id: names[a].into(), mcaptcha: mcaptcha.unwrap() }).await.map(|_| Op::Add(a, 100_000 + k as u64)),
                    2 => case.ask_real(&m, RemoveCaptcha(names[a].into())).await.map(|_| Op::Remove(a)),
                    3 => case.ask_real(&m, Rename { name: names[a].into(), rename_to: names[b].into() }).await.map(|_| Op::Rename(a, b)),
                    4 => m.send(GetSite(names[a].into())).await.ok().map(|r| Op::Look(a, r.is_some())),
                    9 => case.ask_real(&m, GetInternalData).await.map(|_| Op::Nothing),
                    _ => case.ask_real(&m, AddVisitor(names[a].into())).await.map(|r| Op::Visit(a, r.map(|v| (v.duration, v.difficulty_factor)))),
                };
                let t1 = tick(&clk);
                case.tick();
                match op {
                    Some(op) => hist.borrow_mut().push((t0, t1, op)),
                    None => {
                        let what = ["AddSite", "AddSite", "RemoveCaptcha", "Rename", "GetSite"].get(what as usize).unwrap_or(&"AddVisitor");
                        case.fail("not-answered", format!("request {k}, {what} on {:?}, failed, with requests before it unanswered or just answered", names[a]))
                    }
                }
            };
            tasks.push(actix_rt::spawn(task));
            yields(rng.below(lazy + 1)).await;
            if rng.chance(1, 12) {
                settle().await;
            }
        }
        for t in tasks {
            if tokio::time::timeout(PATIENCE, t).await.is_err() {
                case.fail("not-answered", "a request of a burst was never answered");
                return;
            }
        }
        if case.failed() {
            return;
        }
        let s = snap(case, &m).await;
        let end: LState = names.iter().map(|n| s.get(*n).map(|m| (m.get_duration(), m.get_visitors()))).collect();
        let h = hist.borrow().clone();
        for (a, b, op) in &h {
            case.ev(format!("[{a},{b}] {op:?}"));
        }
        case.ev(format!("end {end:?}"));
        case.seen(h.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>());
        match linearizable(&h, vec![None; 3], &end) {
            Some(true) => case.count("bursts_linearized", 1),
            Some(false) => case.fail("not-linearizable", "no order of this burst of requests explains their replies and the final registry"),
            None => case.count("linearization_gave_up", 1),
        }
        case.count("requests_judged", h.len() as u64);
    });
    case.sample_events(20);
}
async fn run_concurrent(
    case: &Case,
    mut rng: Rng,
    names: &[&'static str; 3],
    lv: &[(u32, u32)],
    hist: &Mutex<Vec<(u64, u64, Op)>>,
    tick: &(dyn Fn() -> u64 + Sync),
) -> Option<LState> {
    let arb = Arbiter::new();
    let m = Master::start_in_arbiter(&arb.handle(), |_| Master::new(NEVER));
    let nthreads = rng.range(2, 4);
    let max = Duration::from_secs(30);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let m = m.clone();
            let mut rng = case.rng(50 + t);
            s.spawn(move || {
                for k in 0..rng.range(3, 6) {
                    let (a, b) = (rng.below(3) as usize, rng.below(3) as usize);
                    let t0 = tick();
                    let op = match rng.below(9) {
                        0 | 1 => {
                            let id = 100_000 + t * 100 + k;
                            let msg = AddSite { id: names[a].into(), mcaptcha: build_mcaptcha(lv, id) };
                            block_on(case.ask_real(&m, msg), max).flatten().map(|_| Op::Add(a, id))
                        }
                        2 => block_on(case.ask_real(&m, RemoveCaptcha(names[a].into())), max).flatten().map(|_| Op::Remove(a)),
                        3 | 4 => block_on(
                            case.ask_real(&m, Rename { name: names[a].into(), rename_to: names[b].into() }),
                            max,
                        )
                        .flatten()
                        .map(|_| Op::Rename(a, b)),
                        5 => block_on(m.send(GetSite(names[a].into())), max)
                            .and_then(|r| r.ok())
                            .map(|r| Op::Look(a, r.is_some())),
                        _ => block_on(case.ask_real(&m, AddVisitor(names[a].into())), max)
                            .flatten()
                            .map(|r| Op::Visit(a, r.map(|v| (v.duration, v.difficulty_factor)))),
                    };
                    let t1 = tick();
                    case.tick();
                    match op {
                        Some(op) => hist.lock().unwrap().push((t0, t1, op)),
                        None => {
                            case.fail("not-answered", format!("a request by thread {t} on {:?} failed or was never answered", names[a]));
                            return;
                        }
                    }
                }
            });
        }
    });
    if case.failed() {
        return None;
    }
    let s = match block_on(case.ask_real(&m, GetInternalData), max).flatten() {
        Some(s) => s,
        None => {
            case.fail("not-answered", "no snapshot after a concurrent history");
            return None;
        }
    };
    arb.stop();
    let _ = arb.join();
    Some(names.iter().map(|n| s.get(*n).map(|m| (m.get_duration(), m.get_visitors()))).collect())
}
impl Case {
    /// for use outside of any runtime: None unless answered with Ok
    pub async fn ask_real<A, M, T>(&self, a: &Addr<A>, m: M) -> Option<T>
    where
        A: Actor + Handler<M>,
        A::Context: actix::dev::ToEnvelope<A, M>,
        M: Message<Result = tokio::sync::oneshot::Receiver<libmcaptcha::errors::CaptchaResult<T>>> + Send + 'static,
        T: Send + 'static,
    {
        a.send(m).await.ok()?.await.ok()?.ok()
    }
}

// ------------------------------------------------------------------ C11
pub fn c11(ctx: &Arc<Ctx>) {
    ctx.rule("virtual time; requests are placed before, at and a few task switches into each collection while the site's state is known; snapshots around collections show what was removed; distinct = distinct (request raced, delay in task switches, site state, outcome)");
    // no races: exactly the idle used sites go, in time
    run_cases(ctx, "quiet", ctx.n(300, 3000), 8, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let gc = rng.range(1, 6);
            let clock = Clock::new();
            let m = Master::new(gc).start();
            case.ev(format!("collection every {gc}s"));
            let mut reg = Reg::default();
            // last time anything made the site busy or was asked about it
            let mut last: BTreeMap<String, u64> = BTreeMap::new();
            let names: Vec<String> = (0..rng.range(2, 7)).map(|i| format!("s{i}")).collect();
            for _ in 0..rng.range(15, 60) {
                let gap = *rng.pick(&[0u64, 30, 500, 1000 * gc, 1000 * gc + 500, 700, 2500]);
                let mut to = clock.ms() + gap;
                while reg.ambiguous(to, 8) {
                    to += 9;
                }
                clock.until(to).await;
                let now = clock.ms();
                if reg.ambiguous(now, 6) {
                    continue;
                }
                reg.at(now);
                // what may, must and must not be there
                let s = snap(case, &m).await;
                let known: Vec<String> = reg.sites.keys().cloned().collect();
                for n in known {
                    let t = reg.sites[&n].clone();
                    let here = s.contains_key(&n);
                    let state = format!("{n} ({} live visitors, used: {}, last used at {}ms)", t.site.count, t.used, last[&n]);
                    if t.site.count > 0 || !t.used {
                        if !case.check(here, "collected-too-early", || format!("{now}ms: {state} is gone")) {
                            return;
                        }
                        case.count("kept", 1);
                    } else {
                        let idle_since = last[&n];
                        let late = now > idle_since + 2 * gc * 1000 + 200;
                        if late {
                            case.count("collected_in_time", 1);
                            if !case.check(!here, "not-collected", || {
                                format!("{now}ms: {state} idle since {idle_since}ms is still registered, collection period {gc}s")
                            }) {
                                return;
                            }
                        }
                        if !here {
                            reg.sites.remove(&n);
                        }
                    }
                    case.seen((gc, t.site.count.min(5), t.used, here));
                }
                for n in s.keys() {
                    case.check(reg.sites.contains_key(n), "registry-extra-site", || format!("{now}ms: {n} came back"));
                }
                let a = rng.pick(&names).clone();
                match rng.below(8) {
                    0 | 1 => {
                        let lv = gen_levels(&mut rng, 3, 10, 1000);
                        let d = rng.range(1, 8);
                        add(case, &m, &a, &lv, d).await;
                        reg.sites.insert(a.clone(), TimedSite::new(lv, d));
                        last.insert(a.clone(), now);
                        case.ev(format!("{now}ms add {a} duration {d}s"));
                    }
                    2 => {
                        let b = rng.pick(&names).clone();
                        rename(case, &m, &a, &b).await;
                        case.ev(format!("{now}ms rename {a} {b}"));
                        // an idle used site may have been collected or not; ask
                        let s = snap(case, &m).await;
                        if s.contains_key(&b) && reg.sites.contains_key(&a) {
                            reg.rename(&a, &b);
                            if let Some(x) = last.remove(&a) {
                                last.insert(b.clone(), x.max(now));
                            }
                        } else if !s.contains_key(&a) && a != b {
                            reg.sites.remove(&a);
                        }
                        if !s.contains_key(&b) {
                            reg.sites.remove(&b);
                        }
                    }
                    3 => {
                        remove(case, &m, &a).await;
                        reg.sites.remove(&a);
                        case.ev(format!("{now}ms remove {a}"));
                    }
                    _ => {
                        for _ in 0..rng.range(1, 4) {
                            let r = visit(case, &m, &a).await;
                            if let (Some(t), Some(_)) = (reg.sites.get_mut(&a), &r) {
                                t.visit(now);
                                last.insert(a.clone(), now + t.site.duration * 1000);
                            } else if let Some(t) = reg.sites.get(&a) {
                                case.check(t.used && t.site.count == 0, "collected-too-early", || {
                                    format!("{now}ms: visit to {a} answered {r:?}")
                                });
                                reg.sites.remove(&a);
                            }
                            case.ev(format!("{now}ms visit {a}: {r:?}"));
                        }
                    }
                }
                if case.failed() {
                    return;
                }
            }
            case.sample_events(12);
        });
    });
    run_cases(ctx, "many", ctx.n(16, 160), 8, |case| many(case, Many::Collections));
    run_cases(ctx, "races", ctx.n(8000, 100000), 8, |case| races(case));
    run_cases(ctx, "storm", ctx.n(12, 150), 2, |case| storm(case));
    ctx.require("races_run", 500);
    ctx.require("storm: served and kept", 1000);
    ctx.require("storm: collected", 100);
    ctx.require("collected_in_time", 100);
    ctx.require("kept", 500);
}

async fn yields(n: u64) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Requests in the middle of a collection. Each racer is a task that starts when the
/// collection is due and lets a chosen number of task switches pass first.
fn races(case: &Case) {
    let mut rng = case.rng(1);
    virtual_time(async {
        let gc = *rng.pick(&[1u64, 2, 5]);
        let clock = Clock::new();
        let m = Master::new(gc).start();
        settle().await;
        let dur = rng.range(1, 3);
        // a few sites idle at the collection, some fresh, some busy
        let nidle = rng.range(1, 4) as usize;
        let lv = vec![(1000u32, 7u32)];
        for i in 0..nidle {
            add(case, &m, &format!("idle{i}"), &lv, dur).await;
            visit(case, &m, &format!("idle{i}")).await;
        }
        add(case, &m, "fresh", &lv, dur).await;
        add(case, &m, "busy", &lv, 100_000).await;
        visit(case, &m, "busy").await;
        let others = rng.below(4);
        for i in 0..others {
            add(case, &m, &format!("z{i}"), &lv, 100_000).await;
            visit(case, &m, &format!("z{i}")).await;
        }
        // Find a collection at which the idle sites would go: collections happen every gc
        // seconds from the start. Aim at every collection from the first possible one on.
        let mut k = 1u64;
        while k * gc * 1000 <= dur * 1000 + 20 {
            k += 1;
        }
        if rng.chance(1, 2) {
            k += 1;
        }
        if rng.chance(1, 6) && k > 1 {
            k -= 1;
        }
        let due = k * gc * 1000;
        // arrive just before it, then wait for the very instant: the timers of racers and
        // of the collection fire together, in varying order
        clock.until(due - 50).await;
        let jitter = *rng.pick(&[0i64, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]);
        let target = clock.ms() + (due as i64 - clock.ms() as i64 + jitter - 1) as u64;
        let outcome: Rc<RefCell<Vec<String>>> = Rc::default();
        // expectations after the race: name -> must be present
        let must: Rc<RefCell<HashMap<String, String>>> = Rc::default();
        must.borrow_mut().insert("fresh".into(), "fresh, never used".into());
        must.borrow_mut().insert("busy".into(), "has a live visitor".into());
        let mut racers = vec![];
        let nrace = rng.range(1, 3);
        let mut used: Vec<usize> = vec![];
        for r in 0..nrace {
            let i = rng.below(nidle as u64) as usize;
            if used.contains(&i) {
                continue;
            }
            used.push(i);
            let name = format!("idle{i}");
            let op = rng.below(8);
            let d = rng.below(26);
            let d2 = rng.below(8);
            let (case, m, outcome, must, lv) = (case.clone(), m.clone(), outcome.clone(), must.clone(), lv.clone());
            let start = tokio::time::Instant::now() + Duration::from_millis(target - clock.ms());
            racers.push(actix_rt::spawn(async move {
                tokio::time::sleep_until(start).await;
                yields(d).await;
                let what = match op {
                    0 | 1 => {
                        // a visitor: if it is served the site has a live visitor from now on
                        let r = m.send(AddVisitor(name.clone())).await;
                        let r = match r {
                            Ok(rx) => rx.await.ok(),
                            Err(_) => None,
                        };
                        match r {
                            Some(Ok(Some(_))) => {
                                must.borrow_mut().insert(name.clone(), format!("a visitor was admitted (after {d} switches)"));
                                "visited"
                            }
                            Some(Ok(None)) => "unknown",
                            // refused by a site that was just collected
                            Some(Err(_)) => "refused",
                            None => case.abort("not-answered", format!("visit to {name} during a collection got no reply")),
                        }
                    }
                    2 | 3 => {
                        add(&case, &m, &name, &lv, 50).await;
                        must.borrow_mut().insert(name.clone(), format!("re-added (after {d} switches)"));
                        if d2 < 2 {
                            yields(d2).await;
                            let r = visit(&case, &m, &name).await;
                            case.check(r.is_some(), "readded-site-gone", || format!("{name} was re-added during a collection and is unknown {d2} task switches later"));
                            "re-added and visited"
                        } else {
                            "re-added"
                        }
                    }
                    4 => {
                        let to = format!("new{r}");
                        rename(&case, &m, &name, &to).await;
                        // it was collected before or it is there to stay
                        if snap(&case, &m).await.contains_key(&to) {
                            must.borrow_mut().insert(to, format!("renamed (after {d} switches)"));
                            "renamed"
                        } else {
                            "rename came too late"
                        }
                    }
                    5 => {
                        // onto a busy site
                        let before = snap(&case, &m).await.contains_key(&name);
                        rename(&case, &m, &name, "busy").await;
                        let s = snap(&case, &m).await;
                        // either the rename took effect (and "busy" is the renamed site, unused)
                        // or the site had been collected and busy is untouched
                        case.check(s.contains_key("busy"), "collected-too-early", || {
                            format!("renaming {name} (registered before: {before}) onto a busy site during a collection left neither")
                        });
                        must.borrow_mut().insert("busy".into(), "busy or renamed".into());
                        "renamed onto busy"
                    }
                    6 => {
                        remove(&case, &m, &name).await;
                        yields(d2).await;
                        add(&case, &m, &name, &lv, 50).await;
                        must.borrow_mut().insert(name.clone(), format!("removed and added again (after {d} + {d2} switches)"));
                        "removed and re-added"
                    }
                    _ => {
                        // somebody stops the site's counter itself
                        if let Some(c) = case.ask(&m, GetSite(name.clone()), "GetSite").await {
                            yields(d2).await;
                            let _ = c.send(Stop).await;
                        }
                        "counter stopped"
                    }
                };
                outcome.borrow_mut().push(format!("{op}+{d}: {what}"));
            }));
        }
        for h in racers {
            let _ = h.await;
        }
        if case.failed() {
            return;
        }
        // let this collection finish, look before the next one
        clock.until(due + 300).await;
        let s = snap(case, &m).await;
        case.ev(format!("period {gc}s duration {dur}s collection due at {due}ms, racers at {target}ms: {:?}", outcome.borrow()));
        case.ev(format!("registered afterwards: {:?}", s.keys().collect::<Vec<_>>()));
        let mut o = outcome.borrow().clone();
        o.sort();
        case.seen((gc, dur, k, jitter, nidle, others, &o));
        case.count("races_run", 1);
        for x in &o {
            let label = x.split(": ").nth(1).unwrap_or("?");
            case.count(&format!("race: {label}"), 1);
        }
        for (n, why) in must.borrow().iter() {
            // a re-added site visited by nobody stays for ever, one with a visitor as long as it lives
            if n.starts_with("idle") && why.starts_with("a visitor") && due + 300 >= target + dur * 1000 {
                continue;
            }
            if !case.check(s.contains_key(n), "collected-too-early", || {
                format!("{n} is gone after the collection: {why}; registered: {:?}", s.keys().collect::<Vec<_>>())
            }) {
                return;
            }
        }
        // bystanders
        for i in 0..others {
            let n = format!("z{i}");
            case.check(s.contains_key(&n), "collected-too-early", || format!("busy {n} is gone"));
        }
        // the registry works and later collections still happen
        add(case, &m, "later", &lv, 1).await;
        let r = visit(case, &m, "later").await;
        case.check(r.is_some(), "registry-broken", || "a new site is unknown after the race".to_string());
        let end = clock.ms() + 1000 + 2 * gc * 1000 + 300;
        clock.until(end).await;
        let s = snap(case, &m).await;
        case.check(!s.contains_key("later"), "collections-stopped", || {
            format!("a used idle site is not collected any more after {:?}", outcome.borrow())
        });
        for (n, why) in must.borrow().iter() {
            if why.starts_with("re-added") && s.contains_key(n) == false && why.contains("visited") == false && !o.iter().any(|x| x.ends_with("and visited")) {
                case.fail("collected-too-early", format!("{n} ({why}) was collected later although nobody used it"));
            }
        }
        case.check(s.contains_key("fresh"), "collected-too-early", || "the fresh site is gone".to_string());
        case.count("collected_in_time", 1);
        case.sample_events(4);
    });
}

/// Real threads against a registry that collects all the time. Every thread has names of
/// its own, so it knows what each of its sites must be like.
fn storm(case: &Case) {
    let mut rng = case.rng(1);
    let lv: Vec<(u32, u32)> = (1..60).map(|i| (i, i)).collect();
    let max = Duration::from_secs(30);
    let sys = actix_rt::System::new();
    let rounds = case.ctx.n(900, 4000);
    let nthreads = rng.range(1, 4);
    let direct = rng.chance(1, 2);
    sys.block_on(async {
        let arb = Arbiter::new();
        // either a period of zero, or collections requested explicitly on top
        let gc = if direct { NEVER } else { 0 };
        let m = Master::start_in_arbiter(&arb.handle(), move |_| Master::new(gc));
        let done = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            if direct {
                let (m, done) = (m.clone(), &done);
                s.spawn(move || {
                    // (each explicit collection leaves a timer behind: not too many)
                    for _ in 0..3000 {
                        if done.load(std::sync::atomic::Ordering::SeqCst) == nthreads {
                            break;
                        }
                        if block_on(m.send(libmcaptcha::master::embedded::master::CleanUp), max).is_none() {
                            case.fail("not-answered", "a collection request was not answered");
                        }
                        spin(80);
                    }
                });
            }
            for t in 0..nthreads {
                let (m, done, lv) = (m.clone(), &done, &lv);
                let mut rng = case.rng(50 + t);
                s.spawn(move || {
                    for k in 0..rounds {
                        if case.failed() {
                            break;
                        }
                        storm_round(case, &mut rng, &m, lv, &format!("t{t}-{}", k % 3), &format!("t{t}-x"), max);
                        case.tick();
                    }
                    done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                });
            }
        });
        if case.failed() {
            return;
        }
        case.ev(format!("{nthreads} threads x {rounds} rounds, explicit collections: {direct}"));
        arb.stop();
        let _ = arb.join();
    });
}
fn storm_round(case: &Case, rng: &mut Rng, m: &Addr<Master>, lv: &[(u32, u32)], name: &str, other: &str, max: Duration) {
    macro_rules! rq {
        ($m:expr, $what:expr) => {
            match block_on(case.ask_real(m, $m), max) {
                Some(Some(v)) => v,
                x => {
                    case.fail("not-answered", format!("{} during collections: {}", $what, if x.is_none() { "no reply" } else { "an error" }));
                    return;
                }
            }
        };
    }
    let visit = |n: &str| AddVisitor(n.to_string());
    rq!(AddSite { id: name.into(), mcaptcha: build_mcaptcha(lv, 100_000) }, "AddSite");
    let mut served = 0u32;
    let mut at = name;
    let mut log = vec![format!("add {name}")];
    // make it "used" without giving it a visitor: it may be collected from now on
    let used = rng.chance(3, 4);
    if used {
        let g = block_on(m.send(GetSite(name.into())), max);
        log.push("lookup".into());
        match g {
            Some(Ok(Some(_))) => {}
            Some(Ok(None)) => return case.fail("collected-too-early", format!("{name} was collected before it was ever used")),
            _ => return case.fail("not-answered", "lookup during collections got no reply"),
        }
    }
    let mut gone = false;
    let mut unused = !used;
    for _ in 0..rng.range(1, 4) {
        spin(rng.below(*rng.clone().pick(&[2, 20, 150, 1200])));
        match rng.below(6) {
            0 => {
                rq!(Rename { name: at.into(), rename_to: other.into() }, "Rename");
                log.push(format!("rename to {other}"));
                let s = rq!(GetInternalData, "snapshot");
                let here = s.contains_key(other);
                if !here && (unused || served > 0) {
                    return case.fail("collected-too-early", format!("{at} ({served} visitors, used: {}) is gone after a rename: {log:?}", !unused));
                }
                at = other;
                gone = !here;
                unused = here;
                case.seen(("storm rename", here, served.min(3)));
            }
            1 => {
                rq!(AddSite { id: at.into(), mcaptcha: build_mcaptcha(lv, 100_000) }, "AddSite");
                log.push("re-add".into());
                (gone, served, unused) = (false, 0, true);
            }
            _ => {
                let r = rq!(visit(at), "a visit");
                log.push(format!("visit: {:?}", r.as_ref().map(|x| x.difficulty_factor)));
                match r {
                    None if unused || served > 0 => {
                        return case.fail("collected-too-early", format!("{at} ({served} visitors, used: {}) is gone: {log:?}", !unused));
                    }
                    None => gone = true,
                    Some(_) if gone => {
                        return case.fail("registry-extra-site", format!("{at} came back: {log:?}"));
                    }
                    Some(v) => {
                        served += 1;
                        unused = false;
                        if v.difficulty_factor != served {
                            return case.fail("visitor-lost", format!("visitor {served} of {at} was told difficulty {}: {log:?}", v.difficulty_factor));
                        }
                    }
                }
                case.seen(("storm visit", gone, served.min(3), unused));
            }
        }
        if gone {
            break;
        }
    }
    if gone {
        case.count("storm: collected", 1);
    } else if served > 0 || unused {
        spin(rng.below(100));
        let s = rq!(GetInternalData, "snapshot");
        match s.get(at) {
            Some(x) if x.get_visitors() == served => case.count("storm: served and kept", 1),
            x => {
                return case.fail(
                    "collected-too-early",
                    format!("{at} should be registered with {served} visitors, but is {:?}: {log:?}", x.map(observe)),
                )
            }
        }
    }
    rq!(RemoveCaptcha(at.into()), "RemoveCaptcha");
}

/// Registries of hundreds to tens of thousands of sites.
#[derive(Clone, Copy, PartialEq)]
enum Many {
    Requests,
    Collections,
    Snapshots,
}
fn many(case: &Case, what: Many) {
    let mut rng = case.rng(1);
    let n = match rng.below(8) {
        0 => rng.range(200, 600),
        1 | 2 => rng.range(600, 1500),
        3 | 4 => rng.range(1500, 4000),
        5 | 6 => rng.range(4000, 9000),
        _ => rng.range(9000, if case.ctx.thorough { 80_000 } else { 20_000 }),
    };
    let style = rng.below(5);
    let name = move |i: u64| match style {
        0 => format!("s{i}"),
        1 => format!("site-{i:010}"),
        2 => format!("{:016x}", (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
        3 => format!("{}{i}", "long-".repeat(20)),
        _ => format!("{i}.example.org"),
    };
    // how many are fresh, idle soon, busy for long
    let mix = *rng.pick(&[[1u64, 1, 1], [8, 1, 1], [1, 8, 1], [1, 1, 8], [0, 1, 0], [0, 0, 1]]);
    virtual_time(async {
        let clock = Clock::new();
        let gc = if what == Many::Collections { rng.range(1, 5) } else { NEVER };
        let m = Master::new(gc).start();
        let mut reg = Reg::default();
        let mut class = vec![];
        for i in 0..n {
            let c = match rng.below(mix.iter().sum()) {
                x if x < mix[0] => 0,
                x if x < mix[0] + mix[1] => 1,
                _ => 2,
            };
            class.push(c);
            let d = i as u32 + 1;
            let lv = if i % 3 == 0 { vec![(1, d)] } else { vec![(i as u32 % 4, d), (1000, d + 1)] };
            let dur = if c == 1 { 2 } else { 100_000 };
            add(case, &m, &name(i), &lv, dur).await;
            reg.sites.insert(name(i), TimedSite::new(lv, dur));
            case.tick();
        }
        case.ev(format!("{n} sites like {:?}, fresh / idle soon / busy {mix:?}, collections every {gc} s", short(&name(1))));
        case.seen((n, style, mix));
        let mut order: Vec<u64> = (0..n).collect();
        if rng.chance(1, 2) {
            rng.shuffle(&mut order);
        }
        macro_rules! visits {
            ($i:expr, $k:expr) => {{
                let (a, now) = (name($i), clock.ms());
                for _ in 0..$k {
                    let r = visit(case, &m, &a).await;
                    let want = reg.sites.get_mut(&a).map(|t| (t.site.duration, t.visit(now)));
                    case.count("requests_judged", 1);
                    if !case.check(r == want, if what == Many::Collections && r.is_none() { "collected-too-early" } else { "visitor-reply" }, || {
                        format!("one of {n} sites, {:?}: a visit was answered {r:?}, expected {want:?}", short(&a))
                    }) {
                        return;
                    }
                }
            }};
        }
        for i in &order {
            if class[*i as usize] != 0 {
                visits!(*i, rng.range(1, 4));
            }
        }
        if !compare(case, &m, &reg, &format!("registering {n} sites")).await {
            return;
        }
        match what {
            Many::Requests => {
                for k in 0..rng.range(100, 600) {
                    let (i, j) = (rng.below(n), rng.below(n + 5));
                    let (a, b) = (name(i), name(j));
                    case.count("requests_judged", 1);
                    match rng.below(6) {
                        0 => {
                            remove(case, &m, &a).await;
                            reg.sites.remove(&a);
                        }
                        1 => {
                            rename(case, &m, &a, &b).await;
                            reg.rename(&a, &b);
                        }
                        2 => {
                            let lv = vec![(5, 3_000_000 + k as u32)];
                            add(case, &m, &b, &lv, 90_000).await;
                            reg.sites.insert(b, TimedSite::new(lv, 90_000));
                        }
                        3 => {
                            let g = case.ask(&m, GetSite(b.clone()), "GetSite").await.is_some();
                            case.check(g == reg.sites.contains_key(&b), "lookup", || format!("lookup of {:?}, one of {n}: found {g}", short(&b)));
                        }
                        _ => visits!(j, rng.range(1, 3)),
                    }
                    if case.failed() {
                        return;
                    }
                }
                compare(case, &m, &reg, &format!("a few requests to a registry of {n} sites")).await;
            }
            Many::Collections => {
                // nobody is idle yet
                clock.until(1900).await;
                if !compare(case, &m, &reg, "1.9 s").await {
                    return;
                }
                for round in 1..=3u64 {
                    let until = 2000 + (2 * gc * 1000) * round + 300;
                    clock.until(until).await;
                    let s = snap(case, &m).await;
                    for i in 0..n {
                        let a = name(i);
                        let (here, c) = (s.contains_key(&a), class[i as usize]);
                        if c == 1 {
                            case.count("collected_in_time", 1);
                            if !case.check(!here, "not-collected", || {
                                format!("{until}ms: {:?}, one of {n} sites, is idle since 2000 ms and still registered, collection period {gc} s", short(&a))
                            }) {
                                return;
                            }
                        } else {
                            case.count("kept", 1);
                            if !case.check(here, "collected-too-early", || {
                                format!("{until}ms: {:?}, one of {n} sites, {} is gone", short(&a), ["never used,", "", "with live visitors,"][c])
                            }) {
                                return;
                            }
                        }
                    }
                    // some more get busy
                    for _ in 0..20 {
                        let i = rng.below(n);
                        if class[i as usize] != 1 {
                            visits!(i, 1);
                            class[i as usize] = 2;
                        }
                    }
                }
            }
            Many::Snapshots => {
                let mut s = snap(case, &m).await;
                let mut model = reg.snapshot();
                let as_text = rng.chance(1, 2);
                if as_text {
                    let t = case.must(serde_json::to_string(&s), "write snapshot");
                    s = case.must(serde_json::from_str(&t), "read snapshot");
                }
                case.count("snapshots_taken", 1);
                // into a registry that has other sites, or is the same
                let fresh = rng.chance(2, 3);
                let (m, mut reg) = if fresh { (Master::new(NEVER).start(), Reg::default()) } else { (m.clone(), reg) };
                for k in 0..rng.below(40) {
                    let i = rng.below(n);
                    if rng.chance(1, 2) {
                        add(case, &m, &name(i), &[(7, 7)], 50).await;
                        reg.sites.insert(name(i), TimedSite::new(vec![(7, 7)], 50));
                    } else if k % 2 == 0 {
                        model.remove(&name(i));
                        s.remove(&name(i));
                    } else {
                        remove(case, &m, &name(i)).await;
                        reg.sites.remove(&name(i));
                    }
                }
                let later = rng.range(1, 1900);
                clock.until(later).await;
                reg.at(later);
                let r = case.ask_rx(&m, SetInternalData { mcaptcha: s }, "SetInternalData").await;
                case.must(r, "SetInternalData");
                reg.restore(later, &model);
                case.count("restores", 1);
                let how = format!("restoring {} sites into {}, as text {as_text}", model.len(), if fresh { "another registry" } else { "the same" });
                case.ev(&how);
                if !compare(case, &m, &reg, &how).await {
                    return;
                }
                for at in [later + 1950, later + 2050, 4200] {
                    if reg.ambiguous(at, 10) {
                        continue;
                    }
                    clock.until(at).await;
                    reg.at(at);
                    if !compare(case, &m, &reg, &format!("{how}, {at} ms")).await {
                        return;
                    }
                }
            }
        }
        case.count("many_sites", n);
        case.sample_events(3);
    });
}

// ------------------------------------------------------------------ C12
pub fn c12(ctx: &Arc<Ctx>) {
    ctx.rule("snapshots taken at random points of random histories, stored directly or as JSON, restored into the same, an overlapping or a fresh registry (also repeatedly), followed by further visitors and time; counts, levels and configurations compared with the timed model after every step; distinct = distinct (restored counts, pending expiries) situations");
    run_cases(ctx, "registry", ctx.n(700, 7000), 8, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let mut regs = vec![(Master::new(NEVER).start(), Reg::default()), (Master::new(NEVER).start(), Reg::default())];
            let names: Vec<String> = (0..rng.range(1, 5)).map(|i| if i < 3 { format!("s{i}") } else { rng.name() }).collect();
            let mut saved: Option<(HashMap<String, MCaptcha>, BTreeMap<String, Site>)> = None;
            let mut restores = 0;
            for step in 0..rng.range(15, 70) {
                if step > 2 && rng.chance(2, 5) {
                    let mut to = clock.ms() + *rng.pick(&[1u64, 200, 500, 700, 990, 1010, 1500, 3000]);
                    while regs.iter().any(|r| r.1.ambiguous(to, 4)) {
                        to += 5;
                    }
                    clock.until(to).await;
                }
                let now = clock.ms();
                if regs.iter().any(|r| r.1.ambiguous(now, 3)) {
                    continue;
                }
                regs.iter_mut().for_each(|r| r.1.at(now));
                let which = rng.below(2) as usize;
                let a = rng.pick(&names).clone();
                let (m, reg) = &mut regs[which];
                let op = if reg.sites.is_empty() && saved.is_none() { 0 } else { rng.below(12) };
                let what = match op {
                    0 | 1 => {
                        let lv = gen_levels(&mut rng, 5, 10, 1000);
                        let d = rng.range(1, 4);
                        add(case, m, &a, &lv, d).await;
                        reg.sites.insert(a.clone(), TimedSite::new(lv, d));
                        format!("add {:?} duration {d}s", short(&a))
                    }
                    2 => {
                        if rng.chance(1, 3) {
                            remove(case, m, &a).await;
                            reg.sites.remove(&a);
                        }
                        format!("remove {:?}", short(&a))
                    }
                    3 | 4 => {
                        let s = snap(case, m).await;
                        let want = reg.snapshot();
                        let ok = s.len() == want.len()
                            && want.iter().all(|(n, x)| s.get(n).map(observe) == Some(expect_of(x)));
                        case.check(ok, "snapshot", || {
                            format!(
                                "snapshot reads {:?}, expected {:?}",
                                s.iter().map(|(n, m)| (short(n), observe(m))).collect::<Vec<_>>(),
                                want
                            )
                        });
                        let s = if rng.chance(1, 2) {
                            serde_json::from_str(&case.must(serde_json::to_string(&s), "write snapshot"))
                                .map_err(|e| case.abort("snapshot", format!("stored snapshot unreadable: {e}")))
                                .unwrap()
                        } else {
                            s
                        };
                        saved = Some((s, want));
                        case.count("snapshots_taken", 1);
                        format!("snapshot of registry {which}")
                    }
                    5 | 6 => {
                        if let Some((s, model)) = &saved {
                            let mut s = s.clone();
                            let mut model = model.clone();
                            if rng.chance(1, 4) {
                                // only part of it
                                if let Some(n) = model.keys().next().cloned() {
                                    model.remove(&n);
                                    s.remove(&n);
                                }
                            }
                            let r = case.ask_rx(m, SetInternalData { mcaptcha: s }, "SetInternalData").await;
                            case.must(r, "SetInternalData");
                            reg.restore(now, &model);
                            restores += 1;
                            case.count("restores", 1);
                            case.seen((which, reg.sites.values().map(|t| (t.site.count, t.site.level)).collect::<Vec<_>>()));
                        }
                        format!("restore into registry {which}")
                    }
                    _ => {
                        let mut got = vec![];
                        for _ in 0..rng.range(1, 7) {
                            let r = visit(case, m, &a).await;
                            let want = reg.sites.get_mut(&a).map(|t| (t.site.duration, t.visit(now)));
                            case.check(r == want, "visitor-reply", || format!("visit to {:?} answered {r:?}, expected {want:?}", short(&a)));
                            got.push(r);
                        }
                        format!("visits to {:?}: {got:?}", short(&a))
                    }
                };
                case.ev(format!("{now}ms registry {which}: {what}"));
                if case.failed() || !compare(case, m, reg, &what).await {
                    return;
                }
                if rng.chance(1, 3) {
                    let (m, reg) = &regs[1 - which];
                    if !compare(case, m, reg, "time passing").await {
                        return;
                    }
                }
            }
            // through all expiries that are still due
            for _ in 0..12 {
                let due: Vec<u64> = regs.iter().flat_map(|r| r.1.sites.values().flat_map(|t| t.pending.iter().map(|p| p.0))).collect();
                let Some(next) = due.iter().min().copied() else { break };
                for t in [next.saturating_sub(6), next + 6] {
                    if t <= clock.ms() || due.iter().any(|d| dist(*d, t) <= 4) {
                        continue;
                    }
                    clock.until(t).await;
                    let now = clock.ms();
                    if regs.iter().any(|r| r.1.ambiguous(now, 3)) {
                        continue;
                    }
                    for (m, reg) in &mut regs {
                        reg.at(now);
                        case.ev(format!("{now}ms look"));
                        if !compare(case, m, reg, &format!("waiting until {now}ms")).await {
                            return;
                        }
                    }
                }
                regs.iter_mut().for_each(|r| r.1.at(next + 6));
            }
            if restores > 0 {
                case.sample_events(14);
            }
        });
    });
    run_cases(ctx, "many", ctx.n(16, 160), 8, |case| many(case, Many::Snapshots));
    // one counter, restored directly
    run_cases(ctx, "counter", ctx.n(400, 4000), 8, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            use libmcaptcha::master::embedded::counter::AddVisitor as CAdd;
            let clock = Clock::new();
            let lv = gen_levels(&mut rng, 4, 8, 100);
            let d = rng.range(1, 3);
            let mut t = TimedSite::new(lv.clone(), d);
            let c = Counter::from(build_mcaptcha(&lv, d)).start();
            for _ in 0..rng.range(5, 40) {
                let mut to = clock.ms() + *rng.pick(&[0u64, 0, 100, 495, 505, 900, 1300]);
                while t.ambiguous(to, 4) {
                    to += 5;
                }
                clock.until(to).await;
                let now = clock.ms();
                if t.ambiguous(now, 3) {
                    continue;
                }
                t.at(now);
                match rng.below(5) {
                    0 => {
                        let lv = gen_levels(&mut rng, 4, 8, 100);
                        let d = rng.range(1, 3);
                        let mut s = Site::new(lv.clone(), d);
                        let mut m = build_mcaptcha(&lv, d);
                        for _ in 0..rng.below(9) {
                            m.add_visitor();
                            s.visit();
                        }
                        case.ask(&c, CSet(m), "SetInternalData").await;
                        t = TimedSite::new(lv, d);
                        t.pending.push((now + d * 1000, s.count));
                        t.site = s;
                        case.count("restores", 1);
                        case.ev(format!("{now}ms restore {:?}", expect_of(&t.site)));
                    }
                    _ => {
                        let r = case.ask(&c, CAdd, "AddVisitor").await;
                        let want = (t.site.duration, t.visit(now));
                        case.ev(format!("{now}ms visit"));
                        case.check((r.duration, r.difficulty_factor) == want, "visitor-reply", || {
                            format!("{now}ms: visit answered {r:?}, expected {want:?}")
                        });
                    }
                }
                let o = observe(&case.ask(&c, CGet, "GetInternalData").await);
                case.seen((t.site.count, t.pending.len(), t.site.level));
                if !case.check(o == expect_of(&t.site), "restored-state", || {
                    format!("{now}ms: site is {o:?}, expected {:?} with expiries {:?}", expect_of(&t.site), t.pending)
                }) {
                    return;
                }
            }
        });
    });
    ctx.require("restores", 300);
    ctx.require("snapshots_taken", 300);
}
