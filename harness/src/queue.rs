//! C13-C16 on the job queue itself: gated, instrumented jobs
use crate::util::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::verif::{Manager, Runnable};
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// Generous: everything awaited here takes microseconds when it happens at all.
const MAX: Duration = Duration::from_secs(25);

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    Call(usize),
    Admit(usize),
    Refuse(usize),
    Start(usize),
    Finish(usize),
    Drop(usize),
}
#[derive(Default)]
struct State {
    log: Vec<E>,
    open: HashSet<usize>,
}
struct World {
    st: Mutex<State>,
    cv: Condvar,
    free: AtomicBool,
    running: AtomicUsize,
    max_running: AtomicUsize,
    started: AtomicUsize,
    finished: AtomicUsize,
}
impl World {
    fn new(free: bool) -> Arc<World> {
        Arc::new(World {
            st: Mutex::default(),
            cv: Condvar::new(),
            free: AtomicBool::new(free),
            running: AtomicUsize::new(0),
            max_running: AtomicUsize::new(0),
            started: AtomicUsize::new(0),
            finished: AtomicUsize::new(0),
        })
    }
    fn put(&self, e: E) {
        self.st.lock().unwrap().log.push(e)
    }
    fn release(&self, j: usize) {
        self.st.lock().unwrap().open.insert(j);
        self.cv.notify_all();
    }
    fn release_all(&self) {
        self.free.store(true, SeqCst);
        let _g = self.st.lock().unwrap();
        self.cv.notify_all();
    }
    fn log(&self) -> Vec<E> {
        self.st.lock().unwrap().log.clone()
    }
    fn starts(&self) -> Vec<usize> {
        self.log().iter().filter_map(|e| if let E::Start(j) = e { Some(*j) } else { None }).collect()
    }
}
struct Job {
    w: Arc<World>,
    id: usize,
    work_us: u64,
}
impl Runnable for Job {
    fn run(&self) {
        let w = &self.w;
        let n = w.running.fetch_add(1, SeqCst) + 1;
        w.max_running.fetch_max(n, SeqCst);
        w.put(E::Start(self.id));
        w.started.fetch_add(1, SeqCst);
        if !w.free.load(SeqCst) {
            let mut g = w.st.lock().unwrap();
            while !g.open.contains(&self.id) && !w.free.load(SeqCst) {
                g = w.cv.wait(g).unwrap();
            }
        }
        if self.work_us > 0 {
            spin(self.work_us)
        }
        w.running.fetch_sub(1, SeqCst);
        w.put(E::Finish(self.id));
        w.finished.fetch_add(1, SeqCst);
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        self.w.put(E::Drop(self.id))
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Added {
    Ok,
    Full,
}
fn add(case: &Case, m: &Manager, w: &Arc<World>, ip: &str, id: usize, work_us: u64) -> Added {
    w.put(E::Call(id));
    let r = block_on(m.add(ip.to_string(), Box::new(Job { w: w.clone(), id, work_us })), MAX);
    let a = match r {
        None => case.abort("admission-unanswered", format!("job {id}: the queue never answered the submission")),
        Some(Ok(())) => Added::Ok,
        Some(Err(CaptchaError::QueueFull)) => Added::Full,
        Some(Err(e)) => case.abort("admission-error", format!("job {id}: unexpected {e:?}")),
    };
    w.put(if a == Added::Ok { E::Admit(id) } else { E::Refuse(id) });
    case.tick();
    a
}

/// Client addresses in many shapes; the `k`s of one style are all different addresses.
fn addr(style: u64, k: u64) -> String {
    match style {
        0 => format!("ip{k}"),
        1 => format!("10.{}.{}.{}", k >> 16 & 255, k >> 8 & 255, k & 255),
        2 => format!("192.168.7.1:{k}"),
        3 => format!("2001:db8::{k:x}"),
        4 => format!("::ffff:10.0.{}.{}", k >> 8 & 255, k & 255),
        5 => format!("[fe80::1%eth{k}]:443"),
        6 => format!("{}{k}", "same-prefix-".repeat(8)),
        7 => format!("{k}{}", "-same-suffix".repeat(8)),
        // case and blanks and dots count
        8 => format!("{}{}", ["ab", "aB", "Ab", "AB"][k as usize % 4], "x".repeat(k as usize / 4)),
        9 => " ".repeat(k as usize),
        10 => "0".repeat(k as usize),
        11 => format!("host{}.", ".".repeat(k as usize)),
        12 => format!("{}\u{0}{k}", "z".repeat(k as usize % 3)),
        13 => format!("\u{e4}{}", char::from_u32(0x4e00 + k as u32).unwrap()),
        14 => format!("203.0.113.9, 10.0.0.{k}"),
        _ => format!("{}", k as i64 - 2),
    }
}
const STYLES: u64 = 16;
/// of these there may be many
fn roomy(style: u64) -> u64 {
    if matches!(style, 8..=11 | 13) { 0 } else { style }
}

/// every admitted job ran exactly once, no refused job ran
fn check_exactly_once(case: &Case, log: &[E]) -> bool {
    let mut n: HashMap<usize, (usize, usize, bool, bool)> = HashMap::new();
    for e in log {
        match *e {
            E::Start(j) => n.entry(j).or_default().0 += 1,
            E::Finish(j) => n.entry(j).or_default().1 += 1,
            E::Admit(j) => n.entry(j).or_default().2 = true,
            E::Refuse(j) => n.entry(j).or_default().3 = true,
            _ => {}
        }
    }
    for (j, (s, f, a, r)) in &n {
        if *a && (*s != 1 || *f != 1) {
            case.fail("not-exactly-once", format!("admitted job {j} was started {s} times and finished {f} times"));
            return false;
        }
        if *r && *s != 0 {
            case.fail("refused-job-ran", format!("job {j} was refused but was run {s} times"));
            return false;
        }
    }
    true
}

// ------------------------------------------------------------------ C13
pub fn c13(ctx: &Arc<Ctx>) {
    ctx.rule("many submitter threads hand instrumented jobs of few or many client addresses to the real queue with 1-9 workers; the recorded admission / start / finish log is checked offline for exactly-once; distinct = distinct start orders");
    run_cases(ctx, "queue-free-run", ctx.n(250, 2500), 4, |case| {
        let mut rng = case.rng(1);
        let workers = if rng.chance(1, 20) { *rng.pick(&[70usize, 300]) } else { *rng.pick(&[1usize, 1, 2, 3, 4, 9]) };
        let qlen = *rng.pick(&[1usize, 2, 5, 50, 100_000]);
        let submitters = *rng.pick(&[1usize, 1, 2, 4, 6]);
        let per = rng.range(1, 80) as usize;
        let ips = *rng.pick(&[1u64, 2, 3, 10, 1000]);
        let work = *rng.pick(&[0u64, 0, 5, 40]);
        let pause = *rng.pick(&[0u64, 0, 10, 60]);
        let style = roomy(rng.below(STYLES));
        case.ev(format!(
            "{workers} workers, queue length {qlen}, {submitters} submitters x {per} jobs, {ips} addresses like {:?}, work {work} us, pauses up to {pause} us",
            addr(style, 1)
        ));
        let w = World::new(true);
        let m = Manager::new(workers, qlen);
        let admitted = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..submitters {
                let (m, w, case, admitted) = (&m, &w, &case, &admitted);
                let mut rng = case.rng(100 + t as u64);
                s.spawn(move || {
                    for k in 0..per {
                        let ip = addr(style, rng.below(ips));
                        if pause > 0 && rng.chance(1, 2) {
                            spin(rng.below(pause))
                        }
                        let us = if work > 0 { rng.below(work) } else { 0 };
                        if add(case, m, w, &ip, t * 1000 + k, us) == Added::Ok {
                            admitted.fetch_add(1, SeqCst);
                        }
                    }
                });
            }
        });
        if case.failed() {
            return;
        }
        // nothing further arrives: all admitted jobs must still get done
        let a = admitted.load(SeqCst) as usize;
        let done = wait_for(MAX, || w.finished.load(SeqCst) >= a);
        let log = w.log();
        if !done {
            let left: Vec<_> = log
                .iter()
                .filter_map(|e| if let E::Admit(j) = e { Some(*j) } else { None })
                .filter(|j| !log.contains(&E::Start(*j)))
                .take(10)
                .collect();
            case.ev(format!("log {:?}", &log[log.len().saturating_sub(60)..]));
            case.fail(
                "admitted-job-never-runs",
                format!(
                    "{} of {a} admitted jobs finished; e.g. {left:?} never started although no job is running any more ({workers} workers, queue length {qlen}, {ips} addresses)",
                    w.finished.load(SeqCst)
                ),
            );
            return;
        }
        check_exactly_once(case, &log);
        case.check(w.max_running.load(SeqCst) <= workers, "too-many-running", || {
            format!("{} jobs at once on {workers} workers", w.max_running.load(SeqCst))
        });
        case.seen((workers, w.starts()));
        case.count("jobs_admitted", a as u64);
        case.count("jobs_refused", (submitters * per - a) as u64);
        case.sample_events(3);
        drop(m);
        // nothing ran late or twice
        check_exactly_once(case, &w.log());
    });
    // after a quiet time everything must go on as before
    std::thread::scope(|s| {
        s.spawn(|| run_cases(ctx, "queue-quiet", ctx.n(3, 8), ctx.n(3, 4) as usize, |case| quiet(case)));
        rest_of_c13(ctx);
    });
    ctx.require("jobs_admitted", 500);
    ctx.require("queue_full_decisions", 200);
    ctx.require("quiet_times", 2);
}
fn quiet(case: &Case) {
    let mut rng = case.rng(1);
    let workers = [2usize, 4, 1, 3][case.index as usize % 4];
    let w = World::new(true);
    let m = Manager::new(workers, 100);
    let mut id = 0;
    let naps: &[u64] = if case.ctx.thorough { &[1_100, 6_500, 12_000, 32_000, 62_000, 125_000] } else { &[1_200, 6_400] };
    if case.index >= 1 {
        add(case, &m, &w, "early", id, 0);
        id += 1;
    }
    for nap in naps {
        let over = std::time::Instant::now() + Duration::from_millis(*nap);
        while std::time::Instant::now() < over {
            std::thread::sleep(Duration::from_millis(100));
            case.tick();
        }
        let n = rng.range(3, 20) as usize;
        for k in 0..n {
            let us = if k % 2 == 0 { 0 } else { 20_000 };
            let a = add(case, &m, &w, &format!("{}", k % 5), id, us);
            case.check(a == Added::Ok, "refused-when-not-full", || format!("job {id} after {nap} ms of quiet: {a:?}"));
            id += 1;
        }
        case.ev(format!("{n} jobs after {nap} ms of quiet on {workers} workers"));
        case.seen((workers, nap, n));
        if !wait_for(MAX, || w.finished.load(SeqCst) >= id) {
            case.abort("admitted-job-never-runs", format!("{} of {id} done, after {nap} ms of quiet on {workers} workers", w.finished.load(SeqCst)));
        }
        check_exactly_once(case, &w.log());
        case.count("quiet_times", 1);
    }
    case.sample_events(4);
    drop(m);
}
fn rest_of_c13(ctx: &Arc<Ctx>) {
    run_cases(ctx, "queue-deep", ctx.n(12, 60), 2, |case| deep(case));
    // workers held and released in every order: each release lets the backlog move on
    run_cases(ctx, "queue-gated", ctx.n(250, 2500), 4, |case| {
        let mut rng = case.rng(1);
        gated(case, &mut rng);
    });
}

// -------------------------------------------------- one gated history, all queue oracles
/// Serial submissions and single releases with everything quiescent in between, so that
/// admission, start order and concurrency are all exactly determined by the specification.
fn gated(case: &Case, rng: &mut Rng) {
    let workers = *rng.pick(&[1usize, 1, 2, 3, 5]);
    let qlen = *rng.pick(&[1usize, 2, 3, 5, 8, 1000]);
    let nip = rng.range(1, 2 * (qlen as u64).min(8) + 3);
    let bias = rng.chance(1, 3);
    let w = World::new(false);
    let m = Manager::new(workers, qlen);
    let style = if rng.chance(1, 4) { 0 } else { rng.below(STYLES) };
    case.ev(format!("{workers} workers, queue length {qlen}, {nip} addresses like {:?}", addr(style, 1)));
    let mut ip_of: HashMap<usize, String> = HashMap::new();
    let mut waiting: HashMap<String, VecDeque<usize>> = HashMap::new();
    let mut running: Vec<usize> = vec![];
    let mut starts: Vec<usize> = vec![];
    // per address: index into starts at its last turn
    let mut last_turn: HashMap<String, usize> = HashMap::new();
    // waiting since (number of starts seen when it began to wait)
    let mut since: HashMap<String, usize> = HashMap::new();
    let mut next = 0usize;
    let steps = rng.range(20, 120);
    let mut fill = rng.chance(1, 2);
    let mut seen_starts = 0usize;

    // take over all new starts from the log and judge them
    macro_rules! absorb {
        () => {{
            let nwait: usize = waiting.values().map(|q| q.len()).sum();
            let want = starts.len() + (workers - running.len()).min(nwait);
            let ok = wait_for(MAX, || w.started.load(SeqCst) >= want);
            let all = w.starts();
            if !ok {
                case.ev(format!("log {:?}", w.log()));
                w.release_all();
                case.abort("idle-worker-while-waiting", format!(
                    "{} of {workers} workers are free, {nwait} submissions wait ({waiting:?}), and none is started", workers - running.len()));
            }
            for j in &all[seen_starts..] {
                let j = *j;
                let Some(ip) = ip_of.get(&j).cloned() else {
                    w.release_all();
                    case.abort("refused-job-ran", format!("job {j} was started but never admitted"));
                };
                let q = waiting.entry(ip.clone()).or_default();
                let pos = q.iter().position(|x| *x == j);
                match pos {
                    Some(0) => {}
                    Some(p) => {
                        w.release_all();
                        case.abort("address-order", format!("address {ip}: job {j} started before {} earlier ones of the same address ({q:?})", p));
                    }
                    None => {
                        w.release_all();
                        case.abort("started-twice", format!("job {j} of {ip} started although it was not waiting"));
                    }
                }
                // fairness: everyone waiting since before this address's previous turn had one since
                if let Some(prev) = last_turn.get(&ip) {
                    for (y, s) in &since {
                        if *y != ip && *s <= *prev && last_turn.get(y).map_or(true, |t| *t < *prev) {
                            let d = format!("address {ip} gets a turn (job {j}) after its turn at start {prev}, while {y}, waiting since start {s}, got none in between; starts so far {:?}",
                                starts.iter().map(|j| &ip_of[j]).collect::<Vec<_>>());
                            w.release_all();
                            case.abort("unfair-turn", d);
                        }
                    }
                }
                q.pop_front();
                if q.is_empty() {
                    waiting.remove(&ip);
                    since.remove(&ip);
                }
                last_turn.insert(ip.clone(), starts.len());
                starts.push(j);
                running.push(j);
                case.ev(format!("start job {j} of {ip}"));
                case.count("starts_judged", 1);
            }
            seen_starts = all.len();
            if running.len() > workers || w.running.load(SeqCst) > workers {
                w.release_all();
                case.abort("too-many-running", format!("{running:?} run at once on {workers} workers"));
            }
            case.seen((workers, qlen, running.len(), waiting.values().map(|q| q.len()).collect::<Vec<_>>()));
        }};
    }

    for _ in 0..steps {
        if rng.chance(1, 12) {
            fill = !fill;
        }
        let submit = running.is_empty() || if fill { rng.chance(3, 4) } else { rng.chance(1, 4) };
        if submit {
            let ip = if bias && rng.chance(3, 5) { addr(style, 0) } else { addr(style, rng.below(nip)) };
            let full = waiting.len() == qlen;
            let id = next;
            next += 1;
            let r = add(case, &m, &w, &ip, id, 0);
            case.ev(format!("submit job {id} of {ip}: {r:?} ({} addresses waiting, limit {qlen})", waiting.len()));
            case.count("queue_full_decisions", 1);
            if full {
                case.count("refusals_expected", 1);
            }
            let want = if full { Added::Full } else { Added::Ok };
            if r != want {
                w.release_all();
                case.abort(
                    if full { "admitted-when-full" } else { "refused-when-not-full" },
                    format!(
                        "{} different addresses are waiting, limit {qlen}, {} addresses seen since start: submission of {ip} answered {r:?}",
                        waiting.len(),
                        last_turn.len()
                    ),
                );
            }
            if r == Added::Ok {
                ip_of.insert(id, ip.clone());
                waiting.entry(ip.clone()).or_default().push_back(id);
                since.entry(ip).or_insert(starts.len());
            }
            absorb!();
        } else {
            let i = rng.below(running.len() as u64) as usize;
            let j = running.swap_remove(i);
            let f = w.finished.load(SeqCst);
            w.release(j);
            if !wait_for(MAX, || w.finished.load(SeqCst) > f) {
                w.release_all();
                case.abort("worker-stuck", format!("job {j} was released and did not finish"));
            }
            case.ev(format!("finish job {j}"));
            absorb!();
        }
    }
    // drain without further submissions, one release at a time
    while !running.is_empty() {
        let j = running.swap_remove(rng.below(running.len() as u64) as usize);
        let f = w.finished.load(SeqCst);
        w.release(j);
        wait_for(MAX, || w.finished.load(SeqCst) > f);
        absorb!();
    }
    case.check(waiting.is_empty(), "admitted-job-never-runs", || format!("{waiting:?} never started"));
    check_exactly_once(case, &w.log());
    case.count("jobs_admitted", starts.len() as u64);
    case.sample_events(25);
    drop(m);
}

/// Big limits and long backlogs, all workers held: filled to the brim exactly, then let go and
/// judged by the log. (`gated` does the same in small, step by step.)
fn deep(case: &Case) {
    let mut rng = case.rng(1);
    let workers = *rng.pick(&[1usize, 1, 1, 2, 4, 40, 300]);
    let limit = *rng.pick(if case.ctx.thorough { &[300usize, 1000, 5000, 20_000, 70_000] } else { &[300, 1000, 5000, 9000, 20_000] });
    let style = roomy(rng.below(STYLES));
    let w = World::new(false);
    let m = Manager::new(workers, limit);
    let mut id = 0;
    // job -> address
    let mut of: Vec<u64> = vec![];
    for k in 0..workers {
        add(case, &m, &w, &format!("plug {k}"), id, 0);
        of.push(u64::MAX - k as u64);
        id += 1;
    }
    if !wait_for(MAX, || w.started.load(SeqCst) == workers) {
        w.release_all();
        case.abort("idle-worker-while-waiting", format!("{} of {workers} jobs started", w.started.load(SeqCst)));
    }
    // some addresses have long backlogs, from early on or late
    let heavy = rng.range(0, 3);
    let mut later: Vec<(u64, usize)> = vec![];
    for h in 0..heavy {
        let n = *rng.pick(&[5usize, 60, 300, 2000, 7000]);
        later.push((h, rng.range(1, n as u64) as usize));
    }
    let fill = if rng.chance(3, 4) { limit } else { rng.range(limit as u64 / 2, limit as u64) as usize };
    case.ev(format!("{workers} workers, limit {limit}, {fill} addresses like {:?} will wait, backlogs {later:?}", addr(style, 1)));
    let mut waiting = 0usize;
    let mut put = |a: u64, want: Added, waiting: usize| {
        let r = add(case, &m, &w, &addr(style, a), id, 0);
        if r != want {
            w.release_all();
            case.abort(
                if want == Added::Full { "admitted-when-full" } else { "refused-when-not-full" },
                format!("{waiting} different addresses are waiting, limit {limit}: a submission of {:?} was answered {r:?}", addr(style, a)),
            );
        }
        case.count("queue_full_decisions", 1);
        of.push(if r == Added::Ok { a } else { u64::MAX });
        id += 1;
    };
    for a in 0..fill as u64 {
        put(a, Added::Ok, waiting);
        waiting += 1;
        if waiting == limit {
            break;
        }
        for (h, n) in later.iter_mut() {
            if *h <= a && *n > 0 && rng.chance(1, 20) {
                for _ in 0..rng.range(1, *n as u64) {
                    put(*h, Added::Ok, waiting);
                    *n -= 1;
                }
            }
        }
    }
    if waiting == limit {
        for k in 0..rng.range(1, 20) {
            put(limit as u64 + k, Added::Full, waiting);
            case.count("refusals_expected", 1);
        }
    } else {
        for k in 0..rng.range(1, 3).min((limit - waiting) as u64) {
            put(limit as u64 + 100 + k, Added::Ok, waiting);
            waiting += 1;
        }
    }
    case.seen((workers, limit, waiting, id));
    w.release_all();
    let admitted = of.iter().filter(|a| **a != u64::MAX).count() + 1;
    if !wait_for(MAX * 3, || {
        case.tick();
        w.finished.load(SeqCst) >= admitted
    }) {
        case.abort("admitted-job-never-runs", format!("{} of {admitted} done", w.finished.load(SeqCst)));
    }
    check_exactly_once(case, &w.log());
    case.check(w.max_running.load(SeqCst) <= workers, "too-many-running", || format!("{} at once on {workers} workers", w.max_running.load(SeqCst)));
    // on one worker the order of starts is determined
    if workers == 1 {
        let mut total: HashMap<u64, usize> = HashMap::new();
        for a in of.iter().skip(1).filter(|a| **a != u64::MAX) {
            *total.entry(*a).or_default() += 1;
        }
        let mut taken: HashMap<u64, usize> = HashMap::new();
        let mut last: HashMap<u64, usize> = HashMap::new();
        // how many addresses have had at least k turns, or all they needed
        let all = total.len();
        let mut had = vec![0usize; total.values().max().unwrap_or(&0) + 1];
        had[0] = all;
        for j in w.starts().into_iter().skip(1) {
            let a = of[j];
            if let Some(p) = last.insert(a, j) {
                if !case.check(p < j, "address-order", || format!("jobs {p} and then {j} of {:?}", addr(style, a))) {
                    return;
                }
            }
            let t = taken.entry(a).or_default();
            let behind = all - had[*t];
            if !case.check(behind == 0, "unfair-turn", || {
                format!("{:?} gets its turn number {} while {behind} of {all} addresses that waited all along had fewer than {t} turns and have more to do", addr(style, a), *t + 1)
            }) {
                return;
            }
            *t += 1;
            let upto = if *t == total[&a] { had.len() - 1 } else { *t };
            for k in *t..=upto {
                had[k] += 1;
            }
        }
        case.count("starts_judged", admitted as u64);
    }
    case.count("deep_backlogs", 1);
    case.count("jobs_admitted", admitted as u64);
    case.sample_events(3);
}

// ------------------------------------------------------------------ C14
pub fn c14(ctx: &Arc<Ctx>) {
    ctx.rule("with all workers held, the number of waiting addresses is known exactly and every admission decision is compared with it, across filling, draining and refilling; memory is measured over tens of thousands of distinct addresses; distinct = distinct (workers, limit, running, backlog) situations");
    run_cases(ctx, "queue-deep", ctx.n(4, 60), 4, |case| deep(case));
    run_cases(ctx, "queue-gated", ctx.n(500, 5000), 4, |case| {
        let mut rng = case.rng(1);
        gated(case, &mut rng);
    });
    // a long life: far more addresses than the limit, one after the other and in waves
    run_cases(ctx, "queue-long-life", ctx.n(40, 400), 4, |case| {
        let mut rng = case.rng(1);
        let workers = *rng.pick(&[1usize, 2, 4]);
        let qlen = *rng.pick(&[1usize, 2, 7, 40]);
        let w = World::new(true);
        let m = Manager::new(workers, qlen);
        let mut id = 0;
        for wave in 0..60u64 {
            let n = rng.range(1, qlen as u64) as usize;
            for k in 0..n {
                let ip = if rng.chance(9, 10) { format!("w{wave}k{k}") } else { "same".into() };
                let r = add(case, &m, &w, &ip, id, 0);
                id += 1;
                case.count("queue_full_decisions", 1);
                // fewer than qlen addresses can be waiting
                if !case.check(r == Added::Ok, "refused-when-not-full", || {
                    format!("wave {wave}: submission {k} of {n} refused with limit {qlen}, although all earlier waves were done ({id} submissions so far)")
                }) {
                    return;
                }
            }
            if !wait_for(MAX, || w.finished.load(SeqCst) >= id) {
                case.fail("admitted-job-never-runs", format!("wave {wave}: {} of {id} jobs done", w.finished.load(SeqCst)));
                return;
            }
            case.seen((workers, qlen, n));
        }
        case.count("addresses_seen", id as u64);
    });
    // memory, alone on the process
    run_cases(ctx, "queue-memory", ctx.n(3, 12), 1, |case| {
        let workers = [1usize, 3, 2][case.index as usize % 3];
        struct Tiny(Arc<AtomicUsize>);
        impl Runnable for Tiny {
            fn run(&self) {
                self.0.fetch_add(1, SeqCst);
            }
        }
        let done = Arc::new(AtomicUsize::new(0));
        let m = Manager::new(workers, 1_000_000);
        let filler = "x".repeat(1000);
        let mut sent = 0usize;
        let mut go = |n: usize| -> i64 {
            for _ in 0..n {
                let r = block_on(m.add(format!("{filler}{sent}"), Box::new(Tiny(done.clone()))), MAX);
                sent += 1;
                match r {
                    Some(Ok(())) => {}
                    r => case.abort("refused-when-not-full", format!("submission {sent}: {r:?}")),
                }
                if sent % 500 == 0 {
                    case.tick();
                    if !wait_for(MAX, || done.load(SeqCst) == sent) {
                        case.abort("admitted-job-never-runs", format!("{} of {sent} done", done.load(SeqCst)));
                    }
                }
            }
            wait_for(MAX, || done.load(SeqCst) == sent);
            live_bytes()
        };
        let a = go(3000);
        let b = go(if case.ctx.thorough { 60_000 } else { 15_000 });
        let grown = b - a;
        case.count("addresses_seen", sent as u64);
        case.count("memory_samples", 2);
        case.seen((workers, sent));
        case.sample(serde_json::json!({"workers": workers, "addresses": sent, "bytes_grown": grown}));
        case.check(grown < 3_000_000, "memory-of-served-addresses", || {
            format!("after {sent} distinct 1 KB addresses, all served, {grown} more bytes are held")
        });
    });
    ctx.require("refusals_expected", 50);
    ctx.require("queue_full_decisions", 1000);
    ctx.require("memory_samples", 2);
}

// ------------------------------------------------------------------ C15
pub fn c15(ctx: &Arc<Ctx>) {
    ctx.rule("with held workers the backlog is known exactly; each single release must start the next job by per-address order and turn-taking, and never leave a worker idle; free-running histories on one worker are judged offline; distinct = distinct (workers, limit, running, backlog) situations");
    run_cases(ctx, "queue-deep", ctx.n(3, 60), 4, |case| deep(case));
    run_cases(ctx, "queue-gated", ctx.n(600, 6000), 4, |case| {
        let mut rng = case.rng(1);
        gated(case, &mut rng);
    });
    // an attacker floods, victims submit now and then
    run_cases(ctx, "queue-flood", ctx.n(60, 600), 4, |case| {
        let mut rng = case.rng(1);
        let workers = *rng.pick(&[1usize, 2, 4]);
        let w = World::new(false);
        let m = Manager::new(workers, 1000);
        let flood = rng.range(20, 300) as usize;
        let style = roomy(rng.below(STYLES));
        case.ev(format!("{workers} workers, {flood} jobs of {:?}, victims like {:?}", addr(style, 0), addr(style, 1)));
        for j in 0..flood {
            add(case, &m, &w, &addr(style, 0), j, 0);
        }
        if !wait_for(MAX, || w.started.load(SeqCst) == workers) {
            w.release_all();
            case.abort("idle-worker-while-waiting", format!("{} of {workers} workers busy with {flood} waiting", w.started.load(SeqCst)));
        }
        let mut released = 0;
        let mut id = flood;
        for round in 0..rng.range(2, 8) {
            let victims = rng.range(1, 5) as usize;
            let mut mine = vec![];
            for v in 0..victims {
                add(case, &m, &w, &addr(style, round * 10 + v as u64 + 1), id, 0);
                mine.push(id);
                id += 1;
            }
            let before = w.starts().len();
            // victims+1 turns are enough for all of them
            let turns = victims + 1;
            for _ in 0..turns {
                let s = w.starts();
                let n = s.len();
                w.release(s[released]);
                released += 1;
                if !wait_for(MAX, || w.started.load(SeqCst) > n) {
                    w.release_all();
                    case.abort("idle-worker-while-waiting", "a worker was freed and nothing was started".to_string());
                }
            }
            let s = w.starts();
            let got = &s[before..];
            case.ev(format!("round {round}: {victims} victims, next starts {got:?}"));
            case.count("starts_judged", got.len() as u64);
            if !mine.iter().all(|v| got.contains(v)) {
                w.release_all();
                case.abort("unfair-turn", format!("victims {mine:?} waited behind a flood of one address: the next {turns} starts were {got:?}"));
            }
            case.seen((workers, flood, round, victims));
        }
        w.release_all();
        if !wait_for(MAX, || w.finished.load(SeqCst) == id) {
            case.abort("admitted-job-never-runs", format!("{} of {id} done", w.finished.load(SeqCst)));
        }
        // attackers' jobs in order of admission
        if workers == 1 {
            let s: Vec<_> = w.starts().into_iter().filter(|j| *j < flood).collect();
            case.check(s.windows(2).all(|p| p[0] < p[1]), "address-order", || format!("start order of one address: {s:?}"));
        }
        check_exactly_once(case, &w.log());
    });
    // free-running on one worker, concurrent submitters, judged offline
    run_cases(ctx, "queue-offline", ctx.n(150, 1500), 4, |case| {
        let mut rng = case.rng(1);
        let submitters = rng.range(1, 5) as usize;
        let per = rng.range(10, 60) as usize;
        let ips = rng.range(1, 6);
        let style = rng.below(STYLES);
        case.ev(format!("addresses like {:?}", addr(style, 1)));
        let w = World::new(true);
        let m = Manager::new(1, 1000);
        let ip_of: Mutex<HashMap<usize, u64>> = Mutex::default();
        std::thread::scope(|s| {
            for t in 0..submitters {
                let (m, w, case, ip_of) = (&m, &w, &case, &ip_of);
                let mut rng = case.rng(100 + t as u64);
                s.spawn(move || {
                    for k in 0..per {
                        let ip = if rng.chance(1, 2) { 0 } else { rng.below(ips) };
                        ip_of.lock().unwrap().insert(t * 1000 + k, ip);
                        let us = rng.below(60);
                        add(case, m, w, &addr(style, ip), t * 1000 + k, us);
                    }
                });
            }
        });
        let n = submitters * per;
        if !wait_for(MAX, || w.finished.load(SeqCst) >= n) {
            case.abort("admitted-job-never-runs", format!("{} of {n} done", w.finished.load(SeqCst)));
        }
        let log = w.log();
        let ip_of = ip_of.into_inner().unwrap();
        let pos = |e: E| log.iter().position(|x| *x == e).unwrap_or(usize::MAX);
        let starts = w.starts();
        // per address: admitted before the other was even submitted => started before
        let sp: HashMap<usize, usize> = starts.iter().enumerate().map(|(i, j)| (*j, i)).collect();
        let calls: HashMap<usize, usize> = starts.iter().map(|j| (*j, pos(E::Call(*j)))).collect();
        let admits: HashMap<usize, usize> = starts.iter().map(|j| (*j, pos(E::Admit(*j)))).collect();
        for a in &starts {
            for b in &starts {
                if ip_of[a] == ip_of[b] && admits[a] < calls[b] {
                    if !case.check(sp[a] < sp[b], "address-order", || {
                        format!("address {}: job {a} admitted before job {b} was submitted, but started after it", ip_of[a])
                    }) {
                        return;
                    }
                }
            }
        }
        // turns: x started at i1 and again at i2; y was waiting all along
        let mut last: HashMap<u64, usize> = HashMap::new();
        for (i2, j2) in starts.iter().enumerate() {
            let x = ip_of[j2];
            if let Some(&i1) = last.get(&x) {
                if i1 > 0 {
                    let prev_done = pos(E::Finish(starts[i1 - 1]));
                    for y in starts.iter().filter(|y| ip_of[y] != x && sp[y] > i2 && admits[y] < prev_done) {
                        let between = starts[i1 + 1..i2].iter().any(|k| ip_of[k] == ip_of[y]);
                        if !case.check(between, "unfair-turn", || {
                            format!("address {x} started at {i1} and {i2} while {} (job {y}) was waiting all the time", ip_of[y])
                        }) {
                            return;
                        }
                    }
                }
            }
            last.insert(x, i2);
        }
        case.seen(&starts);
        case.count("starts_judged", n as u64);
        check_exactly_once(case, &log);
    });
    ctx.require("starts_judged", 2000);
}

// ------------------------------------------------------------------ C16
pub fn c16(ctx: &Arc<Ctx>) {
    ctx.rule("managers are dropped at random moments with jobs running, waiting or arriving; the execution log, the jobs' fate and the operating system's thread list are checked; distinct = distinct (workers, running, waiting) situations at shutdown");
    run_cases(ctx, "queue-drop", ctx.n(150, 1500), 1, |case| {
        let mut rng = case.rng(1);
        let base = os_threads();
        let workers = if rng.chance(1, 30) { 300 } else { *rng.pick(&[1usize, 1, 2, 4, 16]) };
        let w = World::new(false);
        let m = Manager::new(workers, 10_000);
        // now and then a long backlog, most of it of one address
        let heavy = rng.chance(1, 5);
        let jobs = if heavy && rng.chance(1, 4) { rng.range(400, 9000) } else if heavy { rng.range(60, 400) } else { rng.below(3 * workers as u64 + 6) } as usize;
        let ips = rng.range(1, 8);
        let style = rng.below(STYLES);
        for j in 0..jobs {
            let ip = addr(style, if heavy && rng.chance(9, 10) { 0 } else { rng.below(ips) });
            add(case, &m, &w, &ip, j, 0);
        }
        let run = jobs.min(workers);
        if !wait_for(MAX, || w.started.load(SeqCst) == run) {
            w.release_all();
            case.abort("idle-worker-while-waiting", format!("{} of {run} started", w.started.load(SeqCst)));
        }
        // finish some before
        let mut pre = 0;
        if rng.chance(1, 2) {
            for _ in 0..rng.below(run as u64 + 1) {
                let s = w.starts();
                let j = s[pre];
                pre += 1;
                w.release(j);
                let want = (run + pre).min(jobs);
                wait_for(MAX, || w.finished.load(SeqCst) == pre && w.started.load(SeqCst) == want);
            }
        }
        let taken = w.starts();
        let waiting = jobs - taken.len();
        let held = taken.len() - pre;
        case.ev(format!("{workers} workers, {jobs} jobs, {held} running, {waiting} waiting at drop"));
        case.seen((workers, held, waiting));
        let tid = Arc::new(AtomicU64::new(0));
        let gone = Arc::new(AtomicBool::new(false));
        let (t2, g2) = (tid.clone(), gone.clone());
        let h = std::thread::spawn(move || {
            t2.store(my_tid(), SeqCst);
            drop(m);
            g2.store(true, SeqCst);
        });
        if held > 0 {
            // wait until the dropping thread is blocked, i.e. the request to stop is out
            wait_for(MAX, || tid.load(SeqCst) != 0);
            let mut calm = 0;
            wait_for(MAX, || {
                calm = if thread_sleeps(tid.load(SeqCst)) || gone.load(SeqCst) { calm + 1 } else { 0 };
                calm >= 4
            });
            // taken up work has to be finished before the drop is over
            if gone.load(SeqCst) {
                w.release_all();
                case.abort("drop-returned-early", format!("drop returned while {held} jobs were still running"));
            }
            let s = w.starts();
            for j in &s[pre..] {
                if rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(rng.below(300)));
                }
                w.release(*j);
            }
        }
        let over = wait_for(MAX, || gone.load(SeqCst));
        if !over {
            w.release_all();
            case.abort("drop-hangs", format!("dropping the queue does not return ({held} jobs were running, all released; {waiting} waiting)"));
        }
        let _ = h.join();
        let log = w.log();
        for j in &taken {
            case.check(log.contains(&E::Finish(*j)), "taken-job-unfinished", || format!("job {j} was running at shutdown and never finished"));
        }
        let late: Vec<_> = w.starts()[taken.len()..].to_vec();
        if held > 0 || waiting == 0 {
            case.check(late.is_empty(), "ran-after-shutdown", || format!("jobs {late:?} were waiting at shutdown and were run after it"));
        }
        for j in 0..jobs {
            case.check(log.contains(&E::Drop(j)), "job-not-discarded", || {
                format!("job {j} is still held after the queue is gone, whoever waits for it waits forever")
            });
        }
        let ok = wait_for(MAX, || os_threads() <= base);
        case.check(ok, "threads-left", || format!("{} threads before, {} after the queue is gone", base, os_threads()));
        case.count("shutdowns", 1);
        case.count("jobs_discarded", waiting as u64);
        if held > 0 && waiting > 0 {
            case.count("shutdowns_with_backlog", 1);
        }
        case.sample_events(3);
    });
    run_cases(ctx, "queue-drop-free", ctx.n(150, 1500), 1, |case| {
        let mut rng = case.rng(1);
        let base = os_threads();
        let workers = *rng.pick(&[1usize, 2, 4, 8]);
        let most = if rng.chance(1, 6) { 400 } else { 60 };
        let jobs = rng.below(most) as usize;
        let work = rng.below(if jobs > 60 { 40 } else { 200 });
        let w = World::new(true);
        let m = Manager::new(workers, 10_000);
        let ips = rng.range(1, 6);
        let style = rng.below(STYLES);
        for j in 0..jobs {
            add(case, &m, &w, &addr(style, rng.below(ips)), j, work);
        }
        if rng.chance(1, 2) {
            spin(rng.below(400));
        }
        let gone = Arc::new(AtomicBool::new(false));
        let g2 = gone.clone();
        let h = std::thread::spawn(move || {
            drop(m);
            g2.store(true, SeqCst);
        });
        if !wait_for(MAX, || gone.load(SeqCst)) {
            case.abort("drop-hangs", format!("dropping the queue with {jobs} short jobs does not return"));
        }
        let _ = h.join();
        let log = w.log();
        for j in 0..jobs {
            let (s, f) = (
                log.iter().filter(|e| **e == E::Start(j)).count(),
                log.iter().filter(|e| **e == E::Finish(j)).count(),
            );
            case.check(s == f && s <= 1 && log.contains(&E::Drop(j)), "job-fate", || {
                format!("job {j}: started {s}, finished {f}, discarded {}", log.contains(&E::Drop(j)))
            });
        }
        let started = w.started.load(SeqCst);
        case.seen((workers, jobs, started));
        std::thread::sleep(Duration::from_micros(500));
        case.check(w.started.load(SeqCst) == started, "ran-after-shutdown", || "a job was started after drop returned".to_string());
        let ok = wait_for(MAX, || os_threads() <= base);
        case.check(ok, "threads-left", || format!("{} threads before, {} after", base, os_threads()));
        case.count("shutdowns", 1);
    });
    // churn: no leak over many lives
    run_cases(ctx, "queue-churn", 1, 1, |case| {
        let base = os_threads();
        for i in 0..case.ctx.n(150, 1500) {
            let m = Manager::new(1 + (i % 5) as usize, 10);
            if i % 2 == 0 {
                let w = World::new(true);
                add(case, &m, &w, "a", 0, 0);
            }
            drop(m);
            case.tick();
        }
        let ok = wait_for(MAX, || os_threads() <= base);
        case.check(ok, "threads-left", || format!("{base} threads before, {} after many queues came and went", os_threads()));
        case.count("shutdowns", case.ctx.n(150, 1500));
        case.seen(1);
    });
    ctx.require("shutdowns", 200);
    ctx.require("shutdowns_with_backlog", 20);
}
