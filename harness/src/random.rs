//! C06 challenge strings and tokens
use crate::model::*;
use crate::system::{together, Real, MAX};
use crate::util::*;
use libmcaptcha::cache::messages::{CacheResult, CachedPoWConfig};
use libmcaptcha::pow::{PoWConfig, Work};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

const LEN: usize = 32;
fn index(b: u8) -> Option<usize> {
    match b {
        b'A'..=b'Z' => Some((b - b'A') as usize),
        b'a'..=b'z' => Some((b - b'a') as usize + 26),
        b'0'..=b'9' => Some((b - b'0') as usize + 52),
        _ => None,
    }
}
fn challenge() -> String {
    PoWConfig::new(5, "salt".into()).string
}
fn token() -> String {
    CacheResult::from(CachedPoWConfig { key: "site".into(), difficulty_factor: 5, duration: 9 }).token
}
pub fn child(n: u64) {
    let all: Mutex<Vec<String>> = Mutex::default();
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                let v: Vec<String> = (0..n).flat_map(|_| [challenge(), token()]).collect();
                all.lock().unwrap().extend(v);
            });
        }
    });
    println!("{}", all.into_inner().unwrap().join("\n"));
}

/// chi-square statistic of counts against the uniform distribution, in standard deviations
fn deviation(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let chi: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let df = counts.len() as f64 - 1.0;
    (chi - df) / (2.0 * df).sqrt()
}
/// far beyond anything a fair generator shows (p < 1e-12 per test)
const LIMIT: f64 = 12.0;

fn form(case: &Case, s: &str) -> bool {
    case.check(s.len() == LEN && s.bytes().all(|b| index(b).is_some()), "form", || {
        format!("{s:?} is not made of 32 alphanumeric characters")
    })
}

fn statistics(case: &Case, what: &str, strings: &[String]) {
    let idx: Vec<Vec<usize>> = strings.iter().map(|s| s.bytes().map(|b| index(b).unwrap_or(0)).collect()).collect();
    let judge = |name: String, counts: &[u64], per: u64| {
        let d = deviation(counts);
        case.count("distribution_tests", 1);
        case.seen((what, &name, (d * 4.0) as i64));
        if d.abs() > 3.0 || name.ends_with("#0") {
            case.ev(format!("{what}: {name}: {d:.2} standard deviations from uniform over {per} observations"));
        }
        case.check(d < LIMIT, "not-uniform", || format!("{what}: {name} is {d:.1} standard deviations from uniform over {per} observations"));
    };
    let n = strings.len() as u64;
    for p in 0..LEN {
        let mut c = vec![0u64; 62];
        idx.iter().for_each(|s| c[s[p]] += 1);
        judge(format!("character at position #{p}"), &c, n);
        // against the neighbour, and against the same position of the string before
        let mut c = vec![0u64; 62 * 62];
        idx.iter().for_each(|s| c[s[p] * 62 + s[(p + 1) % LEN]] += 1);
        judge(format!("characters at positions {p} and the next #{p}"), &c, n);
        let mut c = vec![0u64; 62];
        idx.windows(2).for_each(|w| c[(w[1][p] + 62 - w[0][p]) % 62] += 1);
        judge(format!("step from the previous string at position #{p}"), &c, n);
    }
    // how often a string repeats one of its own characters elsewhere
    let mut c = vec![0u64; 62];
    idx.iter().for_each(|s| c[(s.iter().sum::<usize>()) % 62] += 1);
    judge("sum of the characters #0".into(), &c, n);
}

pub fn c06(ctx: &Arc<Ctx>) {
    ctx.rule("challenge strings and tokens produced directly, by many threads at once, by simultaneously started processes, and by whole submissions; form of each, equality with any other, and distribution per position, of neighbours, of successive strings and of token against challenge; distinct = distinct test outcomes and strings sampled");
    let n = ctx.n(60_000, 1_000_000) as usize;
    run_cases(ctx, "distribution", 2, 2, |case| {
        let f = if case.index == 0 { challenge } else { token };
        let what = if case.index == 0 { "challenges" } else { "tokens" };
        let v: Vec<String> = (0..n).map(|_| f()).collect();
        case.count("strings", v.len() as u64);
        if !v.iter().all(|s| form(case, s)) {
            return;
        }
        let set: HashSet<&String> = v.iter().collect();
        case.check(set.len() == v.len(), "repeated", || format!("{} of {} {what} are repetitions", v.len() - set.len(), v.len()));
        case.tick();
        statistics(case, what, &v);
        case.ev(format!("first: {:?}", &v[..4]));
        case.sample_events(6);
    });
    run_cases(ctx, "threads", ctx.n(3, 20), 1, |case| {
        // many short-lived threads, then few busy ones: all at the same moment
        let all: Mutex<HashSet<String>> = Mutex::default();
        let mut total = 0;
        for (threads, each) in [(400usize, 4usize), (64, 200), (8, 20_000)] {
            let got = together(threads, |t| {
                (0..each).map(|i| if (i + t) % 2 == 0 { challenge() } else { token() }).collect::<Vec<String>>()
            });
            let mut all = all.lock().unwrap();
            for v in got {
                total += v.len();
                for s in v {
                    if !form(case, &s) {
                        return;
                    }
                    if !all.insert(s.clone()) {
                        case.fail("repeated", format!("{s} was produced twice by {threads} threads at once"));
                        return;
                    }
                }
            }
            case.count("strings", (threads * each) as u64);
            case.seen((threads, each, case.index));
        }
        case.ev(format!("{total} strings from 472 threads, all different"));
        case.sample_events(2);
    });
    run_cases(ctx, "processes", ctx.n(4, 40), 1, |case| {
        let exe = std::env::current_exe().unwrap();
        let kids: Vec<_> = (0..24)
            .map(|_| {
                std::process::Command::new(&exe)
                    .args(["child-strings", "40"])
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .expect("child")
            })
            .collect();
        let mut all: HashSet<String> = HashSet::new();
        let mut total = 0u64;
        for k in kids {
            let out = String::from_utf8(k.wait_with_output().expect("child output").stdout).unwrap();
            let mut here = 0;
            for s in out.lines() {
                here += 1;
                if !form(case, s) {
                    return;
                }
                if !all.insert(s.to_string()) {
                    case.fail("repeated", format!("{s} was produced by two processes started together"));
                    return;
                }
            }
            assert_eq!(here, 240, "child did not deliver");
            total += here;
        }
        case.count("strings", total);
        case.count("processes", 24);
        case.seen((case.index, total));
        case.ev(format!("24 processes, {total} strings, all different"));
        case.sample_events(1);
    });
    // equal data in, different tokens out; also from whole submissions
    run_cases(ctx, "minted", ctx.n(2, 12), 1, |case| {
        let mut rng = case.rng(1);
        let r = Real::new(case, &mut rng, 2, 10);
        r.add(case, "s", &[(u32::MAX, 1)], 3600);
        let mut tokens = HashSet::new();
        let mut strings = HashSet::new();
        let mut counts = vec![0u64; 62];
        let mut rev = vec![0u64; 62];
        let n = case.ctx.n(2500, 10_000);
        let right = |string: &str| {
            let (nonce, s) = solve(&r.salt, string, 1, 7);
            Work { string: string.into(), result: s.to_string(), nonce, key: "s".into() }
        };
        for _ in 0..n {
            let ch = r.challenge(case, "s").string;
            if !form(case, &ch) {
                return;
            }
            case.check(strings.insert(ch.clone()), "repeated", || format!("challenge {ch} was issued twice"));
            let (t, _) = match r.submit(case, right(&ch), "ip") {
                Ok(t) => t,
                Err(e) => case.abort("no-token", format!("{e:?}")),
            };
            case.check(!strings.contains(&t), "derived", || format!("token {t} is a challenge"));
            if !form(case, &t) || !case.check(tokens.insert(t.clone()), "repeated", || format!("token {t} was handed out twice")) {
                return;
            }
            for (a, b) in ch.bytes().zip(t.bytes()) {
                counts[(index(a).unwrap() + 62 - index(b).unwrap()) % 62] += 1;
            }
            for (a, b) in ch.bytes().rev().zip(t.bytes()) {
                rev[(index(a).unwrap() + 62 - index(b).unwrap()) % 62] += 1;
            }
            case.count("strings", 2);
            case.count("tokens_minted", 1);
        }
        for (w, c) in [("token against challenge", &counts), ("token against reversed challenge", &rev)] {
            let d = deviation(c);
            case.seen((w, (d * 4.0) as i64));
            case.count("distribution_tests", 1);
            case.check(d < LIMIT, "derived", || format!("{w}: {d:.1} standard deviations from unrelated"));
        }
        // the very same challenge, site and duration over and over: in this system and in another one
        let q = Real::new(case, &mut rng, 1, 10);
        let string = rng.alnum(32);
        let mut seen = HashSet::new();
        for i in 0..40 {
            let sys = if i % 2 == 0 { &r } else { &q };
            sys.plant(case, &string, 1, "s", 3600);
            let (nonce, s) = solve(&sys.salt, &string, 1, 7);
            let w = Work { string: string.clone(), result: s.to_string(), nonce, key: "s".into() };
            match sys.submit(case, w, "ip") {
                Ok((t, _)) => {
                    case.check(seen.insert(t.clone()), "derived", || {
                        format!("token {t} was minted twice from the same challenge, site and duration")
                    });
                    case.seen(t);
                }
                Err(e) => case.abort("no-token", format!("{e:?}")),
            }
        }
        let _ = MAX;
        case.ev(format!("{n} submissions, 40 of the same challenge: all tokens different"));
        case.sample_events(2);
    });
    ctx.require("strings", 100_000);
    ctx.require("distribution_tests", 190);
    ctx.require("processes", 48);
}
