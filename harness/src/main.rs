mod abandon;
mod causes;
mod config;
mod load;
mod model;
mod pending;
#[cfg(feature = "hooks")]
mod queue;
mod races;
mod random;
mod store;
mod family;
mod redis_checks;
mod redisfake;
mod registry;
mod system;
mod util;

use serde_json::{json, Value};
use std::sync::atomic::Ordering::*;
use std::time::Duration;
use util::*;

#[global_allocator]
static ALLOC: Counting = Counting;

const STALL_S: u64 = 45;

fn result(ctx: &Ctx, status: &str) -> Value {
    let r = ctx.rep.lock().unwrap_or_else(|e| e.into_inner());
    json!({
        "property": ctx.prop, "seed": ctx.seed, "tier": if ctx.thorough {"thorough"} else {"quick"},
        "status": status,
        "evaluations": r.evaluations,
        "distinct": r.distinct.len(),
        "counters": r.counters,
        "samples": r.samples,
        "rules": r.rules,
        "notes": r.notes,
        "inconclusive": r.inconclusive,
        "violations": r.violations.iter().map(|v| json!({
            "case": v.case, "index": v.index, "case_seed": v.case_seed, "sig": v.sig,
            "detail": v.detail, "events": v.events})).collect::<Vec<_>>(),
        "running": *ctx.running.lock().unwrap_or_else(|e| e.into_inner()),
        "hooks": cfg!(feature = "hooks"),
        "wall_s": ctx.started.elapsed().as_secs_f64(),
    })
}

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    if prop == "child-strings" {
        return random::child(args.next().unwrap().parse().unwrap());
    }
    if prop == "canary" {
        return races::canary(&args.next().unwrap());
    }
    let (mut seed, mut tier, mut out, mut only, mut budget) =
        (1u64, "quick".to_string(), String::new(), None, 0u64);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--seed" => seed = v().parse().unwrap(),
            "--tier" => tier = v(),
            "--out" => out = v(),
            "--budget" => budget = v().parse().unwrap(),
            "--only" => {
                let s = v();
                let (n, i) = s.rsplit_once('#').expect("name#index");
                only = Some((n.to_string(), i.parse().unwrap()));
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let thorough = tier == "thorough";
    if budget == 0 {
        budget = if thorough { 600 } else { 100 };
    }
    install_panic_hook();
    let only_given = only.is_some();
    let ctx = Ctx::new(&prop, seed, thorough, only, Duration::from_secs(budget));

    // watchdog: no event at all for STALL_S seconds
    {
        let ctx = ctx.clone();
        let out = out.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let p = ctx.progress.load(SeqCst);
                since = if p == last { since + 1 } else { 0 };
                last = p;
                if since >= STALL_S {
                    std::fs::write(&out, result(&ctx, "stalled").to_string()).unwrap();
                    std::process::exit(3);
                }
            }
        });
    }

    let rounds = if thorough && !only_given { 1000 } else { 1 };
    for round in 0..rounds {
        ctx.round.store(round, SeqCst);
        if round > 0 {
            let r = ctx.rep.lock().unwrap();
            // as long as there is time for something
            if r.violations.iter().any(|v| !ONCE.contains(&v.case.as_str())) || !r.inconclusive.is_empty() || std::time::Instant::now() + Duration::from_secs(10) > ctx.deadline {
                break;
            }
        }
        workload(&prop, &ctx);
        ctx.rep.lock().unwrap().counters.insert("rounds".into(), round + 1);
    }
    let (viol, inc) = {
        let r = ctx.rep.lock().unwrap();
        (r.violations.len(), r.inconclusive.len())
    };
    let status = if viol > 0 {
        "violation"
    } else if inc > 0 {
        "inconclusive"
    } else {
        "held"
    };
    std::fs::write(&out, result(&ctx, status).to_string()).unwrap();
    // worker threads of abandoned systems may still be spinning
    std::process::exit(if viol > 0 { 1 } else if inc > 0 { 2 } else { 0 });
}

fn workload(prop: &str, ctx: &std::sync::Arc<Ctx>) {
    match prop {
        "C01" => system::c01(ctx),
        "C02" => system::c02(ctx),
        "C03" => system::c03(ctx),
        "C04" => system::c04(ctx),
        "C05" => system::c05(ctx),
        "C06" => random::c06(ctx),
        "C07" => config::c07(ctx),
        "C08" => load::c08(ctx),
        "C09" => load::c09(ctx),
        "C10" => registry::c10(ctx),
        "C11" => registry::c11(ctx),
        "C12" => registry::c12(ctx),
        "C13" => {
            #[cfg(feature = "hooks")]
            queue::c13(ctx);
            system::c13_public(ctx);
        }
        "C14" => {
            #[cfg(feature = "hooks")]
            queue::c14(ctx);
            system::c14_public(ctx);
        }
        "C15" => {
            #[cfg(feature = "hooks")]
            queue::c15(ctx);
            system::c15_public(ctx);
        }
        "C16" => {
            #[cfg(feature = "hooks")]
            queue::c16(ctx);
            system::c16_public(ctx);
        }
        "C17" => redis_checks::c17(ctx),
        "C18" => redis_checks::c18(ctx),
        "C19" => redis_checks::c19(ctx),
        "C20" => redis_checks::c20(ctx),
        "C21" => config::c21(ctx),
        "C22" => abandon::c22(ctx),
        "C23" => races::c23(ctx),
        "C24" => races::c24(ctx),
        "C25" => pending::c25(ctx),
        "C26" => causes::c26(ctx),
        "C27" => store::c27(ctx),
        "C28" => family::c28(ctx),
        _ => panic!("unknown property"),
    }
}
