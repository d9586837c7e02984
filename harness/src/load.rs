//! C08 difficulty follows load, C09 visitor counts over time
use crate::model::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::master::embedded::counter::{AddVisitor as CAdd, Counter, GetCurrentVisitorCount, GetInternalData as CGet};
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::*;
use libmcaptcha::*;
use serde_json::json;
use std::sync::Arc;
use tokio::task::yield_now;

// ------------------------------------------------------------------ C08
fn same(case: &Case, m: &MCaptcha, s: &Site, what: impl Fn() -> String) -> bool {
    case.check(observe(m) == expect_of(s), "load-state", || {
        format!("{}: expected (levels, duration, count, difficulty) {:?}, observed {:?}", what(), expect_of(s), observe(m))
    })
}

pub fn c08(ctx: &Arc<Ctx>) {
    ctx.rule("arrivals and departures are driven into site states (exhaustive over small defences, counts and levels; random over the full 32-bit range and up to 3000 levels; long histories; through the counter and registry actors) and every observed difficulty, count and level is compared with the reference model; distinct = distinct (defence, count, level) before an arrival");
    // every small defence, every count and level, one arrival / departure
    run_cases(ctx, "exhaustive-step", 4, 4, |case| {
        let maxt = if case.ctx.thorough { 7u32 } else { 5 };
        let k = case.index as usize + 1;
        // all ascending threshold sets of size k out of 0..=maxt
        let mut stack: Vec<Vec<u32>> = vec![vec![]];
        let mut sets = vec![];
        while let Some(s) = stack.pop() {
            if s.len() == k {
                sets.push(s);
                continue;
            }
            for t in s.last().map_or(0, |l| l + 1)..=maxt {
                let mut n = s.clone();
                n.push(t);
                stack.push(n);
            }
        }
        for thr in sets {
            for dshape in 0..2 {
                let lv: Vec<(u32, u32)> =
                    thr.iter().enumerate().map(|(i, t)| (*t, if dshape == 0 { i as u32 + 1 } else { 3 })).collect();
                for level in 0..k {
                    for count in 0..=maxt + 2 {
                        let Some(mut m) = inject(&lv, 30, count, level) else {
                            case.count("injection_unavailable", 1);
                            continue;
                        };
                        let mut s = Site::new(lv.clone(), 30);
                        s.count = count;
                        s.level = level;
                        case.seen(expect_of(&s));
                        for _ in 0..(k + 2) {
                            m.add_visitor();
                            s.visit();
                            if !same(case, &m, &s, || format!("one arrival at level {level}, {count} visitors of {lv:?}")) {
                                return;
                            }
                        }
                        let n = count / 2 + 1;
                        m.decrement_visitor_by(n);
                        s.leave(n);
                        if !same(case, &m, &s, || format!("{n} departures from level {level} of {lv:?}")) {
                            return;
                        }
                        case.count("single_steps", 1);
                    }
                }
            }
        }
    });
    run_cases(ctx, "wide-range", ctx.n(6000, 60000), 8, |case| {
        let mut rng = case.rng(1);
        let nl = if rng.chance(1, 200) { 3000 } else if rng.chance(1, 6) { 300 } else { 8 };
        let lv = gen_levels(&mut rng, nl, u32::MAX, u32::MAX);
        let dur = *rng.pick(&[1u64, 30, u64::MAX]);
        let level = rng.below(lv.len() as u64) as usize;
        let near = lv[rng.below(lv.len() as u64) as usize].0;
        let count = match rng.below(6) {
            0 => near,
            1 => near.saturating_sub(1),
            2 => near.saturating_add(1),
            3 => *rng.pick(&[0, 1, (1 << 31) - 1, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX]),
            4 => near.saturating_sub(rng.below(6) as u32),
            _ => rng.u64() as u32,
        };
        let Some(mut m) = inject(&lv, dur, count, level) else {
            case.count("injection_unavailable", 1);
            return;
        };
        let mut s = Site::new(lv.clone(), dur);
        s.count = count;
        s.level = level;
        case.seen(expect_of(&s));
        case.ev(format!("levels {lv:?} level {level} count {count}"));
        for i in 0..lv.len() as u64 * 2 + 20 {
            case.seen((&lv, s.count, s.level));
            match rng.below(8) {
                0 => {
                    let n = *rng.pick(&[0u32, 1, 2, s.count, s.count.saturating_add(1), s.count / 2, u32::MAX]);
                    m.decrement_visitor_by(n);
                    s.leave(n);
                    case.ev(format!("leave {n}"));
                }
                1 => {
                    let c = m.clone();
                    let _ = (c.get_difficulty(), c.get_defense(), c.get_visitors());
                    let _: CreateMCaptcha = c.into();
                }
                _ => {
                    m.add_visitor();
                    s.visit();
                    case.ev("visit");
                }
            }
            case.count("arrivals_checked", 1);
            if !same(case, &m, &s, || format!("step {i}")) {
                return;
            }
        }
    });
    // all the way through long defences
    run_cases(ctx, "long-climb", ctx.n(40, 400), 8, |case| {
        let mut rng = case.rng(1);
        let n = rng.range(250, 1400) as u32;
        let step = rng.range(1, 3) as u32;
        let lv: Vec<(u32, u32)> = (0..n).map(|i| (i * step, if rng.chance(1, 10) { i / 2 + 1 } else { i + 1 })).collect();
        let lv: Vec<(u32, u32)> = lv.iter().scan(0, |d, l| {
            *d = l.1.max(*d);
            Some((l.0, *d))
        }).collect();
        let mut m = build_mcaptcha(&lv, 9);
        let mut s = Site::new(lv, 9);
        case.seen((n, step));
        let mut turn = false;
        for i in 0..3 * n * step {
            if i == n * step + 20 {
                turn = true;
                m.decrement_visitor_by(n * step);
                s.leave(n * step);
            }
            m.add_visitor();
            s.visit();
            if turn && i % 2 == 0 {
                m.decrement_visitor_by(1);
                s.leave(1);
            }
            let (got, want) = ((m.get_visitors(), m.get_difficulty()), (s.count, s.difficulty()));
            case.count("arrivals_checked", 1);
            if !case.check(got == want, "load-state", || {
                format!("arrival {i} at a site of {n} levels {step} visitors apart: (count, difficulty) {got:?}, expected {want:?}")
            }) {
                return;
            }
        }
    });
    // a climb and a descent through a whole defence, stepwise and monotone
    run_cases(ctx, "climb", ctx.n(400, 4000), 8, |case| {
        let mut rng = case.rng(1);
        let max = *rng.pick(&[6u32, 30, 400, 3000]);
        let lv = gen_levels(&mut rng, 12, max, u32::MAX);
        let mut m = build_mcaptcha(&lv, 9);
        let mut s = Site::new(lv.clone(), 9);
        case.ev(format!("{lv:?}"));
        let mut last = m.get_difficulty();
        for i in 0..(lv[lv.len() - 1].0 + 5) {
            m.add_visitor();
            s.visit();
            let d = m.get_difficulty();
            case.check(d >= last, "difficulty-fell", || {
                format!("difficulty fell from {last} to {d} on arrival {} of {lv:?}", i + 1)
            });
            last = d;
            case.count("arrivals_checked", 1);
            if !same(case, &m, &s, || format!("arrival {}", i + 1)) {
                return;
            }
        }
        // leave to some count, then trickle
        for _ in 0..4 {
            let n = rng.below(s.count as u64 + 3) as u32;
            m.decrement_visitor_by(n);
            s.leave(n);
            for i in 0..lv.len() as u32 + 6 {
                case.count("arrivals_checked", 1);
                if !same(case, &m, &s, || format!("after {n} left and {i} more came")) {
                    return;
                }
                if rng.chance(1, 3) {
                    m.decrement_visitor_by(1);
                    s.leave(1);
                }
                m.add_visitor();
                s.visit();
            }
        }
        case.sample(json!({"levels": lv, "end": format!("{:?}", expect_of(&s))}));
    });
    // through the actors, with visitors expiring
    run_cases(ctx, "actors", ctx.n(250, 2500), 8, |case| {
        let mut rng = case.rng(1);
        let max = *rng.pick(&[4u32, 12, 60]);
        let lv = gen_levels(&mut rng, 6, max, 100_000);
        let dur = rng.range(1, 4);
        let via_master = rng.chance(1, 2);
        virtual_time(drive(case, rng, lv, dur, via_master, true));
    });
    ctx.require("arrivals_checked", 1000);
    ctx.require("single_steps", 100);
}

/// Drive one site through an actor in virtual time against the timed model.
async fn drive(case: &Case, mut rng: Rng, lv: Vec<(u32, u32)>, dur: u64, via_master: bool, check_difficulty: bool) {
    let clock = Clock::new();
    let mut t = TimedSite::new(lv.clone(), dur);
    let name = rng.name();
    let master = Master::new(60_000_000).start();
    let counter = if via_master {
        let m = AddSite { id: name.clone(), mcaptcha: build_mcaptcha(&lv, dur) };
        case.must(case.ask_rx(&master, m, "AddSite").await, "AddSite");
        None
    } else {
        Some(Counter::from(build_mcaptcha(&lv, dur)).start())
    };
    case.ev(format!("levels {lv:?} duration {dur}s via master {via_master}"));
    let dms = dur * 1000;
    let steps = rng.range(5, 60);
    for _ in 0..steps {
        // move the clock, avoiding instants at which an expiry is due
        let gap = match rng.below(9) {
            0 | 1 => 0,
            2 => rng.range(1, 20),
            3 => rng.range(1, dms / 3),
            4 => rng.range(dms / 2, dms + 50),
            5 => dms - 7,
            6 => dms + 7,
            7 => 2 * dms,
            _ => rng.range(1, dms),
        };
        let mut to = clock.ms() + gap;
        while t.ambiguous(to, 4) {
            to += 5;
        }
        clock.until(to).await;
        let now = clock.ms();
        if t.ambiguous(now, 3) {
            case.count("ambiguous_instants_skipped", 1);
            continue;
        }
        t.at(now);
        let burst = match rng.below(6) {
            0 => 0,
            1 if rng.chance(1, 25) => rng.range(1000, 3000),
            1 => rng.range(5, 40),
            _ => rng.range(1, 3),
        };
        let concurrent = rng.chance(1, 4);
        if concurrent && burst > 1 {
            let mut hs = vec![];
            for _ in 0..burst {
                let (case, master, counter, name) = (case.clone(), master.clone(), counter.clone(), name.clone());
                hs.push(actix_rt::spawn(async move { visit(&case, &master, &counter, &name).await }));
            }
            let mut got = vec![];
            for h in hs {
                match h.await {
                    Ok(x) => got.push(x),
                    Err(_) => return,
                }
            }
            let want: Vec<_> = (0..burst).map(|_| (dur, t.visit(now))).collect();
            case.ev(format!("{now}ms: {burst} concurrent arrivals"));
            let mut g: Vec<_> = got.iter().filter_map(|x| x.clone()).collect();
            let mut w = want.clone();
            g.sort();
            w.sort();
            let ok = if check_difficulty { g == w } else { g.len() == w.len() };
            case.check(ok, "visitor-reply", || {
                format!("{now}ms: {burst} concurrent arrivals answered {got:?}, expected in some order {want:?}")
            });
            case.count("arrivals_checked", burst);
        } else {
            for _ in 0..burst {
                case.seen((&lv, t.site.count, t.site.level, t.pending.len()));
                let got = visit(case, &master, &counter, &name).await;
                let want = (dur, t.visit(now));
                case.ev(format!("{now}ms: arrival told {got:?}"));
                case.check(got.is_some() && (!check_difficulty || got == Some(want)), "visitor-reply", || {
                    format!("{now}ms: arrival answered {got:?}, expected {want:?}")
                });
                case.count("arrivals_checked", 1);
                if case.failed() {
                    return;
                }
            }
        }
        let (count, obs) = look(case, &master, &counter, &name).await;
        case.ev(format!("{now}ms: count {count}"));
        case.count("counts_checked", 1);
        if !case.check(count == t.site.count && obs.2 == t.site.count, "visitor-count", || {
            format!(
                "at {now}ms the count reads {count} / {} but {} visitors arrived in the last {dur}s (pending expiries {:?})",
                obs.2, t.site.count, t.pending
            )
        }) {
            return;
        }
        if check_difficulty {
            case.check(obs == expect_of(&t.site), "load-state", || {
                format!("at {now}ms state {obs:?}, expected {:?}", expect_of(&t.site))
            });
        }
        if case.failed() {
            return;
        }
    }
    // everything expires
    let end = clock.ms() + dms + 20;
    clock.until(end).await;
    let (count, _) = look(case, &master, &counter, &name).await;
    case.check(count == 0, "visitor-count", || format!("{}ms: all visitors left long ago, count reads {count}", clock.ms()));
    case.count("counts_checked", 1);
    case.sample_events(12);
}
async fn visit(case: &Case, master: &Addr<Master>, counter: &Option<Addr<Counter>>, name: &str) -> Option<(u64, u32)> {
    match counter {
        Some(c) => {
            let r = case.ask(c, CAdd, "AddVisitor").await;
            Some((r.duration, r.difficulty_factor))
        }
        None => {
            let r = case.ask_rx(master, AddVisitor(name.into()), "AddVisitor").await;
            case.must(r, "AddVisitor").map(|r| (r.duration, r.difficulty_factor))
        }
    }
}
type Obs = (Vec<(u32, u32)>, u64, u32, u32);
async fn look(case: &Case, master: &Addr<Master>, counter: &Option<Addr<Counter>>, name: &str) -> (u32, Obs) {
    match counter {
        Some(c) => {
            let n = case.ask(c, GetCurrentVisitorCount, "GetCurrentVisitorCount").await;
            (n, observe(&case.ask(c, CGet, "GetInternalData").await))
        }
        None => {
            let m = case.must(case.ask_rx(master, GetInternalData, "GetInternalData").await, "GetInternalData");
            let o = m.get(name).map(observe).unwrap_or_else(|| (vec![], 0, u32::MAX, 0));
            (o.2, o)
        }
    }
}

// ------------------------------------------------------------------ C09
pub fn c09(ctx: &Arc<Ctx>) {
    ctx.rule("arrival patterns in virtual time (bursts, trickles, gaps just below and above the duration, concurrent clients); after every step the reported count is compared with the number of arrivals in the last duration; decrements compared over the full 32-bit range; distinct = distinct (defence, count, level, pending) situations");
    run_cases(ctx, "timed", ctx.n(700, 7000), 8, |case| {
        let mut rng = case.rng(1);
        let lv = gen_levels(&mut rng, 4, 50, 1000);
        let dur = *rng.pick(&[1u64, 1, 2, 3, 5, 30, 600, 86_400, 4_294_968, 10_000_000]);
        let via = rng.chance(1, 2);
        virtual_time(drive(case, rng, lv, dur, via, false));
    });
    // sites of one registry: each with its own duration, interleaved
    run_cases(ctx, "many-sites", ctx.n(150, 1500), 8, |case| {
        let mut rng = case.rng(1);
        virtual_time(async {
            let clock = Clock::new();
            let master = Master::new(60_000_000).start();
            let n = rng.range(2, 6);
            let mut sites = vec![];
            for i in 0..n {
                let lv = gen_levels(&mut rng, 3, 20, 1000);
                let d = rng.range(1, 6);
                let name = format!("s{i}");
                let m = AddSite { id: name.clone(), mcaptcha: build_mcaptcha(&lv, d) };
                case.must(case.ask_rx(&master, m, "AddSite").await, "AddSite");
                sites.push((name, TimedSite::new(lv, d)));
            }
            for _ in 0..rng.range(10, 60) {
                let gap = *rng.pick(&[0u64, 1, 13, 200, 990, 1010, 1990, 2500]);
                let mut to = clock.ms() + gap;
                while sites.iter().any(|s| s.1.ambiguous(to, 4)) {
                    to += 5;
                }
                clock.until(to).await;
                let now = clock.ms();
                if sites.iter().any(|s| s.1.ambiguous(now, 3)) {
                    continue;
                }
                let i = rng.below(n) as usize;
                for _ in 0..rng.range(0, 4) {
                    let name = sites[i].0.clone();
                    let r = visit(case, &master, &None, &name).await;
                    case.check(r.is_some(), "visitor-reply", || format!("no reply for {name} at {now}ms"));
                    sites[i].1.visit(now);
                    case.ev(format!("{now}ms visit {name}"));
                }
                let snap = case.must(case.ask_rx(&master, GetInternalData, "GetInternalData").await, "GetInternalData");
                for (name, t) in sites.iter_mut() {
                    let want = t.at(now).site.count;
                    let got = snap.get(name.as_str()).map(|m| m.get_visitors());
                    case.seen((name.as_str(), want, t.pending.len()));
                    case.count("counts_checked", 1);
                    if !case.check(got == Some(want), "visitor-count", || {
                        format!("at {now}ms site {name} reports {got:?} visitors, {want} arrived in its last {}s", t.site.duration)
                    }) {
                        return;
                    }
                }
            }
        });
    });
    // floods: tens of thousands of visitors of one site at a time
    run_cases(ctx, "flood", ctx.n(10, 150), 8, |case| {
        let mut rng = case.rng(1);
        let dur = rng.range(2, 5);
        let lv = gen_levels(&mut rng, 4, 50_000, 1000);
        let most = *rng.pick(&[3000u64, 6000, 9000, 20_000, 40_000, 70_000]);
        // (every visitor costs time in proportion to those present)
        let times = if most > 9000 { 1 } else { rng.range(1, 5) };
        let bursts: Vec<u64> = (0..times).map(|_| if times == 1 { most - rng.below(900) } else { rng.range(1, most) }).collect();
        let gap = rng.range(50, 900);
        case.ev(format!("duration {dur} s, bursts of {bursts:?} visitors, {gap} ms apart"));
        case.seen((dur, &bursts, gap));
        virtual_time(async {
            let clock = Clock::new();
            let c = Counter::from(build_mcaptcha(&lv, dur)).start();
            let mut look = vec![];
            for (k, n) in bursts.iter().enumerate() {
                clock.until((k as u64 + 1) * gap).await;
                for i in 0..*n {
                    c.do_send(CAdd);
                    if i % 4000 == 3999 {
                        yield_now().await;
                        case.tick();
                    }
                }
                case.count("arrivals_checked", *n);
                look.push(clock.ms() + 6);
                look.push(clock.ms() + dur * 1000 - 6);
                look.push(clock.ms() + dur * 1000 + 6);
            }
            let start = clock.ms();
            look.push(start);
            look.sort();
            for t in look.into_iter().filter(|t| *t >= start) {
                let here = |k: usize| {
                    let at = (k as u64 + 1) * gap;
                    (at <= t && t < at + dur * 1000, dist(at + dur * 1000, t) <= 4)
                };
                if (0..bursts.len()).any(|k| here(k).1) {
                    continue;
                }
                clock.until(t).await;
                let want: u64 = bursts.iter().enumerate().filter(|(k, _)| here(*k).0).map(|b| b.1).sum();
                let got = case.ask(&c, GetCurrentVisitorCount, "GetCurrentVisitorCount").await as u64;
                case.count("counts_checked", 1);
                if !case.check(got == want, "visitor-count", || {
                    format!("{t} ms: {got} visitors reported, {want} arrived in the last {dur} s (bursts of {bursts:?}, {gap} ms apart)")
                }) {
                    return;
                }
            }
        });
        case.sample_events(2);
    });
    run_cases(ctx, "decrement", ctx.n(4000, 40000), 8, |case| {
        let mut rng = case.rng(1);
        let e = [0u32, 1, 2, 255, 65536, 1 << 31, u32::MAX - 1, u32::MAX];
        let c = if rng.chance(1, 2) { *rng.pick(&e) } else { rng.u64() as u32 };
        let Some(mut m) = inject(&[(5, 1), (u32::MAX, 2)], 3, c, 0) else {
            case.count("injection_unavailable", 1);
            return;
        };
        let mut want = c;
        for _ in 0..6 {
            let n = match rng.below(4) {
                0 => *rng.pick(&e),
                1 => want,
                2 => want.wrapping_sub(1),
                _ => rng.u64() as u32,
            };
            if rng.chance(1, 4) {
                m.add_visitor();
                want = want.saturating_add(1);
            } else {
                m.decrement_visitor_by(n);
                want = want.saturating_sub(n);
            }
            case.seen((want, n));
            case.count("counts_checked", 1);
            if !case.check(m.get_visitors() == want, "decrement", || {
                format!("from {c}, after removing {n}: {} visitors, expected {want}", m.get_visitors())
            }) {
                return;
            }
        }
    });
    // crowds far beyond the highest threshold
    run_cases(ctx, "crowd", ctx.n(150, 1500), 8, |case| {
        let mut rng = case.rng(1);
        let top = *rng.pick(&[8, 200, 20_000]);
        let lv = gen_levels(&mut rng, 5, top, 1000);
        let mut m = build_mcaptcha(&lv, 9);
        let mut want = 0u32;
        for _ in 0..rng.range(1, 12) {
            let n = *rng.pick(&[1u32, 7, 300, 5000, 40_000]) + rng.below(50) as u32;
            if rng.chance(2, 3) {
                (0..n).for_each(|_| m.add_visitor());
                want += n;
            } else {
                m.decrement_visitor_by(n);
                want = want.saturating_sub(n);
            }
            case.seen((want, lv.len()));
            case.count("counts_checked", 1);
            if !case.check(m.get_visitors() == want, "visitor-count", || {
                format!("levels {lv:?}: {} visitors, expected {want}", m.get_visitors())
            }) {
                return;
            }
        }
    });
    ctx.require("counts_checked", 1000);
    ctx.require("arrivals_checked", 500);
}
