//! C07 configuration builders, C21 serialisation
use crate::model::*;
use crate::util::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::messages::*;
use libmcaptcha::pow::{PoWConfig, Work};
use libmcaptcha::*;
use serde_json::json;
use std::sync::Arc;

// ------------------------------------------------------------------ C07
/// specification of add_level / build on (threshold, difficulty) pairs
struct ModelBuilder {
    levels: Vec<(u32, u32)>,
}
#[derive(Debug, PartialEq)]
enum Built {
    Ok(Vec<(u32, u32)>),
    Empty,
    Zero,
    Decreasing,
    ZeroOrDecreasing,
    Other(String),
}
impl ModelBuilder {
    fn add(&mut self, l: (u32, u32)) -> bool {
        if self.levels.iter().any(|x| x.0 == l.0) {
            return false;
        }
        self.levels.push(l);
        true
    }
    fn build(&self) -> Built {
        let mut v = self.levels.clone();
        v.sort();
        let zero = v.iter().any(|l| l.1 == 0);
        let dec = v.windows(2).any(|w| w[0].1 > w[1].1);
        match (v.is_empty(), zero, dec) {
            (true, _, _) => Built::Empty,
            (_, true, true) => Built::ZeroOrDecreasing,
            (_, true, _) => Built::Zero,
            (_, _, true) => Built::Decreasing,
            _ => Built::Ok(v),
        }
    }
}
fn real_build(b: &mut DefenseBuilder) -> (Built, Option<Defense>) {
    match b.build() {
        Ok(d) => (Built::Ok(levels_of(d.clone())), Some(d)),
        Err(CaptchaError::LevelEmpty) => (Built::Empty, None),
        Err(CaptchaError::DifficultyFactorZero) => (Built::Zero, None),
        Err(CaptchaError::DecreaseingDifficultyFactor) => (Built::Decreasing, None),
        Err(e) => (Built::Other(format!("{e:?}")), None),
    }
}
fn agree(m: &Built, r: &Built) -> bool {
    m == r || (*m == Built::ZeroOrDecreasing && matches!(r, Built::Zero | Built::Decreasing))
}
/// walk a built defence up and down and compare every reading
fn check_walk(case: &Case, d: &Defense, lv: &[(u32, u32)], rng: &mut Rng) {
    let mut d = d.clone();
    let mut at = 0usize;
    let n = lv.len();
    let read = |d: &Defense, at: usize, op: &str| {
        case.check(
            d.get_difficulty() == lv[at].1
                && d.current_level().visitor_threshold == lv[at].0
                && d.current_level().difficulty_factor == lv[at].1
                && d.visitor_threshold() == lv[at].0,
            "level-readback",
            || {
                format!(
                    "after {op}: at level {at} of {lv:?} read difficulty {} level {:?} threshold {}",
                    d.get_difficulty(),
                    d.current_level(),
                    d.visitor_threshold()
                )
            },
        )
    };
    if !read(&d, 0, "build") {
        return;
    }
    for i in 0..(2 * n + 4) {
        let op = if i < n + 1 { 0 } else { rng.below(5) };
        let name = match op {
            0 | 4 => {
                d.tighten_up();
                at = (at + 1).min(n - 1);
                "tighten_up"
            }
            1 => {
                d.loosen_up();
                at = at.saturating_sub(1);
                "loosen_up"
            }
            2 => {
                d.max_defense();
                at = n - 1;
                "max_defense"
            }
            _ => {
                d.min_defense();
                at = 0;
                "min_defense"
            }
        };
        if !read(&d, at, name) {
            return;
        }
    }
    for _ in 0..n + 2 {
        d.loosen_up();
        at = at.saturating_sub(1);
        if !read(&d, at, "loosen_up") {
            return;
        }
    }
    case.check(levels_of(d) == lv, "levels-changed", || format!("levels changed by stepping: {lv:?}"));
}

fn defense_sequence(case: &Case, seq: &[(u32, u32)], build_after: &[usize], rng: &mut Rng) {
    let mut b = DefenseBuilder::default();
    let mut m = ModelBuilder { levels: vec![] };
    for (i, l) in seq.iter().enumerate() {
        if build_after.contains(&i) {
            let want = m.build();
            let (got, _) = real_build(&mut b);
            if !case.check(agree(&want, &got), "build-outcome", || {
                format!("levels {:?}: expected {want:?} got {got:?}", m.levels)
            }) {
                return;
            }
        }
        let ok = m.add(*l);
        // difficulty 0 cannot come from the LevelBuilder but the type is plain data
        let level = if l.1 > 0 && rng.chance(1, 2) {
            LevelBuilder::default().visitor_threshold(l.0).difficulty_factor(l.1).unwrap().build().unwrap()
        } else {
            Level { visitor_threshold: l.0, difficulty_factor: l.1 }
        };
        let r = b.add_level(level).map(|_| ());
        let good = match (&r, ok) {
            (Ok(()), true) => true,
            (Err(CaptchaError::DuplicateVisitorCount), false) => true,
            _ => false,
        };
        if !case.check(good, "add-level-outcome", || {
            format!("adding {l:?} to {:?}: expected accepted={ok} got {r:?}", m.levels)
        }) {
            return;
        }
    }
    let want = m.build();
    let (got, d) = real_build(&mut b);
    if !case.check(agree(&want, &got), "build-outcome", || {
        format!("levels {:?}: expected {want:?} got {got:?}", m.levels)
    }) {
        return;
    }
    if let (Some(d), Built::Ok(lv)) = (d, want) {
        case.count("defences_built", 1);
        check_walk(case, &d, &lv, rng);
        // building again gives the same
        let (again, _) = real_build(&mut b);
        case.check(again == Built::Ok(lv.clone()), "rebuild", || format!("second build of {lv:?} gave {again:?}"));
    } else {
        case.count("defences_refused", 1);
    }
}

pub fn c07(ctx: &Arc<Ctx>) {
    ctx.rule("builder call sequences (exhaustive over thresholds 0..=2 x difficulties 0..=2 up to 4 levels, random over the full u32 range up to 3000 levels, interleaved with intermediate builds) compared with a sequential specification; a distinct case is a distinct call sequence");
    // exhaustive small domain
    let dom: Vec<(u32, u32)> = (0..3).flat_map(|t| (0..3).map(move |d| (t, d))).collect();
    let maxlen = if ctx.thorough { 5 } else { 4 };
    let total: u64 = (0..=maxlen).map(|k| (dom.len() as u64).pow(k)).sum();
    let chunks = 64;
    run_cases(ctx, "small-exhaustive", chunks, 8, |case| {
        let mut rng = case.rng(1);
        let mut idx = case.index;
        while idx < total && !case.failed() {
            let mut k = 0u32;
            let mut r = idx;
            while r >= (dom.len() as u64).pow(k) {
                r -= (dom.len() as u64).pow(k);
                k += 1;
            }
            let mut seq = vec![];
            for _ in 0..k {
                seq.push(dom[(r % dom.len() as u64) as usize]);
                r /= dom.len() as u64;
            }
            defense_sequence(case, &seq, &[k as usize / 2], &mut rng);
            case.count("builder_sequences", 1);
            case.seen(&seq);
            idx += chunks;
        }
    });
    run_cases(ctx, "random", ctx.n(6000, 60000), 8, |case| {
        let mut rng = case.rng(1);
        let n = match rng.below(10) {
            0 if rng.chance(1, 6) => rng.range(300, 3000),
            0 => rng.range(50, 300),
            1..=3 => rng.range(6, 40),
            _ => rng.range(0, 6),
        } as usize;
        let edge = [0u32, 1, 2, 50, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1];
        let mut seq: Vec<(u32, u32)> = if rng.chance(3, 4) {
            // mostly valid, then disturbed
            let mut v = gen_levels(&mut rng, n.max(1) as u64, u32::MAX, u32::MAX);
            match rng.below(6) {
                0 => {
                    let i = rng.below(v.len() as u64) as usize;
                    v[i].1 = 0;
                }
                1 => {
                    let i = rng.below(v.len() as u64) as usize;
                    let d = *rng.pick(&edge);
                    v.push((v[i].0, d.max(1)));
                }
                2 => {
                    let (i, j) = (rng.below(v.len() as u64) as usize, rng.below(v.len() as u64) as usize);
                    let t = v[i].1;
                    v[i].1 = v[j].1;
                    v[j].1 = t;
                }
                3 => {
                    // equal difficulties are allowed
                    let d = v[0].1;
                    v.iter_mut().for_each(|l| l.1 = d);
                }
                _ => {}
            }
            v
        } else {
            (0..n).map(|_| (*rng.pick(&edge), *rng.pick(&edge))).collect()
        };
        if rng.chance(4, 5) {
            rng.shuffle(&mut seq);
        }
        let builds: Vec<usize> = (0..rng.below(3)).map(|_| rng.below(n.max(1) as u64) as usize).collect();
        case.ev(format!("sequence {seq:?} builds before {builds:?}"));
        case.seen(&seq);
        case.count("builder_sequences", 1);
        case.sample(json!({"levels": seq.iter().take(6).collect::<Vec<_>>(), "len": seq.len()}));
        defense_sequence(case, &seq, &builds, &mut rng);
    });
    run_cases(ctx, "level-and-site", ctx.n(4000, 20000), 8, |case| {
        let mut rng = case.rng(1);
        // LevelBuilder: any sequence of set calls; the last good value of each counts
        let mut b = LevelBuilder::default();
        let (mut t, mut d) = (None, None);
        let mut log = vec![];
        for _ in 0..rng.below(6) {
            let x = *rng.pick(&[0u32, 1, 5, 50, 65536, u32::MAX]);
            if rng.chance(1, 2) {
                b.visitor_threshold(x);
                t = Some(x);
                log.push(('t', x));
            } else {
                let r = b.difficulty_factor(x).map(|_| ());
                log.push(('d', x));
                let ok = if x == 0 {
                    r == Err(CaptchaError::DifficultyFactorZero)
                } else {
                    d = Some(x);
                    r.is_ok()
                };
                case.check(ok, "level-difficulty", || format!("difficulty_factor({x}) gave {r:?}"));
            }
            if rng.chance(1, 4) {
                log.push(('b', 0));
                let _ = b.build();
            }
        }
        let got = b.build();
        let want = match (t, d) {
            (None, _) => Err(CaptchaError::SetVisitorThreshold),
            (_, None) => Err(CaptchaError::SetDifficultyFactor),
            (Some(t), Some(d)) => Ok(Level { visitor_threshold: t, difficulty_factor: d }),
        };
        // with both missing either error names a missing value
        let ok = got == want || (t.is_none() && d.is_none() && got == Err(CaptchaError::SetDifficultyFactor));
        case.check(ok, "level-build", || format!("{log:?}: expected {want:?} got {got:?}"));
        case.seen(&log);
        // MCaptchaBuilder
        let lv = gen_levels(&mut rng, 5, u32::MAX, u32::MAX);
        let mut b = MCaptchaBuilder::default();
        let dur = *rng.pick(&[None, Some(0u64), Some(1), Some(30), Some(1 << 32), Some(u64::MAX)]);
        let with_def = rng.chance(2, 3);
        if rng.chance(1, 3) {
            let x = rng.below(3);
            if dur.is_some() {
                b.duration(x);
            }
        }
        if with_def {
            b.defense(build_defense(&lv));
        }
        if let Some(x) = dur {
            b.duration(x);
        }
        let r = b.build();
        let desc = format!("site with duration {dur:?}, defence {with_def}");
        match (dur, with_def, r) {
            (Some(x), true, Ok(m)) if x > 0 => {
                let o = observe(&m);
                case.check(o == (lv.clone(), x, 0, lv[0].1), "site-readback", || {
                    format!("{desc}: built {o:?}, expected levels {lv:?}")
                });
                let c: CreateMCaptcha = m.into();
                let cl: Vec<_> = c.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
                case.check(cl == lv && c.duration == x, "site-form", || format!("{desc}: form {cl:?} {}", c.duration));
            }
            (None, wd, Err(e)) => {
                let ok = e == CaptchaError::PleaseSetValue("duration".into())
                    || (!wd && e == CaptchaError::PleaseSetValue("defense".into()));
                case.check(ok, "site-build", || format!("{desc}: {e:?}"));
            }
            (Some(x), false, Err(e)) => {
                let ok = e == CaptchaError::PleaseSetValue("defense".into())
                    || (x == 0 && e == CaptchaError::CaptchaDurationZero);
                case.check(ok, "site-build", || format!("{desc}: {e:?}"));
            }
            (Some(0), true, Err(e)) => {
                case.check(e == CaptchaError::CaptchaDurationZero, "site-build", || format!("{desc}: {e:?}"));
            }
            (_, _, r) => {
                let r = r.map(|m| observe(&m));
                case.fail("site-build", format!("{desc}: unexpected {r:?}"));
            }
        }
        case.count("level_and_site_builds", 1);
    });
    ctx.require("defences_built", 100);
    ctx.require("defences_refused", 100);
}

// ------------------------------------------------------------------ C21
macro_rules! round {
    ($case:expr, $ty:ty, $v:expr, $($f:tt),+) => {{
        let v: $ty = $v;
        let s = serde_json::to_string(&v).unwrap();
        match serde_json::from_str::<$ty>(&s) {
            Err(e) => $case.fail("roundtrip-error", format!("{} {s}: {e}", stringify!($ty))),
            Ok(w) => {
                $( $case.check(v.$f == w.$f, "roundtrip-differs", || format!("{}.{} of {s} read back differently", stringify!($ty), stringify!($f))); )+
                $case.check(serde_json::to_string(&w).unwrap() == s, "roundtrip-text", || format!("{} {s} rewritten differently", stringify!($ty)));
            }
        }
        // and through a generic value (what a database or another service does)
        match serde_json::to_value(&v).and_then(serde_json::from_value::<$ty>) {
            Err(e) => $case.fail("roundtrip-error", format!("{} {s} via value: {e}", stringify!($ty))),
            Ok(w) => { $( $case.check(v.$f == w.$f, "roundtrip-differs", || format!("{}.{} of {s} read back differently via value", stringify!($ty), stringify!($f))); )+ }
        }
        $case.count("values_round_tripped", 1);
    }};
}

pub fn c21(ctx: &Arc<Ctx>) {
    ctx.rule("site states reached by random histories are serialised, read back and driven in lock-step with the original; every public message and result type is round-tripped with boundary values; distinct = distinct serialised texts");
    run_cases(ctx, "site-behaviour", ctx.n(3000, 30000), 8, |case| {
        let mut rng = case.rng(1);
        let big = rng.chance(1, 3);
        let maxt = if rng.chance(1, 2) { 20 } else { u32::MAX };
        let lv = gen_levels(&mut rng, if big { 40 } else { 6 }, maxt, u32::MAX);
        let dur = *rng.pick(&[1u64, 5, 30, 86400, 1 << 33, u64::MAX]);
        let mut m = build_mcaptcha(&lv, dur);
        if rng.chance(1, 3) {
            let c = *rng.pick(&[0u32, 1, 255, 256, 65535, 65536, 1 << 31, u32::MAX - 5, lv[0].0, lv[lv.len() - 1].0]);
            let l = rng.below(lv.len() as u64) as usize;
            match inject(&lv, dur, c, l) {
                Some(x) => m = x,
                None => case.count("injection_unavailable", 1),
            }
        }
        let step = |m: &mut MCaptcha, op: u64| match op {
            0..=5 => m.add_visitor(),
            6 => m.decrement_visitor_by(1),
            7 => m.decrement_visitor_by(7),
            8 => m.decrement_visitor_by(u32::MAX),
            _ => {}
        };
        for _ in 0..rng.below(60) {
            let op = rng.below(9);
            step(&mut m, op);
        }
        let txt = serde_json::to_string(&m).unwrap();
        case.ev(format!("state {txt}"));
        case.seen(&txt);
        let mut w: MCaptcha = match serde_json::from_str(&txt) {
            Ok(w) => w,
            Err(e) => return case.fail("roundtrip-error", format!("{txt}: {e}")),
        };
        case.sample(json!({ "state": txt.chars().take(300).collect::<String>() }));
        for i in 0..200u64 {
            if !case.check(observe(&m) == observe(&w), "behaviour-differs", || {
                format!("after {i} further steps original {:?} restored {:?}", observe(&m), observe(&w))
            }) {
                return;
            }
            let op = rng.below(9);
            case.ev(format!("op {op}"));
            step(&mut m, op);
            step(&mut w, op);
        }
        // form
        let form: CreateMCaptcha = m.clone().into();
        let fl: Vec<_> = form.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
        case.check(fl == lv && form.duration == dur, "form", || format!("form {fl:?} {} of {lv:?} {dur}", form.duration));
        round!(case, CreateMCaptcha, form, levels, duration);
        // counter actor state
        let c: Counter = m.clone().into();
        let t = serde_json::to_string(&c).unwrap();
        match serde_json::from_str::<Counter>(&t) {
            Ok(c2) => {
                case.check(serde_json::to_string(&c2).unwrap() == t, "roundtrip-text", || format!("counter {t}"));
            }
            Err(e) => case.fail("roundtrip-error", format!("counter {t}: {e}")),
        }
        // defence on its own
        let d = m.get_defense();
        let d2: Defense = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
        case.check(d == d2 && d2.get_difficulty() == m.get_difficulty(), "roundtrip-differs", || {
            format!("defence {d:?} read back {d2:?}")
        });
        // builder, then built
        let mut b = MCaptchaBuilder::default();
        b.defense(build_defense(&lv)).duration(dur);
        let mut b2: MCaptchaBuilder = serde_json::from_str(&serde_json::to_string(&b).unwrap()).unwrap();
        let (x, y) = (observe(&b.build().unwrap()), observe(&b2.build().unwrap()));
        case.check(x == y, "roundtrip-differs", || format!("site builder {x:?} read back {y:?}"));
        case.count("states_compared", 1);
    });
    run_cases(ctx, "messages", ctx.n(3000, 20000), 8, |case| {
        let mut rng = case.rng(1);
        let u32s = [0u32, 1, 255, 256, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX];
        let u64s = [0u64, 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX];
        let (a, b, c) = (rng.name(), rng.name(), rng.name());
        let (d, e) = (*rng.pick(&u32s), *rng.pick(&u32s));
        let n = if rng.chance(1, 2) { *rng.pick(&u64s) } else { rng.u64() };
        case.ev(format!("{a:?} {b:?} {c:?} {d} {e} {n}"));
        case.seen((&a, &b, &c, d, e, n));
        round!(case, Level, Level { visitor_threshold: d, difficulty_factor: e }, visitor_threshold, difficulty_factor);
        round!(case, AddVisitorResult, AddVisitorResult { duration: n, difficulty_factor: d }, duration, difficulty_factor);
        round!(case, PoWConfig, PoWConfig { string: a.clone(), difficulty_factor: d, salt: b.clone() }, string, difficulty_factor, salt);
        round!(case, Work, Work { string: a.clone(), result: b.clone(), nonce: n, key: c.clone() }, string, result, nonce, key);
        round!(case, CachePoW, CachePoWBuilder::default().string(a.clone()).difficulty_factor(d).duration(n).key(b.clone()).build().unwrap(), string, difficulty_factor, duration, key);
        round!(case, CachedPoWConfig, CachedPoWConfig { key: a.clone(), difficulty_factor: d, duration: n }, key, difficulty_factor, duration);
        round!(case, CacheResult, CacheResult { token: a.clone(), key: b.clone(), duration: n }, token, key, duration);
        round!(case, VerifyCaptchaResult, VerifyCaptchaResult { token: a.clone(), key: b.clone() }, token, key);
        round!(case, AddChallenge, AddChallenge { difficulty: d, duration: n, challenge: a.clone() }, difficulty, duration, challenge);
        round!(case, AddVisitor, AddVisitor(a.clone()), 0);
        round!(case, RemoveCaptcha, RemoveCaptcha(a.clone()), 0);
        round!(case, Rename, Rename { name: a.clone(), rename_to: b.clone() }, name, rename_to);
        let m = build_mcaptcha(&gen_levels(&mut rng, 5, u32::MAX, u32::MAX), n.max(1));
        let s = AddSite { id: a.clone(), mcaptcha: m.clone() };
        let s2: AddSite = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
        case.check(s2.id == a && observe(&s2.mcaptcha) == observe(&m), "roundtrip-differs", || format!("AddSite {a:?}"));
        let i = InternalData { name: a.clone(), mcaptcha: m.clone() };
        let i2: InternalData = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap();
        case.check(i2.name == a && observe(&i2.mcaptcha) == observe(&m), "roundtrip-differs", || format!("InternalData {a:?}"));
    });
    ctx.require("states_compared", 100);
    ctx.require("values_round_tripped", 1000);
}
