//! Executable reference models: small, sequential, independent of the library.
use crate::util::Rng;
use libmcaptcha::defense::{Defense, Level};
use libmcaptcha::{DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder};
use serde_json::Value;
use sha2::{Digest, Sha256};

// ------------------------------------------------------------ proof of work
/// First 16 bytes (big endian) of SHA256(salt || bincode(string) || decimal nonce)
pub fn score(salt: &str, string: &str, nonce: u64) -> u128 {
    let mut h = Sha256::new();
    h.update(salt.as_bytes());
    h.update((string.len() as u64).to_le_bytes());
    h.update(string.as_bytes());
    h.update(nonce.to_string().as_bytes());
    let d = h.finalize();
    u128::from_be_bytes(d[..16].try_into().unwrap())
}
pub fn required(difficulty: u32) -> u128 {
    u128::MAX - u128::MAX / difficulty as u128
}
/// search upwards (wrapping) from `start` for a nonce that reaches `difficulty`
pub fn solve(salt: &str, string: &str, difficulty: u32, start: u64) -> (u64, u128) {
    let need = required(difficulty);
    let mut n = start;
    loop {
        let s = score(salt, string, n);
        if s >= need {
            return (n, s);
        }
        n = n.wrapping_add(1);
    }
}
/// a nonce that does *not* reach `difficulty`, if one is found soon
pub fn unsolve(salt: &str, string: &str, difficulty: u32, start: u64) -> Option<(u64, u128)> {
    let need = required(difficulty);
    let mut n = start;
    for _ in 0..100_000 {
        let s = score(salt, string, n);
        if s < need {
            return Some((n, s));
        }
        n = n.wrapping_add(1);
    }
    None
}

// ------------------------------------------------------------ defence & load
pub fn target(levels: &[(u32, u32)], count: u32) -> usize {
    levels.iter().position(|l| count <= l.0).unwrap_or(levels.len() - 1)
}
#[derive(Clone, Debug, PartialEq)]
pub struct Site {
    /// (threshold, difficulty), ascending thresholds
    pub levels: Vec<(u32, u32)>,
    pub duration: u64,
    pub level: usize,
    pub count: u32,
}
impl Site {
    pub fn new(levels: Vec<(u32, u32)>, duration: u64) -> Self {
        Site { levels, duration, level: 0, count: 0 }
    }
    pub fn visit(&mut self) -> u32 {
        self.count = self.count.saturating_add(1);
        let t = target(&self.levels, self.count);
        if t > self.level {
            self.level += 1
        } else if t < self.level {
            self.level -= 1
        }
        self.difficulty()
    }
    pub fn leave(&mut self, n: u32) {
        self.count = self.count.saturating_sub(n);
    }
    pub fn difficulty(&self) -> u32 {
        self.levels[self.level].1
    }
}

/// Site with arrival history: count at a time is the number of arrivals in the last duration.
#[derive(Clone, Debug)]
pub struct TimedSite {
    pub site: Site,
    /// (expiry ms, number)
    pub pending: Vec<(u64, u32)>,
    pub used: bool,
}
impl TimedSite {
    pub fn new(levels: Vec<(u32, u32)>, duration: u64) -> Self {
        TimedSite { site: Site::new(levels, duration), pending: vec![], used: false }
    }
    /// expire everything due at `now`; visits in the ambiguous window are the caller's to avoid
    pub fn at(&mut self, now: u64) -> &mut Self {
        let gone: u32 = self.pending.iter().filter(|p| p.0 <= now).map(|p| p.1).sum();
        self.pending.retain(|p| p.0 > now);
        self.site.leave(gone);
        self
    }
    pub fn visit(&mut self, now: u64) -> u32 {
        self.at(now);
        self.used = true;
        let d = self.site.visit();
        self.pending.push((now + self.site.duration * 1000, 1));
        d
    }
    /// is some expiry within `slack` ms of `t`?
    pub fn ambiguous(&self, t: u64, slack: u64) -> bool {
        self.pending.iter().any(|p| crate::util::dist(p.0, t) <= slack)
    }
}

pub fn gen_levels(rng: &mut Rng, max_levels: u64, max_thr: u32, max_diff: u32) -> Vec<(u32, u32)> {
    let n = rng.range(1, max_levels);
    let mut thr: Vec<u32> = (0..n)
        .map(|_| match rng.below(12) {
            0 => 0,
            1 => max_thr,
            _ => rng.below(max_thr as u64 + 1) as u32,
        })
        .collect();
    thr.sort();
    thr.dedup();
    let mut d: Vec<u32> = thr
        .iter()
        .map(|_| match rng.below(12) {
            0 => 1,
            1 => max_diff,
            _ => rng.range(1, max_diff as u64) as u32,
        })
        .collect();
    d.sort();
    thr.into_iter().zip(d).collect()
}
pub fn build_defense(levels: &[(u32, u32)]) -> Defense {
    let mut b = DefenseBuilder::default();
    for (t, d) in levels {
        b.add_level(LevelBuilder::default().visitor_threshold(*t).difficulty_factor(*d).unwrap().build().unwrap())
            .unwrap();
    }
    b.build().unwrap()
}
pub fn build_mcaptcha(levels: &[(u32, u32)], duration: u64) -> MCaptcha {
    MCaptchaBuilder::default().defense(build_defense(levels)).duration(duration).build().unwrap()
}
pub fn levels_of(d: Defense) -> Vec<(u32, u32)> {
    let v: Vec<Level> = d.into();
    v.into_iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect()
}
/// (levels, duration, count, difficulty) as observable from outside
pub fn observe(m: &MCaptcha) -> (Vec<(u32, u32)>, u64, u32, u32) {
    (levels_of(m.get_defense()), m.get_duration(), m.get_visitors(), m.get_difficulty())
}
pub fn expect_of(s: &Site) -> (Vec<(u32, u32)>, u64, u32, u32) {
    (s.levels.clone(), s.duration, s.count, s.difficulty())
}

// ------------------------------------------------------------ state injection
fn leaves(v: &Value, path: String, out: &mut Vec<(String, Value)>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, format!("{path}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{path}/{i}"), out)),
        x => out.push((path, x.clone())),
    }
}
/// The site in the state it would have after `count` visitors all present at once on
/// `level`; found by comparing serialised states, so independent of field names.
pub fn inject(levels: &[(u32, u32)], duration: u64, count: u32, level: usize) -> Option<MCaptcha> {
    // find the leaf that counts visitors
    let mut probe = build_mcaptcha(&[(u32::MAX, 1)], 77);
    (0..6).for_each(|_| probe.add_visitor());
    let a = serde_json::to_value(&probe).ok()?;
    probe.add_visitor();
    let b = serde_json::to_value(&probe).ok()?;
    let (mut la, mut lb) = (vec![], vec![]);
    leaves(&a, String::new(), &mut la);
    leaves(&b, String::new(), &mut lb);
    let cpath: Vec<String> =
        la.iter().zip(&lb).filter(|(x, y)| x.1 == 6 && y.1 == 7).map(|(x, _)| x.0.clone()).collect();
    if cpath.len() != 1 {
        return None;
    }
    let mut m = build_mcaptcha(levels, duration);
    let mut v = serde_json::to_value(&m).ok()?;
    *v.pointer_mut(&cpath[0])? = count.into();
    if level > 0 {
        // find the leaf that holds the level: two-level probe that steps up
        let mut p = build_mcaptcha(&[(3, 1), (9, 2)], 77);
        (0..3).for_each(|_| p.add_visitor());
        let a = serde_json::to_value(&p).ok()?;
        p.add_visitor();
        let b = serde_json::to_value(&p).ok()?;
        let (mut la, mut lb) = (vec![], vec![]);
        leaves(&a, String::new(), &mut la);
        leaves(&b, String::new(), &mut lb);
        let lpath: Vec<String> =
            la.iter().zip(&lb).filter(|(x, y)| x.1 == 0 && y.1 == 1).map(|(x, _)| x.0.clone()).collect();
        if lpath.len() != 1 {
            return None;
        }
        *v.pointer_mut(&lpath[0])? = level.into();
    }
    m = serde_json::from_value(v).ok()?;
    if m.get_visitors() != count || m.get_difficulty() != levels[level].1 {
        return None;
    }
    Some(m)
}
