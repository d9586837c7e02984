//! A stand-in for Redis with the mCaptcha module: speaks RESP2 on loopback, runs on its own
//! threads, keeps a log of every command, has a clock of its own and fails on request.
use crate::model;
use crate::util::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Ok,
    Simple(String),
    Err(String),
    Int(i64),
    Bulk(Vec<u8>),
    Nil,
    NilArray,
    Arr(Vec<Reply>),
    Raw(Vec<u8>),
}
impl Reply {
    pub fn bulk(s: impl AsRef<[u8]>) -> Reply {
        Reply::Bulk(s.as_ref().to_vec())
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            Reply::Ok => o.extend(b"+OK\r\n"),
            Reply::Simple(s) => o.extend(format!("+{s}\r\n").bytes()),
            Reply::Err(s) => o.extend(format!("-{s}\r\n").bytes()),
            Reply::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
            Reply::Bulk(b) => {
                o.extend(format!("${}\r\n", b.len()).bytes());
                o.extend(b);
                o.extend(b"\r\n");
            }
            Reply::Nil => o.extend(b"$-1\r\n"),
            Reply::NilArray => o.extend(b"*-1\r\n"),
            Reply::Arr(v) => {
                o.extend(format!("*{}\r\n", v.len()).bytes());
                v.iter().for_each(|r| r.write(o));
            }
            Reply::Raw(b) => o.extend(b),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// not executed, answered with this
    Instead(Reply),
    /// connection closed before / after executing
    CloseBefore,
    CloseAfter,
    /// executed, half of the answer, then closed
    Torn,
    /// microseconds before executing / before answering
    Delay(u64, u64),
    /// not answered until the faults end (connection stays open)
    Hang,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub conn: u64,
    pub args: Vec<Vec<u8>>,
    pub reply: Option<Reply>,
    pub fault: Fault,
}
impl Entry {
    pub fn name(&self) -> String {
        String::from_utf8_lossy(&self.args[0]).to_uppercase()
    }
    pub fn texts(&self) -> Vec<String> {
        self.args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RSite {
    pub levels: Vec<(u32, u32)>,
    pub duration: u64,
    pub level: usize,
    pub visitors: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RChallenge {
    pub difficulty: u32,
    pub duration: u64,
    pub until: u64,
}
pub const COMMANDS: [&str; 9] = [
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
];
#[derive(Clone)]
pub struct State {
    /// the server's clock in ms
    pub now: u64,
    pub keys: HashMap<Vec<u8>, (Vec<u8>, Option<u64>)>,
    pub sites: BTreeMap<Vec<u8>, RSite>,
    pub challenges: HashMap<(Vec<u8>, Vec<u8>), RChallenge>,
    /// answer to MODULE LIST
    pub modules: Reply,
    pub missing: BTreeSet<String>,
    /// how COMMAND INFO says "no such command"
    pub absent: Reply,
}
type Plan = Box<dyn FnMut(&Entry) -> Fault + Send>;
pub struct Inner {
    pub st: Mutex<State>,
    log: Mutex<Vec<Entry>>,
    pub total: AtomicU64,
    plan: Mutex<Option<Plan>>,
    conns: Mutex<Vec<(u64, TcpStream)>>,
    /// 0 up, 1 accepts and closes at once
    sick: AtomicBool,
    stop: AtomicBool,
    ip: String,
    port: u16,
}
pub struct Fake {
    pub i: Arc<Inner>,
    accept: Mutex<Option<std::thread::JoinHandle<()>>>,
}

pub fn module(name: &str, path: &str) -> Reply {
    Reply::Arr(vec![
        Reply::bulk("name"),
        Reply::bulk(name),
        Reply::bulk("ver"),
        Reply::Int(10205),
        Reply::bulk("path"),
        Reply::bulk(path),
        Reply::bulk("args"),
        Reply::Arr(vec![]),
    ])
}
pub fn mcaptcha_module() -> Reply {
    module("mcaptcha_cache", "/usr/lib/redis/modules/libcache.so")
}

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Fake {
    pub fn new() -> Fake {
        // an address of its own: nobody can take the port while the server is down
        let n = NEXT.fetch_add(1, SeqCst) + (std::process::id() as u64 % 50) * 10_000;
        let ip = format!("127.{}.{}.{}", 1 + n / 62_500 % 250, n / 250 % 250, 1 + n % 250);
        let l = TcpListener::bind((ip.as_str(), 0)).expect("loopback");
        let port = l.local_addr().unwrap().port();
        let i = Arc::new(Inner {
            st: Mutex::new(State {
                now: 1_000_000,
                keys: HashMap::new(),
                sites: BTreeMap::new(),
                challenges: HashMap::new(),
                modules: Reply::Arr(vec![mcaptcha_module()]),
                missing: BTreeSet::new(),
                absent: Reply::NilArray,
            }),
            log: Mutex::new(vec![]),
            total: AtomicU64::new(0),
            plan: Mutex::new(None),
            conns: Mutex::new(vec![]),
            sick: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            ip,
            port,
        });
        let f = Fake { i, accept: Mutex::new(None) };
        f.listen(l);
        f
    }
    fn listen(&self, l: TcpListener) {
        let i = self.i.clone();
        *self.accept.lock().unwrap() = Some(std::thread::spawn(move || {
            let mut id = 0;
            for s in l.incoming() {
                if i.stop.load(SeqCst) {
                    break;
                }
                let Ok(s) = s else { continue };
                if i.sick.load(SeqCst) {
                    let _ = s.shutdown(Shutdown::Both);
                    continue;
                }
                id += 1;
                let _ = s.set_nodelay(true);
                let Ok(c) = s.try_clone() else { continue };
                i.conns.lock().unwrap().push((id, c));
                let i = i.clone();
                std::thread::spawn(move || {
                    i.serve(id, s);
                    i.conns.lock().unwrap().retain(|c| c.0 != id);
                });
            }
        }));
    }
    pub fn url(&self) -> String {
        format!("redis://{}:{}/", self.i.ip, self.i.port)
    }
    pub fn config(&self, cluster: bool) -> libmcaptcha::redis::RedisConfig {
        if cluster {
            libmcaptcha::redis::RedisConfig::Cluster(vec![self.url()])
        } else {
            libmcaptcha::redis::RedisConfig::Single(self.url())
        }
    }
    pub fn st<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        f(&mut self.i.st.lock().unwrap())
    }
    pub fn plan(&self, f: impl FnMut(&Entry) -> Fault + Send + 'static) {
        *self.i.plan.lock().unwrap() = Some(Box::new(f));
    }
    pub fn calm(&self) {
        *self.i.plan.lock().unwrap() = None;
    }
    /// one fault for the next command that is not connection housekeeping
    pub fn once(&self, f: Fault) {
        let mut f = Some(f);
        self.plan(move |_| f.take().unwrap_or(Fault::None));
    }
    /// random delays for every command
    pub fn jitter(&self, mut rng: Rng, max_us: u64) {
        self.plan(move |_| {
            if rng.chance(1, 3) {
                Fault::None
            } else {
                Fault::Delay(rng.below(max_us + 1), rng.below(max_us + 1))
            }
        });
    }
    pub fn take_log(&self) -> Vec<Entry> {
        std::mem::take(&mut *self.i.log.lock().unwrap())
    }
    /// no record of anything
    pub fn forget(&self) {
        self.take_log();
        self.st(|s| {
            s.keys.clear();
            s.sites.clear();
            s.challenges.clear();
        });
    }
    pub fn advance(&self, ms: u64) {
        self.st(|s| s.now += ms)
    }
    /// close every connection
    pub fn hang_up(&self) {
        for (_, c) in self.i.conns.lock().unwrap().drain(..) {
            let _ = c.shutdown(Shutdown::Both);
        }
    }
    /// connections are taken and closed at once
    pub fn sick(&self, on: bool) {
        self.i.sick.store(on, SeqCst);
        if on {
            self.hang_up();
        }
    }
    /// nothing listens any more
    pub fn down(&self) {
        let Some(h) = self.accept.lock().unwrap().take() else { return };
        self.i.stop.store(true, SeqCst);
        let _ = TcpStream::connect((self.i.ip.as_str(), self.i.port));
        let _ = h.join();
        self.hang_up();
    }
    pub fn up(&self) {
        self.i.stop.store(false, SeqCst);
        for _ in 0..200 {
            if let Ok(l) = TcpListener::bind((self.i.ip.as_str(), self.i.port)) {
                return self.listen(l);
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        panic!("cannot listen again");
    }
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.down();
    }
}

fn read_cmd(r: &mut BufReader<TcpStream>) -> std::io::Result<Option<Vec<Vec<u8>>>> {
    let bad = || std::io::Error::other("protocol");
    let mut line = String::new();
    if r.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    let n: usize = line.trim_end().strip_prefix('*').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let mut line = String::new();
        r.read_line(&mut line)?;
        let l: usize = line.trim_end().strip_prefix('$').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let mut b = vec![0; l + 2];
        r.read_exact(&mut b)?;
        b.truncate(l);
        v.push(b);
    }
    if v.is_empty() {
        v.push(vec![]);
    }
    Ok(Some(v))
}

impl Inner {
    fn serve(&self, conn: u64, s: TcpStream) {
        let Ok(r) = s.try_clone() else { return };
        let mut r = BufReader::new(r);
        let mut w = s;
        while let Ok(Some(args)) = read_cmd(&mut r) {
            let up = String::from_utf8_lossy(&args[0]).to_uppercase();
            let house = matches!(up.as_str(), "CLIENT" | "HELLO" | "CLUSTER" | "READONLY" | "AUTH" | "SELECT" | "INFO");
            let mut e = Entry { conn, args, reply: None, fault: Fault::None };
            if !house {
                self.total.fetch_add(1, SeqCst);
                if let Some(p) = self.plan.lock().unwrap().as_mut() {
                    e.fault = p(&e);
                }
            }
            let mut o = vec![];
            match e.fault.clone() {
                Fault::None => {}
                Fault::Delay(a, _) => nap(a),
                Fault::CloseBefore => {
                    self.log.lock().unwrap().push(e);
                    let _ = w.shutdown(Shutdown::Both);
                    return;
                }
                Fault::Hang => {
                    // until told to go on; the answers then come late, but in order
                    while self.plan.lock().unwrap().is_some() && !self.stop.load(SeqCst) {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                Fault::Instead(x) => e.reply = Some(x),
                Fault::CloseAfter | Fault::Torn => {}
            }
            {
                // the log has the order of execution
                let mut st = self.st.lock().unwrap();
                if e.reply.is_none() {
                    e.reply = Some(self.execute(&mut st, &up, &e.args));
                }
                if !house {
                    self.log.lock().unwrap().push(e.clone());
                }
            }
            e.reply.as_ref().unwrap().write(&mut o);
            match e.fault {
                Fault::CloseAfter => {
                    let _ = w.shutdown(Shutdown::Both);
                    return;
                }
                Fault::Torn => {
                    let _ = w.write_all(&o[..o.len() / 2]);
                    let _ = w.flush();
                    let _ = w.shutdown(Shutdown::Both);
                    return;
                }
                Fault::Delay(_, b) => nap(b),
                _ => {}
            }
            if w.write_all(&o).is_err() {
                return;
            }
        }
        let _ = w.shutdown(Shutdown::Both);
    }

    fn execute(&self, s: &mut State, up: &str, args: &[Vec<u8>]) -> Reply {
        let now = s.now;
        let a = &args[1..];
        let arity = |n: usize| a.len() == n;
        let wrong = || Reply::Err(format!("ERR wrong number of arguments for '{}' command", up.to_lowercase()));
        if s.missing.contains(up) {
            return Reply::Err(format!("ERR unknown command '{up}'"));
        }
        s.keys.retain(|_, v| v.1.map(|t| t > now).unwrap_or(true));
        s.challenges.retain(|_, c| c.until > now);
        for site in s.sites.values_mut() {
            site.visitors.retain(|v| *v > now);
        }
        let text = |b: &Vec<u8>| String::from_utf8(b.clone()).ok();
        let num = |b: Option<&Vec<u8>>| b.and_then(|b| std::str::from_utf8(b).ok()).and_then(|t| t.parse::<i64>().ok());
        match up {
            "PING" => Reply::Simple("PONG".into()),
            "CLIENT" | "READONLY" | "AUTH" | "SELECT" => Reply::Ok,
            "CLUSTER" => Reply::Arr(vec![Reply::Arr(vec![
                Reply::Int(0),
                Reply::Int(16383),
                Reply::Arr(vec![
                    Reply::bulk(&self.ip),
                    Reply::Int(self.port as i64),
                    Reply::bulk("0123456789012345678901234567890123456789"),
                ]),
            ])]),
            "MODULE" => s.modules.clone(),
            "COMMAND" => Reply::Arr(
                a.iter()
                    .skip(1)
                    .map(|c| {
                        let n = String::from_utf8_lossy(c).to_uppercase();
                        if COMMANDS.contains(&n.as_str()) && !s.missing.contains(&n) {
                            Reply::Arr(vec![
                                Reply::bulk(n.to_lowercase()),
                                Reply::Int(-1),
                                Reply::Arr(vec![Reply::Simple("write".into())]),
                                Reply::Int(1),
                                Reply::Int(1),
                                Reply::Int(1),
                            ])
                        } else {
                            s.absent.clone()
                        }
                    })
                    .collect(),
            ),
            "GET" if arity(1) => s.keys.get(&a[0]).map(|v| Reply::Bulk(v.0.clone())).unwrap_or(Reply::Nil),
            "GETDEL" if arity(1) => s.keys.remove(&a[0]).map(|v| Reply::Bulk(v.0)).unwrap_or(Reply::Nil),
            "DEL" | "UNLINK" if !a.is_empty() => {
                Reply::Int(a.iter().filter(|k| s.keys.remove(*k).is_some()).count() as i64)
            }
            "EXISTS" if !a.is_empty() => Reply::Int(a.iter().filter(|k| s.keys.contains_key(*k)).count() as i64),
            "EXPIRE" | "PEXPIRE" if a.len() >= 2 => {
                let Some(n) = num(a.get(1)) else { return Reply::Err("ERR value is not an integer".into()) };
                let ms = if up == "EXPIRE" { n.saturating_mul(1000) } else { n };
                match s.keys.get_mut(&a[0]) {
                    Some(v) => {
                        v.1 = Some(now.saturating_add(ms.max(0) as u64));
                        Reply::Int(1)
                    }
                    None => Reply::Int(0),
                }
            }
            "TTL" if arity(1) => match s.keys.get(&a[0]) {
                None => Reply::Int(-2),
                Some((_, None)) => Reply::Int(-1),
                Some((_, Some(t))) => Reply::Int(((t - now) / 1000) as i64),
            },
            "SETEX" | "PSETEX" if arity(3) => match num(a.get(1)) {
                Some(n) if n > 0 && n <= i64::MAX / 1000 => {
                    let ms = if up == "SETEX" { n as u64 * 1000 } else { n as u64 };
                    s.keys.insert(a[0].clone(), (a[2].clone(), Some(now + ms)));
                    Reply::Ok
                }
                Some(_) => Reply::Err("ERR invalid expire time in 'setex' command".into()),
                None => Reply::Err("ERR value is not an integer or out of range".into()),
            },
            "SET" if a.len() >= 2 => {
                let (mut until, mut nx, mut xx, mut k) = (None, false, false, 2);
                while k < a.len() {
                    match String::from_utf8_lossy(&a[k]).to_uppercase().as_str() {
                        "NX" => nx = true,
                        "XX" => xx = true,
                        o @ ("EX" | "PX" | "EXAT" | "PXAT") => {
                            k += 1;
                            let Some(n) = num(a.get(k)) else {
                                return Reply::Err("ERR value is not an integer or out of range".into());
                            };
                            if n <= 0 || (o.starts_with("EX") && n > i64::MAX / 1000 - 2_000_000) {
                                return Reply::Err("ERR invalid expire time in 'set' command".into());
                            }
                            until = Some(match o {
                                "EX" => now + n as u64 * 1000,
                                "PX" => now.saturating_add(n as u64),
                                "EXAT" => n as u64 * 1000,
                                _ => n as u64,
                            });
                        }
                        _ => return Reply::Err("ERR syntax error".into()),
                    }
                    k += 1;
                }
                let there = s.keys.contains_key(&a[0]);
                if (nx && there) || (xx && !there) {
                    return Reply::Nil;
                }
                s.keys.insert(a[0].clone(), (a[1].clone(), until));
                Reply::Ok
            }
            "MCAPTCHA_CACHE.ADD_CAPTCHA" => {
                if !arity(2) {
                    return wrong();
                }
                let Some(j) = text(&a[1]).and_then(|t| serde_json::from_str::<J>(&t).ok()) else {
                    return Reply::Err("ERR cannot parse captcha".into());
                };
                let Some((levels, duration)) = parse_captcha(&j) else {
                    return Reply::Err("ERR cannot parse captcha".into());
                };
                s.sites.insert(a[0].clone(), RSite { levels, duration, level: 0, visitors: vec![] });
                Reply::Ok
            }
            "MCAPTCHA_CACHE.ADD_VISITOR" => {
                if !arity(1) {
                    return wrong();
                }
                match s.sites.get_mut(&a[0]) {
                    None => Reply::Err("ERR mCaptcha not found".into()),
                    Some(x) => {
                        x.visitors.push(now + x.duration * 1000);
                        let t = model::target(&x.levels, x.visitors.len() as u32);
                        match t.cmp(&x.level) {
                            std::cmp::Ordering::Greater => x.level += 1,
                            std::cmp::Ordering::Less => x.level -= 1,
                            _ => {}
                        }
                        Reply::bulk(
                            json!({"duration": x.duration, "difficulty_factor": x.levels[x.level].1}).to_string(),
                        )
                    }
                }
            }
            "MCAPTCHA_CACHE.GET" => {
                if !arity(1) {
                    return wrong();
                }
                match s.sites.get(&a[0]) {
                    None => Reply::Err("ERR mCaptcha not found".into()),
                    Some(x) => Reply::Int(x.visitors.len() as i64),
                }
            }
            "MCAPTCHA_CACHE.CAPTCHA_EXISTS" => {
                if !arity(1) {
                    return wrong();
                }
                Reply::Int(!s.sites.contains_key(&a[0]) as i64)
            }
            "MCAPTCHA_CACHE.DELETE_CAPTCHA" => {
                if !arity(1) {
                    return wrong();
                }
                s.sites.remove(&a[0]).map(|_| Reply::Ok).unwrap_or(Reply::Err("ERR mCaptcha not found".into()))
            }
            "MCAPTCHA_CACHE.RENAME_CAPTCHA" => {
                if !arity(2) {
                    return wrong();
                }
                match s.sites.remove(&a[0]) {
                    None => Reply::Err("ERR mCaptcha not found".into()),
                    Some(x) => {
                        s.sites.insert(a[1].clone(), x);
                        Reply::Ok
                    }
                }
            }
            "MCAPTCHA_CACHE.ADD_CHALLENGE" => {
                if !arity(2) {
                    return wrong();
                }
                let j = text(&a[1]).and_then(|t| serde_json::from_str::<J>(&t).ok()).unwrap_or(J::Null);
                let (d, t, c) = (j["difficulty"].as_u64(), j["duration"].as_u64(), j["challenge"].as_str());
                match (d, t, c) {
                    (Some(d), Some(t), Some(c)) if d <= u32::MAX as u64 => {
                        s.challenges.insert(
                            (a[0].clone(), c.into()),
                            RChallenge {
                                difficulty: d as u32,
                                duration: t,
                                until: now.saturating_add(t.saturating_mul(1000)),
                            },
                        );
                        Reply::Ok
                    }
                    _ => Reply::Err("ERR cannot parse challenge".into()),
                }
            }
            "MCAPTCHA_CACHE.GET_CHALLENGE" => {
                if !arity(2) {
                    return wrong();
                }
                match s.challenges.remove(&(a[0].clone(), a[1].clone())) {
                    None => Reply::Err("ERR challenge not found".into()),
                    Some(c) => {
                        Reply::bulk(json!({"duration": c.duration, "difficulty_factor": c.difficulty}).to_string())
                    }
                }
            }
            "MCAPTCHA_CACHE.DELETE_CHALLENGE" => {
                if !arity(2) {
                    return wrong();
                }
                match s.challenges.remove(&(a[0].clone(), a[1].clone())) {
                    None => Reply::Err("ERR challenge not found".into()),
                    Some(_) => Reply::Ok,
                }
            }
            _ => Reply::Err(format!("ERR unknown command '{up}'")),
        }
    }
}
pub fn parse_captcha(j: &J) -> Option<(Vec<(u32, u32)>, u64)> {
    let u = |v: &J| v.as_u64().and_then(|x| u32::try_from(x).ok());
    let levels = j["levels"]
        .as_array()?
        .iter()
        .map(|l| Some((u(&l["visitor_threshold"])?, u(&l["difficulty_factor"])?)))
        .collect::<Option<Vec<_>>>()?;
    if levels.is_empty() {
        return None;
    }
    Some((levels, j["duration"].as_u64()?))
}
fn nap(us: u64) {
    if us < 60 {
        spin(us)
    } else {
        std::thread::sleep(Duration::from_micros(us))
    }
}
