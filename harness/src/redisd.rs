//! A small in-memory server that speaks the Redis protocol on 127.0.0.1: what the `Redis` discovery client talks to.
//! Its clock is the harness's, it can delay, refuse or drop, and it logs the commands it executed.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use parking_lot::Mutex;
use rand::{rngs::StdRng, Rng, SeedableRng};
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
use tokio::net::{TcpListener, TcpStream};

type B = Vec<u8>;

#[derive(Clone, Debug)]
enum Val {
    Str(B),
    /// Member -> its own expiry.
    Set(BTreeMap<B, Option<u64>>),
    Hash(BTreeMap<B, B>),
    Scored(BTreeMap<B, f64>),
}

#[derive(Default)]
struct Db {
    keys: HashMap<B, (Val, Option<u64>)>,
}

#[derive(Default, Clone, Debug)]
pub struct Trouble {
    /// Chance that a command is answered with an error instead of being executed.
    pub refuse: f64,
    /// Chance that the connection ends before, and after, a command is executed.
    pub drop_before: f64,
    pub drop_after: f64,
    /// Delays before a command is executed, up to this many microseconds.
    pub delay_us: u64,
}

pub struct Server {
    pub url: String,
    db: Mutex<Db>,
    clock_ms: AtomicU64,
    pub trouble: Mutex<Trouble>,
    pub executed: AtomicU64,
    pub unknown: Mutex<Vec<String>>,
    pub log: Mutex<Vec<String>>,
    rng: Mutex<StdRng>,
}

enum R {
    Ok,
    Nil,
    Int(i64),
    Bulk(B),
    Many(Vec<R>),
    Err(String),
    Queued,
}

impl R {
    fn write(&self, out: &mut Vec<u8>) {
        match self {
            R::Ok => out.extend_from_slice(b"+OK\r\n"),
            R::Queued => out.extend_from_slice(b"+QUEUED\r\n"),
            R::Nil => out.extend_from_slice(b"$-1\r\n"),
            R::Int(i) => out.extend_from_slice(format!(":{i}\r\n").as_bytes()),
            R::Bulk(b) => {
                out.extend_from_slice(format!("${}\r\n", b.len()).as_bytes());
                out.extend_from_slice(b);
                out.extend_from_slice(b"\r\n");
            }
            R::Many(v) => {
                out.extend_from_slice(format!("*{}\r\n", v.len()).as_bytes());
                v.iter().for_each(|r| r.write(out));
            }
            R::Err(e) => out.extend_from_slice(format!("-ERR {e}\r\n").as_bytes()),
        }
    }
}

fn num(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

impl Server {
    pub async fn start(seed: u64) -> Arc<Self> {
        let l = TcpListener::bind("127.0.0.1:0").await.expect("loopback");
        let s = Arc::new(Self {
            url: format!("redis://{}/", l.local_addr().expect("address")),
            db: Mutex::default(),
            clock_ms: AtomicU64::new(1_000_000),
            trouble: Mutex::default(),
            executed: AtomicU64::new(0),
            unknown: Mutex::default(),
            log: Mutex::default(),
            rng: Mutex::new(StdRng::seed_from_u64(seed)),
        });
        let w = Arc::downgrade(&s);
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                let Some(s) = w.upgrade() else { return };
                tokio::spawn(async move {
                    let _ = s.serve(c).await;
                });
            }
        });
        s
    }
    pub fn advance_ms(&self, ms: u64) {
        self.clock_ms.fetch_add(ms, Ordering::SeqCst);
    }
    pub fn now_ms(&self) -> u64 {
        self.clock_ms.load(Ordering::SeqCst)
    }

    async fn serve(&self, c: TcpStream) -> std::io::Result<()> {
        c.set_nodelay(true)?;
        let (r, mut w) = c.into_split();
        let mut r = BufReader::new(r);
        let mut queue: Option<Vec<Vec<B>>> = None;
        let mut line = Vec::new();
        loop {
            line.clear();
            if r.read_until(b'\n', &mut line).await? == 0 {
                return Ok(());
            }
            let t = String::from_utf8_lossy(&line).trim().to_string();
            let Some(n) = t.strip_prefix('*').and_then(|n| n.parse::<usize>().ok()) else { return Ok(()) };
            let mut cmd: Vec<B> = vec![];
            for _ in 0..n {
                line.clear();
                r.read_until(b'\n', &mut line).await?;
                let t = String::from_utf8_lossy(&line).trim().to_string();
                let Some(n) = t.strip_prefix('$').and_then(|n| n.parse::<usize>().ok()) else { return Ok(()) };
                let mut b = vec![0; n + 2];
                r.read_exact(&mut b).await?;
                b.truncate(n);
                cmd.push(b);
            }
            let name = cmd.first().map_or(String::new(), |c| String::from_utf8_lossy(c).to_uppercase());
            let tr = self.trouble.lock().clone();
            let (refuse, before, after, delay) = {
                let mut g = self.rng.lock();
                (
                    g.gen_bool(tr.refuse),
                    g.gen_bool(tr.drop_before),
                    g.gen_bool(tr.drop_after),
                    if tr.delay_us > 0 { g.gen_range(0..tr.delay_us) } else { 0 },
                )
            };
            let setup = matches!(name.as_str(), "CLIENT" | "HELLO" | "PING" | "SELECT" | "AUTH" | "MULTI" | "DISCARD" | "WATCH" | "UNWATCH");
            if delay > 0 && !setup {
                tokio::time::sleep(Duration::from_micros(delay)).await;
            }
            if before && !setup {
                return Ok(());
            }
            let reply = match name.as_str() {
                "MULTI" => {
                    queue = Some(vec![]);
                    R::Ok
                }
                "DISCARD" => {
                    queue = None;
                    R::Ok
                }
                "WATCH" | "UNWATCH" => R::Ok,
                "EXEC" => match queue.take() {
                    Some(_) if refuse => R::Err("injected".into()),
                    Some(q) => {
                        let mut db = self.db.lock();
                        R::Many(q.into_iter().map(|c| self.run(&mut db, &c)).collect())
                    }
                    None => R::Err("EXEC without MULTI".into()),
                },
                _ => match &mut queue {
                    Some(q) => {
                        q.push(cmd);
                        R::Queued
                    }
                    None if refuse && !setup => R::Err("injected".into()),
                    None => self.run(&mut self.db.lock(), &cmd),
                },
            };
            if after && !setup {
                return Ok(());
            }
            let mut out = vec![];
            reply.write(&mut out);
            w.write_all(&out).await?;
        }
    }

    fn run(&self, db: &mut Db, cmd: &[B]) -> R {
        self.executed.fetch_add(1, Ordering::SeqCst);
        let now = self.now_ms();
        db.keys.retain(|_, (v, e)| {
            if let Val::Set(m) = v {
                m.retain(|_, e| e.is_none_or(|e| e > now));
                if m.is_empty() {
                    return false;
                }
            }
            e.is_none_or(|e| e > now)
        });
        {
            let mut l = self.log.lock();
            if l.len() < 3000 {
                l.push(cmd.iter().map(|c| String::from_utf8_lossy(c).chars().take(60).collect::<String>()).collect::<Vec<_>>().join(" "));
            }
        }
        let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
        let a = &cmd[1..];
        let arity = |n: usize| a.len() >= n;
        macro_rules! need {
            ($n:expr) => {
                if !arity($n) {
                    return R::Err(format!("wrong number of arguments for {name}"));
                }
            };
        }
        const WRONG: &str = "WRONGTYPE Operation against a key holding the wrong kind of value";
        macro_rules! set {
            ($k:expr) => {
                match db.keys.get_mut($k) {
                    None => None,
                    Some((Val::Set(m), _)) => Some(m),
                    Some(_) => return R::Err(WRONG.into()),
                }
            };
        }
        match name.as_str() {
            "PING" => R::Bulk(b"PONG".to_vec()),
            "CLIENT" | "SELECT" | "AUTH" => R::Ok,
            "HELLO" => R::Err("unknown command".into()),
            "FLUSHALL" | "FLUSHDB" => {
                db.keys.clear();
                R::Ok
            }
            "TIME" => R::Many(vec![R::Bulk((now / 1000).to_string().into_bytes()), R::Bulk((now % 1000 * 1000).to_string().into_bytes())]),
            "GET" => {
                need!(1);
                match db.keys.get(&a[0]) {
                    None => R::Nil,
                    Some((Val::Str(s), _)) => R::Bulk(s.clone()),
                    Some(_) => R::Err(WRONG.into()),
                }
            }
            "MGET" => R::Many(
                a.iter()
                    .map(|k| match db.keys.get(k) {
                        Some((Val::Str(s), _)) => R::Bulk(s.clone()),
                        _ => R::Nil,
                    })
                    .collect(),
            ),
            "SET" | "SETEX" | "PSETEX" => {
                need!(2);
                let (mut exp, mut nx, mut xx) = (None, false, false);
                let value = if name == "SET" {
                    let mut i = 2;
                    while i < a.len() {
                        match String::from_utf8_lossy(&a[i]).to_uppercase().as_str() {
                            o @ ("EX" | "PX" | "EXAT" | "PXAT") => {
                                let Some(n) = a.get(i + 1).and_then(|n| num(n)).filter(|n| *n > 0) else {
                                    return R::Err("invalid expire time in 'set' command".into());
                                };
                                let n = n as u64;
                                exp = Some(match o {
                                    "EX" => now + n * 1000,
                                    "PX" => now + n,
                                    "EXAT" => n * 1000,
                                    _ => n,
                                });
                                i += 1;
                            }
                            "NX" => nx = true,
                            "XX" => xx = true,
                            "KEEPTTL" => exp = db.keys.get(&a[0]).and_then(|k| k.1),
                            o => return R::Err(format!("syntax error at {o}")),
                        }
                        i += 1;
                    }
                    a[1].clone()
                } else {
                    need!(3);
                    let Some(n) = num(&a[1]).filter(|n| *n > 0) else { return R::Err("invalid expire time".into()) };
                    exp = Some(now + n as u64 * if name == "SETEX" { 1000 } else { 1 });
                    a[2].clone()
                };
                let there = db.keys.contains_key(&a[0]);
                if (nx && there) || (xx && !there) {
                    return R::Nil;
                }
                db.keys.insert(a[0].clone(), (Val::Str(value), exp));
                R::Ok
            }
            "SETNX" => {
                need!(2);
                if db.keys.contains_key(&a[0]) {
                    return R::Int(0);
                }
                db.keys.insert(a[0].clone(), (Val::Str(a[1].clone()), None));
                R::Int(1)
            }
            "GETDEL" => {
                need!(1);
                match db.keys.get(&a[0]) {
                    None => R::Nil,
                    Some((Val::Str(s), _)) => {
                        let s = s.clone();
                        db.keys.remove(&a[0]);
                        R::Bulk(s)
                    }
                    Some(_) => R::Err(WRONG.into()),
                }
            }
            "GETEX" => {
                need!(1);
                match db.keys.get(&a[0]) {
                    Some((Val::Str(s), _)) => R::Bulk(s.clone()),
                    _ => R::Nil,
                }
            }
            "INCR" | "DECR" | "INCRBY" | "DECRBY" => {
                need!(1);
                let by = a.get(1).and_then(|b| num(b)).unwrap_or(1) * if name.starts_with('D') { -1 } else { 1 };
                let (v, e) = match db.keys.get(&a[0]) {
                    None => (0, None),
                    Some((Val::Str(s), e)) => (num(s).unwrap_or(0), *e),
                    Some(_) => return R::Err(WRONG.into()),
                };
                db.keys.insert(a[0].clone(), (Val::Str((v + by).to_string().into_bytes()), e));
                R::Int(v + by)
            }
            "DEL" | "UNLINK" => R::Int(a.iter().filter(|k| db.keys.remove(*k).is_some()).count() as i64),
            "EXISTS" => R::Int(a.iter().filter(|k| db.keys.contains_key(*k)).count() as i64),
            "RENAME" => {
                need!(2);
                match db.keys.remove(&a[0]) {
                    Some(v) => {
                        db.keys.insert(a[1].clone(), v);
                        R::Ok
                    }
                    None => R::Err("no such key".into()),
                }
            }
            "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" => {
                need!(2);
                let Some(n) = num(&a[1]) else { return R::Err("value is not an integer".into()) };
                let n = n.max(0) as u64;
                let at = match name.as_str() {
                    "EXPIRE" => now + n * 1000,
                    "PEXPIRE" => now + n,
                    "EXPIREAT" => n * 1000,
                    _ => n,
                };
                match db.keys.get_mut(&a[0]) {
                    None => R::Int(0),
                    Some((_, e)) => {
                        *e = Some(at);
                        R::Int(1)
                    }
                }
            }
            "PERSIST" => {
                need!(1);
                R::Int(db.keys.get_mut(&a[0]).is_some_and(|k| k.1.take().is_some()).into())
            }
            "TTL" | "PTTL" => {
                need!(1);
                R::Int(match db.keys.get(&a[0]) {
                    None => -2,
                    Some((_, None)) => -1,
                    Some((_, Some(e))) => ((e - now) / if name == "TTL" { 1000 } else { 1 }) as i64,
                })
            }
            "EXPIREMEMBER" | "PEXPIREMEMBER" | "EXPIREMEMBERAT" => {
                need!(3);
                let Some(n) = num(&a[2]) else { return R::Err("value is not an integer".into()) };
                let unit = match a.get(3).map(|u| String::from_utf8_lossy(u).to_lowercase()).as_deref() {
                    Some("ms") => 1,
                    _ if name.starts_with('P') => 1,
                    _ => 1000,
                };
                let at = if name == "EXPIREMEMBERAT" { n as u64 * 1000 } else { now + n as u64 * unit };
                match set!(&a[0]).and_then(|m| m.get_mut(&a[1])) {
                    None => R::Int(0),
                    Some(e) => {
                        *e = Some(at);
                        R::Int(1)
                    }
                }
            }
            "SADD" => {
                need!(2);
                let m = match &mut db.keys.entry(a[0].clone()).or_insert((Val::Set(BTreeMap::new()), None)).0 {
                    Val::Set(m) => m,
                    _ => return R::Err(WRONG.into()),
                };
                R::Int(
                    a[1..]
                        .iter()
                        .filter(|x| {
                            let new = !m.contains_key(*x);
                            if new {
                                m.insert((*x).clone(), None);
                            }
                            new
                        })
                        .count() as i64,
                )
            }
            "SREM" => {
                need!(2);
                let Some(m) = set!(&a[0]) else { return R::Int(0) };
                let n = a[1..].iter().filter(|x| m.remove(*x).is_some()).count();
                if m.is_empty() {
                    db.keys.remove(&a[0]);
                }
                R::Int(n as i64)
            }
            "SCARD" => {
                need!(1);
                R::Int(set!(&a[0]).map_or(0, |m| m.len()) as i64)
            }
            "SISMEMBER" => {
                need!(2);
                R::Int(set!(&a[0]).is_some_and(|m| m.contains_key(&a[1])).into())
            }
            "SMISMEMBER" => {
                need!(2);
                let m = set!(&a[0]).map(|m| m.clone()).unwrap_or_default();
                R::Many(a[1..].iter().map(|x| R::Int(m.contains_key(x).into())).collect())
            }
            "SMEMBERS" => {
                need!(1);
                R::Many(set!(&a[0]).map_or(vec![], |m| m.keys().cloned().map(R::Bulk).collect()))
            }
            "SPOP" => {
                need!(1);
                match set!(&a[0]).and_then(|m| m.pop_first()) {
                    Some((k, _)) => R::Bulk(k),
                    None => R::Nil,
                }
            }
            "HSET" | "HMSET" => {
                need!(3);
                let m = match &mut db.keys.entry(a[0].clone()).or_insert((Val::Hash(BTreeMap::new()), None)).0 {
                    Val::Hash(m) => m,
                    _ => return R::Err(WRONG.into()),
                };
                let mut n = 0;
                for p in a[1..].chunks(2) {
                    n += i64::from(m.insert(p[0].clone(), p.get(1).cloned().unwrap_or_default()).is_none());
                }
                R::Int(n)
            }
            "HGET" => {
                need!(2);
                match db.keys.get(&a[0]) {
                    Some((Val::Hash(m), _)) => m.get(&a[1]).cloned().map_or(R::Nil, R::Bulk),
                    _ => R::Nil,
                }
            }
            "HDEL" => {
                need!(2);
                match db.keys.get_mut(&a[0]) {
                    Some((Val::Hash(m), _)) => R::Int(a[1..].iter().filter(|x| m.remove(*x).is_some()).count() as i64),
                    _ => R::Int(0),
                }
            }
            "HLEN" | "HGETALL" | "HKEYS" => {
                need!(1);
                let m = match db.keys.get(&a[0]) {
                    Some((Val::Hash(m), _)) => m.clone(),
                    _ => BTreeMap::new(),
                };
                match name.as_str() {
                    "HLEN" => R::Int(m.len() as i64),
                    "HKEYS" => R::Many(m.into_keys().map(R::Bulk).collect()),
                    _ => R::Many(m.into_iter().flat_map(|(k, v)| [R::Bulk(k), R::Bulk(v)]).collect()),
                }
            }
            "ZADD" => {
                need!(3);
                let m = match &mut db.keys.entry(a[0].clone()).or_insert((Val::Scored(BTreeMap::new()), None)).0 {
                    Val::Scored(m) => m,
                    _ => return R::Err(WRONG.into()),
                };
                let mut n = 0;
                for p in a[1..].chunks(2) {
                    let Some(score) = std::str::from_utf8(&p[0]).ok().and_then(|s| s.parse().ok()) else {
                        return R::Err("value is not a valid float".into());
                    };
                    n += i64::from(m.insert(p.get(1).cloned().unwrap_or_default(), score).is_none());
                }
                R::Int(n)
            }
            "ZREM" => {
                need!(2);
                match db.keys.get_mut(&a[0]) {
                    Some((Val::Scored(m), _)) => R::Int(a[1..].iter().filter(|x| m.remove(*x).is_some()).count() as i64),
                    _ => R::Int(0),
                }
            }
            "ZCARD" | "ZCOUNT" | "ZREMRANGEBYSCORE" => {
                need!(1);
                let bound = |b: Option<&B>, d: f64| match b.map(|b| String::from_utf8_lossy(b).to_string()).as_deref() {
                    None => d,
                    Some("-inf") => f64::NEG_INFINITY,
                    Some("+inf" | "inf") => f64::INFINITY,
                    Some(x) => x.trim_start_matches('(').parse().unwrap_or(d),
                };
                let open = |b: Option<&B>| b.is_some_and(|b| b.first() == Some(&b'('));
                let (lo, hi) = (bound(a.get(1), f64::NEG_INFINITY), bound(a.get(2), f64::INFINITY));
                let within = |s: f64| {
                    (if open(a.get(1)) { s > lo } else { s >= lo }) && (if open(a.get(2)) { s < hi } else { s <= hi })
                };
                match db.keys.get_mut(&a[0]) {
                    Some((Val::Scored(m), _)) => {
                        let n = m.values().filter(|s| within(**s)).count();
                        if name == "ZREMRANGEBYSCORE" {
                            m.retain(|_, s| !within(*s));
                        }
                        R::Int(n as i64)
                    }
                    _ => R::Int(0),
                }
            }
            "KEYS" => {
                need!(1);
                R::Many(db.keys.keys().filter(|k| glob(&a[0], k)).cloned().map(R::Bulk).collect())
            }
            "SCAN" => {
                let pat = a.iter().position(|x| x.eq_ignore_ascii_case(b"MATCH")).and_then(|i| a.get(i + 1)).cloned();
                let found = db.keys.keys().filter(|k| pat.as_ref().is_none_or(|p| glob(p, k))).cloned().map(R::Bulk).collect();
                R::Many(vec![R::Bulk(b"0".to_vec()), R::Many(found)])
            }
            "SSCAN" => {
                need!(1);
                let found = set!(&a[0]).map_or(vec![], |m| m.keys().cloned().map(R::Bulk).collect());
                R::Many(vec![R::Bulk(b"0".to_vec()), R::Many(found)])
            }
            "DBSIZE" => R::Int(db.keys.len() as i64),
            _ => {
                self.unknown.lock().push(name.clone());
                R::Err(format!("unknown command '{name}'"))
            }
        }
    }
}

/// `*` and `?` only.
fn glob(p: &[u8], s: &[u8]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (Some(b'*'), _) => glob(&p[1..], s) || (!s.is_empty() && glob(p, &s[1..])),
        (Some(b'?'), Some(_)) => glob(&p[1..], &s[1..]),
        (Some(b'\\'), Some(c)) if p.len() > 1 => p[1] == *c && glob(&p[2..], &s[1..]),
        (Some(a), Some(b)) if a == b => glob(&p[1..], &s[1..]),
        _ => false,
    }
}
