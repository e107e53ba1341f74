//! P09, P16 and P17: permits, the whitelist and the choice of a broker, on both discovery back ends (a real SQLite
//! file; the Redis client against a server of ours), and the parts that brokers and marshals play in them.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use cdn_proto::connection::UserPublicKey;
use cdn_proto::discovery::embedded::Embedded;
use cdn_proto::discovery::redis::Redis;
use cdn_proto::discovery::{BrokerIdentifier, DiscoveryClient};
use cdn_proto::message::Message;
use cdn_proto::crypto::signature::Namespace;
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

use crate::disco::{Fault, Op};
use crate::group;
use crate::interpose;
use crate::net::Faults;
use crate::redisd::{Server, Trouble};
use crate::run::{Group, Rt, Scn};
use crate::world::{auth_with_key, now_secs, pk, secs, settle, Raw, World, VALID};

pub fn p09() -> Vec<Group> {
    vec![
        one(group!("permits-embedded", permits_sql, Rt::Real, 150, 2_000)),
        group!("permits-redis", permits_redis, Rt::Real, 300, 5_000),
        one(group!("permit-values-embedded", values_sql, Rt::Real, 8, 60)),
        group!("permit-values-redis", values_redis, Rt::Real, 8, 60),
        four(group!("permit-race-embedded", race_sql, Rt::Multi(4), 16, 500)),
        four(group!("permit-race-redis", race_redis, Rt::Multi(4), 40, 1_500)),
        four(group!("permit-race-redis-faults", race_redis_faults, Rt::Multi(4), 24, 800)),
    ]
}
pub fn p16() -> Vec<Group> {
    vec![
        group!("whitelist-embedded", list_sql, Rt::Real, 150, 1_000),
        group!("whitelist-redis", list_redis, Rt::Real, 300, 3_000),
        four(group!("whitelist-replaced-embedded", replace_sql, Rt::Multi(4), 8, 250)),
        four(group!("whitelist-replaced-redis", replace_redis, Rt::Multi(4), 24, 600)),
        group!("whitelist-enforced", enforced, Rt::Virtual, 160, 5_000),
    ]
}
/// What P08 needs of the back ends.
pub fn p08() -> Vec<Group> {
    vec![one(group!("reserved-embedded", reserved_sql, Rt::Real, 8, 20)), group!("reserved-redis", reserved_redis, Rt::Real, 8, 20)]
}
pub fn p17() -> Vec<Group> {
    vec![
        one(group!("choice-embedded", choice_sql, Rt::Real, 150, 2_000)),
        group!("choice-redis", choice_redis, Rt::Real, 400, 5_000),
        group!("choice-redis-meanwhile", choice_meanwhile, Rt::Multi(2), 40, 1_000),
        group!("registrations", registrations, Rt::Virtual, 400, 5_000),
    ]
}
/// The wall clock is the process's: one at a time.
fn one(mut g: Group) -> Group {
    g.par = 1;
    g
}
fn four(mut g: Group) -> Group {
    g.par = 4;
    g
}

// ---------------------------------------------------------------- the two back ends

pub(super) enum Bench {
    Sql(PathBuf),
    Redis(Arc<Server>),
}

impl Drop for Bench {
    fn drop(&mut self) {
        if let Self::Sql(p) = self {
            for suffix in ["", "-journal", "-wal", "-shm"] {
                let mut f = p.clone().into_os_string();
                f.push(suffix);
                let _ = std::fs::remove_file(f);
            }
        }
    }
}

impl Bench {
    pub fn sql() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let shm = PathBuf::from("/dev/shm");
        let dir = if shm.is_dir() { shm } else { std::env::temp_dir() };
        Self::Sql(dir.join(format!("pcv-{}-{}.sqlite", std::process::id(), N.fetch_add(1, Ordering::SeqCst))))
    }
    pub async fn redis(seed: u64) -> Self {
        Self::Redis(Server::start(seed).await)
    }
    pub fn path(&self) -> String {
        match self {
            Self::Sql(p) => p.display().to_string(),
            Self::Redis(s) => s.url.clone(),
        }
    }
    async fn client<D: DiscoveryClient>(&self, id: Option<&BrokerIdentifier>) -> Result<D, String> {
        tokio::time::timeout(Duration::from_secs(30), D::new(self.path(), id.cloned()))
            .await
            .map_err(|_| "no client within 30 s".to_string())?
            .map_err(|e| e.to_string())
    }
    /// Seconds, on the clock that the back end goes by.
    fn now(&self) -> f64 {
        match self {
            Self::Sql(_) => SystemTime::now().duration_since(UNIX_EPOCH).expect("after 1970").as_secs_f64(),
            Self::Redis(s) => s.now_ms() as f64 / 1e3,
        }
    }
    fn advance(&self, s: f64) {
        match self {
            Self::Sql(_) => interpose::shift_realtime_secs(s),
            Self::Redis(r) => r.advance_ms((s * 1e3) as u64),
        }
    }
    /// A client that needs commands our server does not know cannot be judged.
    pub fn usable(&self, s: &mut Scn) -> bool {
        if let Self::Redis(r) = self {
            if let Some(u) = r.unknown.lock().first() {
                s.inconclusive(format!("the Redis client uses {u}"));
                return false;
            }
        }
        true
    }
}

/// When something expires: known up to how long the call took.
#[derive(Clone, Copy, Debug)]
struct Until(f64, f64);
impl Until {
    fn live(self, now: f64) -> bool {
        now < self.0
    }
    fn dead(self, now: f64) -> bool {
        now > self.1
    }
}

fn brokers(rng: &mut StdRng) -> Vec<BrokerIdentifier> {
    let hosts = ["127.0.0.1:1738", "127.0.0.1:17380", "a.example:1", "a%example:1", "b'; --:2", "ü.example:3", "*:4", "A.example:1"];
    let mut v: Vec<BrokerIdentifier> = hosts
        .choose_multiple(rng, 4)
        .map(|h| BrokerIdentifier {
            public_advertise_endpoint: (*h).to_string(),
            private_advertise_endpoint: format!("{h}0"),
        })
        .collect();
    // One that differs in the private endpoint only.
    let mut t = v[0].clone();
    t.private_advertise_endpoint.push('1');
    v.push(t);
    v
}
fn some_key(rng: &mut StdRng) -> Vec<u8> {
    let n = [1, 2, 32, 33, 128, 500][rng.gen_range(0..6)];
    let mut v: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
    if rng.gen_bool(0.2) {
        v[0] = 0;
    }
    v
}

// ---------------------------------------------------------------- P09: histories

async fn permits_sql(s: &mut Scn) {
    let b = Bench::sql();
    permits::<Embedded>(s, &b).await;
}
async fn permits_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    permits::<Redis>(s, &b).await;
}

struct Permit {
    broker: usize,
    value: u64,
    key: Vec<u8>,
    until: Until,
    used: bool,
}

async fn permits<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let mut rng = s.rng.clone();
    let ids = brokers(&mut rng);
    let mut clients: Vec<D> = vec![];
    for i in 0..4 {
        match bench.client(ids.get(i)).await {
            Ok(c) => clients.push(c),
            Err(e) => return s.inconclusive(format!("no client: {e}")),
        }
    }
    let mut all: Vec<Permit> = vec![];
    for _ in 0..rng.gen_range(20..60) {
        let c = rng.gen_range(0..clients.len());
        match rng.gen_range(0..12) {
            0 => {
                // A process restarts.
                let Ok(n) = bench.client(ids.get(c)).await else { return s.inconclusive("no new client") };
                clients[c] = n;
            }
            1 => {
                let d = [0.7, 3.0, 12.0, 31.0][rng.gen_range(0..4)];
                bench.advance(d);
                s.log(format!("{d} s pass"));
            }
            2..=5 => {
                let broker = rng.gen_range(0..ids.len());
                let key = if all.is_empty() || rng.gen_bool(0.7) { some_key(&mut rng) } else { all[rng.gen_range(0..all.len())].key.clone() };
                let secs = [1, 5, 30, 30, 60][rng.gen_range(0..5)];
                let t0 = bench.now();
                let r = clients[c].issue_permit(&ids[broker], Duration::from_secs(secs), key.clone()).await;
                let t1 = bench.now();
                let Ok(value) = r else {
                    if bench.usable(s) {
                        s.fail("a permit is not issued", format!("{r:?}"));
                    }
                    return;
                };
                s.ev("permits_issued", 1);
                s.log(format!("permit {value} for broker {broker}, {secs} s"));
                s.check(!all.iter().any(|p| p.value == value && p.broker == broker), "a permit is issued twice", || format!("{value}"));
                all.push(Permit { broker, value, key, until: Until(t0 + secs as f64, t1 + secs as f64), used: false });
            }
            _ => {
                // An attempt; often at a real permit, sometimes at another broker, or at something never issued.
                let pick = if all.is_empty() { None } else { Some(rng.gen_range(0..all.len())) };
                let (broker, value) = match (pick, rng.gen_range(0..12)) {
                    (Some(i), 0..=6) => (all[i].broker, all[i].value),
                    (Some(i), 7..=8) => (rng.gen_range(0..ids.len()), all[i].value),
                    (Some(i), 9) => (all[i].broker, all[i].value ^ (1 << rng.gen_range(0..64))),
                    (Some(i), 10) => (all[i].broker, all[i].value.wrapping_add(1 << 32)),
                    _ => (rng.gen_range(0..ids.len()), [0, 1, 2, u64::MAX, u64::from(u32::MAX), 1 << 32][rng.gen_range(0..6)]),
                };
                let t0 = bench.now();
                let r = clients[c].validate_permit(&ids[broker], value).await;
                let t1 = bench.now();
                if !bench.usable(s) {
                    return;
                }
                s.ev("redemptions_tried", 1);
                let p = all.iter_mut().find(|p| p.broker == broker && p.value == value);
                let got = r.as_ref().ok().and_then(Clone::clone);
                let what = format!("permit {value} at broker {broker}: {r:?}");
                s.log(what.clone());
                match p {
                    None => {
                        let elsewhere = all.iter().any(|p| p.value == value);
                        let sig = if elsewhere { "a permit works at another broker" } else { "a permit that was never issued works" };
                        s.check(got.is_none(), sig, || what);
                        s.state(("none", elsewhere));
                    }
                    Some(p) if p.used => {
                        s.check(got.is_none(), "a permit works twice", || what);
                        s.state("again");
                    }
                    Some(p) if p.until.dead(t0) => {
                        s.check(got.is_none(), "a permit works after it expired", || what);
                        s.state("expired");
                    }
                    Some(p) => {
                        let (key, certain) = (p.key.clone(), p.until.live(t1));
                        if got.is_some() || certain {
                            p.used = true;
                        }
                        if certain {
                            s.check(got.is_some(), "a valid permit is refused", || what.clone());
                            s.ev("permits_redeemed", 1);
                        }
                        s.check(got.is_none() || got.as_ref() == Some(&key), "a permit yields another key", || what);
                        s.state(("good", key.len(), certain));
                    }
                }
            }
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- P08, P09: the values

/// States of this thread's source of randomness from which a generator seeded next yields 0 or 1 as its first 32 bits
/// (found by search).
const SMALL: [u64; 8] = [
    4398421861986,
    7696978427564,
    3299224125679,
    5498504401942,
    6598044037235,
    8797106404398,
    1100859900965,
    6598609658258,
];

async fn reserved_sql(s: &mut Scn) {
    reserved::<Embedded>(s, &Bench::sql()).await;
}
async fn reserved_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    reserved::<Redis>(s, &b).await;
}
/// None of the values that mean refusal and success is ever issued, whatever the randomness.
async fn reserved<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let ids = brokers(&mut s.rng);
    let Ok(mut c) = bench.client::<D>(None).await else { return s.inconclusive("no client") };
    for state in SMALL {
        let key = some_key(&mut s.rng);
        interpose::set_thread_state(state);
        let r = c.issue_permit(&ids[0], Duration::from_secs(30), key).await;
        interpose::set_thread_state(0);
        if !bench.usable(s) {
            return;
        }
        s.ev("permits_issued", 1);
        s.ev("permits_from_chosen_randomness", 1);
        s.state(state);
        match r {
            Ok(v) => {
                s.check(v > 1, "a reserved value is issued as a permit", || format!("{v}, from randomness {state}"));
            }
            // (A value drawn twice.)
            Err(_) => s.ev("not_issued", 1),
        }
    }
}

async fn values_sql(s: &mut Scn) {
    let b = Bench::sql();
    values::<Embedded>(s, &b).await;
    repeated::<Embedded>(s, &b).await;
}
async fn values_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    values::<Redis>(s, &b).await;
}
/// Permits tell nothing about other permits.
async fn values<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let ids = brokers(&mut s.rng);
    let mut all = vec![];
    for round in 0..4 {
        let Ok(mut c) = bench.client::<D>(ids.get(round)).await else { return s.inconclusive("no client") };
        for _ in 0..50 {
            let key = some_key(&mut s.rng);
            let r = c.issue_permit(&ids[0], Duration::from_secs(30), key).await;
            if !bench.usable(s) {
                return;
            }
            match r {
                Ok(v) => all.push(v),
                Err(e) => return s.fail("a permit is not issued", e.to_string()),
            }
        }
    }
    s.ev("permits_issued", all.len() as u64);
    for bit in 0..31 {
        let n = all.iter().filter(|v| *v >> bit & 1 == 1).count();
        s.state((bit, n / 10));
        s.check((40..=160).contains(&n), "permits are predictable", || format!("bit {bit} is set in {n} of {} permits", all.len()));
    }
    let mut steps: HashMap<u64, usize> = HashMap::new();
    for w in all.windows(2) {
        *steps.entry(w[1].wrapping_sub(w[0])).or_default() += 1;
    }
    let (step, n) = steps.iter().max_by_key(|x| x.1).expect("some");
    s.check(*n <= 2, "permits are predictable", || format!("{n} of {} permits are the one before plus {step}", all.len()));
}
/// A value that is drawn while a permit of the same value is outstanding.
async fn repeated<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let ids = brokers(&mut s.rng);
    let Ok(mut c) = bench.client::<D>(None).await else { return s.inconclusive("no client") };
    for _ in 0..4 {
        let state = s.rng.gen::<u64>() | 1;
        let mut issued: Vec<(usize, u64, Vec<u8>)> = vec![];
        for i in [0, 1, 0, 2, 0, 1] {
            let key = some_key(&mut s.rng);
            interpose::set_thread_state(state);
            let r = c.issue_permit(&ids[i], Duration::from_secs(30), key.clone()).await;
            interpose::set_thread_state(0);
            match r {
                Ok(v) => {
                    s.ev("permits_issued", 1);
                    s.check(!issued.iter().any(|x| x.0 == i && x.1 == v), "a permit is issued twice", || format!("{v} at {i}"));
                    issued.push((i, v, key));
                }
                Err(_) => s.ev("not_issued", 1),
            }
        }
        s.state((issued.len(), issued.iter().map(|x| x.1).collect::<HashSet<_>>().len()));
        issued.shuffle(&mut s.rng);
        for (i, v, key) in issued {
            let r = c.validate_permit(&ids[i], v).await;
            s.ev("redemptions_tried", 1);
            s.check(matches!(&r, Ok(Some(k)) if *k == key), "a permit yields another key", || {
                format!("permit {v} at broker {i}, where the same value was drawn several times: {r:?}")
            });
        }
    }
}

// ---------------------------------------------------------------- P09: races

async fn race_sql(s: &mut Scn) {
    let b = Bench::sql();
    race::<Embedded>(s, &b, false).await;
}
async fn race_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    if let Bench::Redis(r) = &b {
        r.trouble.lock().delay_us = s.rng.gen_range(0..1500);
    }
    race::<Redis>(s, &b, false).await;
}
async fn race_redis_faults(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    race::<Redis>(s, &b, true).await;
}

async fn race<D: DiscoveryClient>(s: &mut Scn, bench: &Bench, faults: bool) {
    let mut rng = s.rng.clone();
    let ids = brokers(&mut rng);
    let mut clients: Vec<(usize, D)> = vec![];
    for i in 0..8 {
        match bench.client(Some(&ids[i % ids.len()])).await {
            Ok(c) => clients.push((i % ids.len(), c)),
            Err(e) => return s.inconclusive(format!("no client: {e}")),
        }
    }
    for round in 0..6 {
        // Several permits, each tried by many at once: at its broker and, now and then, elsewhere.
        let mut permits = vec![];
        for _ in 0..rng.gen_range(1..4) {
            let broker = rng.gen_range(0..ids.len());
            let key = some_key(&mut rng);
            let (_, c) = &mut clients[0];
            match c.issue_permit(&ids[broker], Duration::from_secs(30), key.clone()).await {
                Ok(v) => permits.push((broker, v, key)),
                Err(e) => {
                    if bench.usable(s) {
                        s.inconclusive(format!("a permit is not issued: {e}"));
                    }
                    return;
                }
            }
        }
        if let (true, Bench::Redis(r)) = (faults, bench) {
            *r.trouble.lock() = Trouble { refuse: 0.1, drop_before: 0.1, drop_after: 0.15, delay_us: 800 };
        }
        let mut tasks = vec![];
        for (pi, (broker, value, _)) in permits.iter().enumerate() {
            for k in 0..10 {
                let (_, c) = clients.choose(&mut rng).expect("non-empty");
                let mut c = c.clone();
                let at = if k % 5 == 4 { (broker + 1) % ids.len() } else { *broker };
                let (id, value, right) = (ids[at].clone(), *value, at == *broker);
                let tries = if faults { 3 } else { 1 };
                tasks.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for _ in 0..tries {
                        let r = tokio::time::timeout(Duration::from_secs(20), c.validate_permit(&id, value)).await;
                        out.push((pi, right, r.map_err(|_| "timeout".to_string()).and_then(|r| r.map_err(|e| e.to_string()))));
                    }
                    out
                }));
            }
        }
        let mut won = vec![0u64; permits.len()];
        let mut errors = vec![0u64; permits.len()];
        let mut order = vec![];
        for t in tasks {
            let Ok(rs) = t.await else { return s.inconclusive("an attempt panicked") };
            for (pi, right, r) in rs {
                s.ev("racing_redemptions", 1);
                order.push((pi, right, matches!(r, Ok(Some(_)))));
                match r {
                    Ok(Some(k)) => {
                        s.check(right, "a permit works at another broker", || format!("permit {}", permits[pi].1));
                        s.check(k == permits[pi].2, "a permit yields another key", || format!("permit {}", permits[pi].1));
                        won[pi] += 1;
                    }
                    Ok(None) => {}
                    Err(_) if right => errors[pi] += 1,
                    Err(_) => {}
                }
            }
        }
        if let Bench::Redis(r) = bench {
            r.trouble.lock().refuse = 0.0;
            r.trouble.lock().drop_before = 0.0;
            r.trouble.lock().drop_after = 0.0;
        }
        if !bench.usable(s) {
            return;
        }
        s.ev("failed_calls", errors.iter().sum());
        s.state((round, order));
        for (pi, n) in won.iter().enumerate() {
            s.check(*n <= 1, "a permit works twice", || format!("{n} of the attempts at permit {} succeeded", permits[pi].1));
            if errors[pi] == 0 {
                s.check(*n == 1, "a valid permit is refused", || format!("no attempt at permit {} succeeded", permits[pi].1));
            }
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- P17

async fn choice_sql(s: &mut Scn) {
    let b = Bench::sql();
    choice::<Embedded>(s, &b).await;
}
async fn choice_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    choice::<Redis>(s, &b).await;
}

async fn choice<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let mut rng = s.rng.clone();
    let ids = brokers(&mut rng);
    let mut clients: Vec<D> = vec![];
    for id in ids.iter().map(Some).chain([None]) {
        match bench.client(id).await {
            Ok(c) => clients.push(c),
            Err(e) => return s.inconclusive(format!("no client: {e}")),
        }
    }
    let name = |b: &BrokerIdentifier| ids.iter().position(|i| i == b);
    let mut reg: BTreeMap<usize, (u64, Until)> = BTreeMap::new();
    let mut permits: Vec<(usize, u64, Until)> = vec![];
    for _ in 0..rng.gen_range(25..60) {
        match rng.gen_range(0..14) {
            0..=2 => {
                let b = rng.gen_range(0..ids.len());
                let (n, secs) = (if rng.gen_bool(0.8) { rng.gen_range(0..5) } else { rng.gen_range(0..100_000) }, [5, 20, 60][rng.gen_range(0..3)]);
                let t0 = bench.now();
                let r = clients[b].perform_heartbeat(n, Duration::from_secs(secs)).await;
                let t1 = bench.now();
                if let Err(e) = r {
                    if bench.usable(s) {
                        s.fail("a heartbeat is not registered", e.to_string());
                    }
                    return;
                }
                s.ev("heartbeats", 1);
                s.log(format!("broker {b}: {n} users, {secs} s"));
                reg.insert(b, (n, Until(t0 + secs as f64, t1 + secs as f64)));
            }
            3 | 4 => {
                let d = [0.6, 2.0, 7.0, 25.0, 61.0][rng.gen_range(0..5)];
                bench.advance(d);
                s.log(format!("{d} s pass"));
            }
            5..=7 => {
                let b = rng.gen_range(0..ids.len());
                let secs = [3, 30][rng.gen_range(0..2)];
                let t0 = bench.now();
                let r = clients[ids.len()].issue_permit(&ids[b], Duration::from_secs(secs), some_key(&mut rng)).await;
                let t1 = bench.now();
                match r {
                    Ok(v) => permits.push((b, v, Until(t0 + secs as f64, t1 + secs as f64))),
                    Err(_) => return,
                }
                s.log(format!("a permit for broker {b}, {secs} s"));
            }
            8 if !permits.is_empty() => {
                let i = rng.gen_range(0..permits.len());
                let (b, v, _) = permits.swap_remove(i);
                let r = clients[b].validate_permit(&ids[b], v).await;
                s.log(format!("a permit for broker {b} is redeemed: {}", matches!(r, Ok(Some(_)))));
            }
            9 if !permits.is_empty() => {
                // An attempt at another broker changes nobody's number.
                let (b, v, _) = permits[rng.gen_range(0..permits.len())];
                let o = (b + 1) % ids.len();
                let _ = clients[o].validate_permit(&ids[o], v).await;
            }
            10 => {
                let b = rng.gen_range(0..clients.len());
                let t0 = bench.now();
                let r = clients[b].get_other_brokers().await;
                let t1 = bench.now();
                if !bench.usable(s) {
                    return;
                }
                let Ok(got) = r else {
                    s.fail("the other brokers cannot be listed", format!("{r:?}"));
                    return;
                };
                s.ev("lists_checked", 1);
                let listed: BTreeSet<Option<usize>> = got.iter().map(|i| name(i)).collect();
                s.state(("others", listed.clone(), b));
                for l in &listed {
                    let ok = l.is_some_and(|l| l != b && reg.get(&l).is_some_and(|r| !r.1.dead(t0)));
                    s.check(ok, "the list of other brokers has one too many", || format!("{l:?} in {got:?} for broker {b} of {reg:?} at {t0}"));
                }
                for (l, (_, u)) in reg.iter().filter(|(l, _)| **l != b) {
                    s.check(!u.live(t1) || listed.contains(&Some(*l)), "the list of other brokers misses one", || {
                        format!("{l} not in {got:?} for broker {b} of {reg:?} at {t1}")
                    });
                }
            }
            _ => {
                let t0 = bench.now();
                let r = clients[rng.gen_range(0..ids.len() + 1)].get_with_least_connections().await;
                let t1 = bench.now();
                if !bench.usable(s) {
                    return;
                }
                s.ev("choices_checked", 1);
                let load = |b: usize, n: u64| {
                    let of = |f: &dyn Fn(Until) -> bool| permits.iter().filter(|p| p.0 == b && f(p.2)).count() as u64;
                    (n + of(&|u| u.live(t1)), n + of(&|u| !u.dead(t0)))
                };
                let certain: Vec<usize> = reg.iter().filter(|(_, r)| r.1.live(t1)).map(|(b, _)| *b).collect();
                let possible: Vec<usize> = reg.iter().filter(|(_, r)| !r.1.dead(t0)).map(|(b, _)| *b).collect();
                let view = || {
                    reg.iter().map(|(b, (n, u))| format!("{b}: {:?} until {:.2}", load(*b, *n), u.0)).collect::<Vec<_>>().join(", ")
                };
                s.log(format!("least: {:?} of {}", r.as_ref().map(|b| name(b)), view()));
                s.state((certain.len(), permits.len(), r.is_ok()));
                match &r {
                    Ok(b) => match name(b).filter(|b| possible.contains(b)) {
                        None => s.fail("the broker named is not registered", format!("{b}, now {t0:.2}, registered (users and permits): {}", view())),
                        Some(b) => {
                            let mine = load(b, reg[&b].0).0;
                            for o in &certain {
                                let (_, most) = load(*o, reg[o].0);
                                s.check(most >= mine, "a broker with fewer users and permits is passed over", || format!("{b} is named; {}", view()));
                            }
                        }
                    },
                    Err(e) => {
                        s.check(certain.is_empty(), "no broker is named although some are registered", || format!("{e}; now {t0:.2}, {}", view()));
                    }
                }
            }
        }
        if s.failed() {
            return;
        }
    }
}

/// Registrations expire while the choice is being made: a live one is still named.
async fn choice_meanwhile(s: &mut Scn) {
    let bench = Bench::redis(s.seed).await;
    let Bench::Redis(server) = &bench else { return };
    let mut rng = s.rng.clone();
    let ids = brokers(&mut rng);
    let mut live: Redis = match bench.client(Some(&ids[0])).await {
        Ok(c) => c,
        Err(e) => return s.inconclusive(e),
    };
    let mut dying: Redis = match bench.client(Some(&ids[1])).await {
        Ok(c) => c,
        Err(e) => return s.inconclusive(e),
    };
    for _ in 0..12 {
        let _ = live.perform_heartbeat(rng.gen_range(0..9), Duration::from_secs(1000)).await;
        let _ = dying.perform_heartbeat(rng.gen_range(0..9), Duration::from_secs(5)).await;
        server.trouble.lock().delay_us = 600;
        let server2 = server.clone();
        let wait = rng.gen_range(0..4000);
        let ticker = tokio::spawn(async move {
            tokio::time::sleep(Duration::from_micros(wait)).await;
            server2.advance_ms(6000);
        });
        let r = live.get_with_least_connections().await;
        let _ = ticker.await;
        server.trouble.lock().delay_us = 0;
        if !bench.usable(s) {
            return;
        }
        s.ev("choices_during_expiry", 1);
        s.state((r.is_ok(), wait / 100));
        s.check(r.is_ok(), "no broker is named although some are registered", || {
            format!("while another's registration expires: {r:?}; {:?}", server.log.lock().iter().rev().take(8).collect::<Vec<_>>())
        });
        server.advance_ms(6000);
        if s.failed() {
            return;
        }
    }
}

/// What brokers themselves register: at once, kept up, with the current count, and no longer once they are gone.
async fn registrations(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let w = World::new(s.seed, Faults::default());
    let mut brokers = vec![];
    for n in ["b1", "b2", "b3"].iter().take(rng.gen_range(1..4)) {
        let b = w.broker(n).await;
        secs(1.5).await;
        let there = w.svc.st.lock().brokers.contains_key(&b.id.to_string());
        s.check(there, "a broker is not registered after its first heartbeat", || b.name.clone());
        brokers.push(b);
        secs(rng.gen_range(0.0..4.0)).await;
    }
    let (marshal, _task) = w.marshal("m", None).await;
    let mut users: Vec<(usize, Raw)> = vec![];
    let mut key = 100;
    for _ in 0..rng.gen_range(2..7) {
        match rng.gen_range(0..4) {
            0 | 1 => {
                for _ in 0..rng.gen_range(1..4) {
                    let b = rng.gen_range(0..brokers.len());
                    key += 1;
                    match w.user(&brokers[b].id, key, &[VALID[0]]).await {
                        Ok(u) => users.push((b, u)),
                        Err(e) => return s.inconclusive(e),
                    }
                }
            }
            2 => {
                if !users.is_empty() {
                    let i = rng.gen_range(0..users.len());
                    users.swap_remove(i).1.hang_up();
                }
            }
            _ => {
                if brokers.len() > 1 && rng.gen_bool(0.5) {
                    let i = brokers.len() - 1;
                    let b = brokers.pop().expect("non-empty");
                    let id = b.id.to_string();
                    let last = w.svc.calls(Op::Heartbeat).iter().filter(|c| c.who == id).map(|c| c.at).max();
                    w.crash(b).await;
                    users.retain(|u| u.0 != i);
                    // It stays registered for the expiry it gave, and no longer.
                    secs(75.0).await;
                    let now = tokio::time::Instant::now();
                    let gone = w.svc.st.lock().brokers.get(&id).is_none_or(|b| b.1 <= now);
                    s.check(gone, "a broker is still registered long after its last heartbeat", || format!("{id}, last heartbeat {:?} ago", last.map(|l| now - l)));
                    s.ev("brokers_gone", 1);
                }
            }
        }
        // By the next heartbeat.
        secs(12.0).await;
        let now = tokio::time::Instant::now();
        for (i, b) in brokers.iter().enumerate() {
            let n = users.iter().filter(|u| u.0 == i).count() as u64;
            let st = w.svc.st.lock().brokers.get(&b.id.to_string()).copied();
            s.ev("registrations_checked", 1);
            s.state((i, n));
            s.check(st.is_some_and(|x| x.1 > now + Duration::from_secs(15)), "a live broker's registration is not kept up", || {
                format!("{}: {:?}", b.name, st.map(|x| x.1.saturating_duration_since(now)))
            });
            s.check(st.is_some_and(|x| x.0 == n), "a broker registers another number of users than it has", || {
                format!("{}: {:?}, has {n}", b.name, st.map(|x| x.0))
            });
        }
        // And the marshal sends a new user where discovery says.
        let loads: BTreeMap<String, u64> = w.svc.st.lock().brokers.iter().filter(|b| b.1 .1 > now).map(|(b, x)| (b.clone(), x.0)).collect();
        w.svc.st.lock().permits.clear();
        key += 1;
        let Ok(mut r) = w.raw(&marshal).await else { return s.inconclusive("the marshal does not answer") };
        r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
        match r.next(Duration::from_secs(10)).await {
            Some(Message::AuthenticateResponse(a)) if a.permit > 1 => {
                s.ev("users_directed", 1);
                let to = loads.iter().find(|(b, _)| b.split('/').next() == Some(a.context.as_str()));
                let least = loads.values().min();
                s.check(to.is_some_and(|t| Some(t.1) == least), "the marshal names another broker than the least loaded", || {
                    format!("{} of {loads:?}", a.context)
                });
                // The permit is for that broker.
                let of = w.svc.st.lock().permits.keys().find(|(_, p)| *p == a.permit).map(|k| k.0.clone());
                s.check(of.as_ref() == to.map(|t| t.0), "the permit is for another broker than the one named", || format!("{of:?} {}", a.context));
            }
            x => s.fail("a user is not admitted", format!("{x:?}")),
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- P16: the list

async fn list_sql(s: &mut Scn) {
    let b = Bench::sql();
    list::<Embedded>(s, &b).await;
}
async fn list_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    list::<Redis>(s, &b).await;
}

fn upk(k: &[u8]) -> UserPublicKey {
    UserPublicKey::from(k.to_vec())
}

fn key_pool(rng: &mut StdRng) -> Vec<Vec<u8>> {
    let mut pool: Vec<Vec<u8>> = (0..8).map(|_| some_key(rng)).collect();
    // Some that differ little.
    let mut k = pool[0].clone();
    k.push(0);
    pool.push(k);
    let mut k = pool[1].clone();
    k[0] ^= 0x20;
    pool.push(k);
    pool.push(b"whitelist".to_vec());
    pool.push(b"'); DROP TABLE whitelist; --".to_vec());
    pool.sort();
    pool.dedup();
    pool
}

async fn list<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let mut rng = s.rng.clone();
    let pool = key_pool(&mut rng);
    let (Ok(mut a), Ok(mut b)) = (bench.client::<D>(None).await, bench.client::<D>(brokers(&mut rng).first()).await) else {
        return s.inconclusive("no clients");
    };
    let mut set: Option<BTreeSet<Vec<u8>>> = None;
    for _ in 0..rng.gen_range(3..10) {
        for k in &pool {
            let c = if rng.gen() { &mut a } else { &mut b };
            let r = c.check_whitelist(&upk(k)).await;
            if !bench.usable(s) {
                return;
            }
            let want = set.as_ref().is_none_or(|s| s.contains(k));
            s.ev("whitelist_lookups", 1);
            s.state((set.as_ref().map(BTreeSet::len), want));
            s.check(r.as_ref().ok() == Some(&want), if want { "a user that is allowed is refused" } else { "a user that is not on the whitelist is allowed" }, || {
                format!("{r:?} with {:?} listed", set.as_ref().map(BTreeSet::len))
            });
        }
        if s.failed() {
            return;
        }
        if rng.gen_bool(0.15) {
            let Ok(n) = bench.client(None).await else { return s.inconclusive("no new client") };
            a = n;
            continue;
        }
        let n = rng.gen_range(1..=pool.len());
        let mut new: Vec<Vec<u8>> = pool.choose_multiple(&mut rng, n).cloned().collect();
        if rng.gen_bool(0.1) {
            new.extend((0..500).map(|_| some_key(&mut rng)));
        }
        new.sort();
        new.dedup();
        new.shuffle(&mut rng);
        let r = a.set_whitelist(new.iter().map(|k| upk(k)).collect()).await;
        if !bench.usable(s) {
            return;
        }
        match r {
            Ok(()) => set = Some(new.into_iter().collect()),
            Err(e) => {
                s.fail("a whitelist is not accepted", e.to_string());
                return;
            }
        }
        s.ev("whitelists_set", 1);
    }
}

async fn replace_sql(s: &mut Scn) {
    let b = Bench::sql();
    replace::<Embedded>(s, &b).await;
}
async fn replace_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    if let Bench::Redis(r) = &b {
        r.trouble.lock().delay_us = s.rng.gen_range(0..400);
    }
    replace::<Redis>(s, &b).await;
}

/// Lookups all the while that the list is being replaced: who is on every list is never refused, who is on none never
/// allowed.
async fn replace<D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let mut rng = s.rng.clone();
    let pool = key_pool(&mut rng);
    let (always, never, rest) = (pool[0].clone(), pool[1].clone(), pool[2..].to_vec());
    let Ok(mut w) = bench.client::<D>(None).await else { return s.inconclusive("no client") };
    let first: Vec<UserPublicKey> = [&always].into_iter().chain(rest.iter()).map(|k| upk(k)).collect();
    if let Err(e) = w.set_whitelist(first).await {
        if bench.usable(s) {
            s.inconclusive(format!("a whitelist is not accepted: {e}"));
        }
        return;
    }
    let stop = Arc::new(AtomicBool::new(false));
    let seen: Arc<Mutex<Vec<(bool, String)>>> = Arc::default();
    let count = Arc::new(AtomicU64::new(0));
    let mut tasks = vec![];
    for i in 0..4 {
        let Ok(mut c) = bench.client::<D>(None).await else { return s.inconclusive("no client") };
        let (stop, seen, count) = (stop.clone(), seen.clone(), count.clone());
        let k = if i % 2 == 0 { always.clone() } else { never.clone() };
        tasks.push(tokio::spawn(async move {
            while !stop.load(Ordering::Relaxed) {
                let r = c.check_whitelist(&upk(&k)).await;
                count.fetch_add(1, Ordering::Relaxed);
                let bad = match &r {
                    Ok(x) => *x != (i % 2 == 0),
                    // Someone who is on both lists must be let in; for the other, an error is a refusal.
                    Err(_) => i % 2 == 0,
                };
                if bad {
                    seen.lock().push((i % 2 == 0, format!("{r:?}")));
                    return;
                }
            }
        }));
    }
    let mut sets = 0;
    let until = tokio::time::Instant::now() + Duration::from_millis(if s.thorough { 1500 } else { 500 });
    while tokio::time::Instant::now() < until && seen.lock().is_empty() {
        let n = rng.gen_range(0..rest.len());
        let mut l: Vec<UserPublicKey> = rest.choose_multiple(&mut rng, n).map(|k| upk(k)).collect();
        l.insert(rng.gen_range(0..=l.len()), upk(&always));
        if w.set_whitelist(l).await.is_ok() {
            sets += 1;
        } else {
            s.ev("replacements_refused", 1);
        }
        tokio::time::sleep(Duration::from_micros(rng.gen_range(0..2000))).await;
    }
    stop.store(true, Ordering::Relaxed);
    for t in tasks {
        let _ = t.await;
    }
    if !bench.usable(s) {
        return;
    }
    s.ev("whitelists_replaced", sets);
    s.ev("lookups_meanwhile", count.load(Ordering::Relaxed));
    s.state((sets, count.load(Ordering::Relaxed)));
    s.ev("oracle_evaluations", count.load(Ordering::Relaxed));
    for (member, r) in seen.lock().iter() {
        let sig = if *member { "a user on the old and the new whitelist is refused" } else { "a user on neither whitelist is allowed" };
        s.fail(sig, format!("{r} while it is being replaced, after {sets} replacements"));
    }
    if sets == 0 {
        s.inconclusive("no whitelist could be set");
    }
}

// ---------------------------------------------------------------- P16: enforcement

async fn admitted(w: &World, marshal: &str, key: u64) -> Result<bool, String> {
    let mut r = w.raw(marshal).await?;
    r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
    let before = w.svc.calls(Op::Issue).len();
    match r.next(Duration::from_secs(15)).await {
        Some(Message::AuthenticateResponse(a)) => {
            if a.permit <= 1 && w.svc.calls(Op::Issue).len() > before {
                return Err("refused, but a permit was issued".into());
            }
            Ok(a.permit > 1)
        }
        // Put out without an answer: refused.
        None => Ok(false),
        x => Err(format!("the marshal answers {x:?}")),
    }
}

async fn enforced(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let w = World::new(s.seed, Faults::default());
    let mut bs = vec![w.broker("b2").await];
    if rng.gen() {
        secs(1.0).await;
        bs.push(w.broker("b1").await);
    }
    let (marshal, _task) = w.marshal("m", None).await;
    secs(12.0).await;
    let keys: Vec<u64> = (1..=8).collect();
    let mut list: Option<BTreeSet<u64>> = None;
    let mut conns: BTreeMap<u64, Raw> = BTreeMap::new();
    let mut n = 0u64;
    for round in 0..rng.gen_range(3..7) {
        // Who gets in.
        let broken = rng.gen_bool(0.25);
        if broken {
            let f = if rng.gen_bool(0.8) { Fault::Err } else { Fault::Hang };
            w.svc.fault(Op::CheckWhitelist, Some(String::new()), f);
        }
        for k in keys.choose_multiple(&mut rng, 4) {
            let want = !broken && list.as_ref().is_none_or(|l| l.contains(k));
            let r = admitted(&w, &marshal, *k).await;
            s.ev("admissions_tried", 1);
            s.state((round, want, broken, list.as_ref().map(BTreeSet::len)));
            let sig = match (want, broken) {
                (true, _) => "a user that is allowed is refused",
                (_, true) => "a user is admitted although the whitelist cannot be read",
                _ => "a user that is not on the whitelist is admitted",
            };
            s.check(r == Ok(want), sig, || format!("user {k}: {r:?}, whitelist {list:?}"));
        }
        w.svc.clear_faults();
        for k in keys.choose_multiple(&mut rng, 5) {
            if list.as_ref().is_none_or(|l| l.contains(k)) && !conns.contains_key(k) {
                let b = rng.gen_range(0..bs.len());
                match w.user(&bs[b].id, *k, &[VALID[0]]).await {
                    Ok(u) => {
                        conns.insert(*k, u);
                    }
                    Err(e) => {
                        s.fail("a user that is allowed is refused", format!("by the broker: {e}, whitelist {list:?}"));
                        return;
                    }
                }
            }
        }
        settle().await;
        secs(11.0).await;
        // A new list, or none.
        let mut next = match rng.gen_range(0..6) {
            0 => None,
            _ => Some(keys.iter().copied().filter(|_| rng.gen_bool(0.65)).collect::<BTreeSet<u64>>()),
        };
        if next.as_ref().is_some_and(BTreeSet::is_empty) {
            next = Some([1].into_iter().collect());
        }
        list = next;
        w.svc.set_whitelist(list.as_ref().map(|l| l.iter().map(|k| pk(*k)).collect()));
        s.log(format!("whitelist {list:?}; connected {:?}", conns.keys().collect::<Vec<_>>()));
        let mut lookups_in_flight = false;
        if rng.gen_bool(0.35) {
            // It cannot be read for a while: nobody is put out.
            let before = w.svc.calls(Op::CheckWhitelist).len();
            let mut out: Vec<u64> = vec![];
            // Those whom a check in flight has just found missing may go.
            let slow = rng.gen_bool(0.3);
            lookups_in_flight = slow;
            w.svc.fault(Op::CheckWhitelist, None, if slow { Fault::Delay(Duration::from_secs(400)) } else { Fault::Err });
            secs(130.0).await;
            if !slow {
                for (k, u) in &conns {
                    if u.closed() {
                        out.push(*k);
                    }
                }
                s.check(out.is_empty(), "a user is put out although the whitelist cannot be read", || format!("{out:?}"));
            }
            s.ev("unreadable_checks", (w.svc.calls(Op::CheckWhitelist).len() - before) as u64);
            w.svc.clear_faults();
            if slow {
                // Each check that is under way still takes as long as it does.
                secs(400.0).await;
            }
        }
        // Some cannot be looked up; nobody is put out for that, and everybody else is dealt with all the same.
        let unknown: Vec<u64> =
            if !lookups_in_flight && rng.gen_bool(0.4) { conns.iter().filter(|(_, c)| !c.closed() && rng.gen_bool(0.3)).map(|(k, _)| *k).collect() } else { vec![] };
        // (Each lookup that is not answered may cost the others a few seconds.)
        let unanswered = rng.gen_bool(0.4);
        for k in &unknown {
            w.svc.fault_lookup(&pk(*k), if unanswered { Fault::Hang } else { Fault::Err });
        }
        // Within about a minute.
        secs(if unanswered { 75.0 + 6.0 * unknown.len() as f64 } else { 75.0 }).await;
        w.svc.clear_faults();
        let ks: Vec<u64> = conns.keys().copied().collect();
        for k in ks {
            let on = list.as_ref().is_none_or(|l| l.contains(&k));
            let closed = conns[&k].closed();
            if unknown.contains(&k) {
                s.check(on || !closed, "a user is put out although the whitelist cannot be read", || format!("user {k}, whitelist {list:?}"));
                s.ev("unreadable_checks", 1);
                continue;
            }
            if on {
                s.check(!closed, "a user that remains allowed is put out", || format!("user {k}, whitelist {list:?}"));
                s.ev("kept", 1);
            } else {
                s.check(closed, "a user taken off the whitelist stays connected", || format!("user {k}, whitelist {list:?}"));
                s.ev("put_out", 1);
            }
            if closed {
                conns.remove(&k);
            }
        }
        if s.failed() {
            return;
        }
        // Those that could not be looked up are dealt with in the next round.
        if !unknown.is_empty() {
            s.ev(if unanswered { "lookups_without_answer" } else { "lookups_failed" }, unknown.len() as u64);
            secs(if unanswered { 75.0 } else { 65.0 }).await;
            for k in &unknown {
                let on = list.as_ref().is_none_or(|l| l.contains(k));
                let Some(c) = conns.get(k) else { continue };
                s.check(on || c.closed(), "a user taken off the whitelist stays connected", || format!("user {k}, whitelist {list:?}"));
                s.check(!on || !c.closed(), "a user that remains allowed is put out", || format!("user {k}, whitelist {list:?}"));
            }
            conns.retain(|_, c| !c.closed());
        }
        // Those who remain are still served.
        let mut ks: Vec<u64> = conns.keys().copied().collect();
        ks.shuffle(&mut rng);
        if ks.len() >= 2 {
            n += 1;
            for u in conns.values_mut() {
                u.drain();
            }
            let p = n.to_le_bytes();
            conns.get_mut(&ks[0]).expect("there").direct(&pk(ks[1]), &p).await;
            settle().await;
            secs(1.0).await;
            let got = conns.get_mut(&ks[1]).expect("there").drain().len();
            s.check(got == 1, "a user that remains allowed is no longer served", || format!("user {} got {got} messages", ks[1]));
        }
        s.check(bs.iter().all(|b| !b.exited()), "a broker ends", String::new);
    }
}
