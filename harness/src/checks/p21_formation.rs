//! P21: real brokers that start, crash, lose links, peers and discovery, in any order; afterwards there must be one
//! connection between each pair, and everything must get everywhere.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::message::Message;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use tokio::time::Instant;

use super::util::{faults, payload, payload_id};
use crate::disco::{Fault, Op};
use crate::group;
use crate::net::Link;
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, BrokerH, Raw, World, VALID};

pub fn groups() -> Vec<Group> {
    vec![
        group!("formation", formation, Rt::Virtual, 400, 12_000),
        group!("re-formation", reformation, Rt::Virtual, 700, 20_000),
        group!("bad-peers", bad_peers, Rt::Virtual, 200, 6_000),
    ]
}

/// By when the mesh must be whole again: a hanging call (10 s) and a wait (10 s) at each end, and two more intervals.
const MENDED_S: f64 = 65.0;

struct Mesh {
    w: World,
    brokers: BTreeMap<String, BrokerH>,
    /// When each last started (for the pace).
    started: BTreeMap<String, Vec<Instant>>,
    crashed: BTreeSet<String>,
    /// key -> (broker, connection, topics)
    users: BTreeMap<u64, (String, Raw, BTreeSet<u8>)>,
    next_id: u64,
    next_key: u64,
    /// Registered, but no broker.
    phantoms: Vec<String>,
}

impl Mesh {
    fn new(s: &mut Scn) -> Self {
        let f = faults(&mut s.rng);
        Self {
            w: World::new(s.seed, f),
            brokers: BTreeMap::new(),
            started: BTreeMap::new(),
            crashed: BTreeSet::new(),
            users: BTreeMap::new(),
            next_id: 1,
            next_key: 1,
            phantoms: vec![],
        }
    }
    async fn start(&mut self, s: &mut Scn, n: &str) {
        s.log(format!("broker {n} starts"));
        let b = self.w.broker(n).await;
        self.brokers.insert(n.to_string(), b);
        self.started.entry(n.to_string()).or_default().push(Instant::now());
        self.crashed.remove(n);
        s.ev("broker_starts", 1);
    }
    /// A new user, or one of a broker that crashed.
    async fn user(&mut self, s: &mut Scn, n: &str, key: u64) {
        let ts: BTreeSet<u8> = VALID.iter().copied().filter(|_| s.rng.gen_bool(0.3)).collect();
        let id = self.brokers[n].id.clone();
        s.log(format!("user {key} connects to {n} with {ts:?}"));
        match self.w.user(&id, key, &ts.iter().copied().collect::<Vec<_>>()).await {
            Ok(r) => {
                self.users.insert(key, (n.to_string(), r, ts));
            }
            Err(e) => s.fail("a user with a permit was not let in", format!("{n}: {e}")),
        }
        s.ev("users", 1);
    }
    async fn some_user(&mut self, s: &mut Scn) {
        let Some(n) = pick(&self.brokers.keys().cloned().collect::<Vec<_>>(), &mut s.rng) else { return };
        let k = self.next_key;
        self.next_key += 1;
        self.user(s, &n, k).await;
    }
    /// What is open between two brokers.
    fn between(&self, a: &str, b: &str) -> Vec<Arc<Link>> {
        let (a, b) = (self.w.broker_id(a), self.w.broker_id(b));
        self.w
            .net
            .open_links()
            .into_iter()
            .filter(|l| {
                (l.endpoint == a.private_advertise_endpoint && l.mentions(&b.to_string()))
                    || (l.endpoint == b.private_advertise_endpoint && l.mentions(&a.to_string()))
            })
            .collect()
    }
    fn pairs(&self) -> Vec<(String, String)> {
        let n: Vec<&String> = self.brokers.keys().collect();
        (0..n.len()).flat_map(|i| (i + 1..n.len()).map(move |j| (i, j))).map(|(i, j)| (n[i].clone(), n[j].clone())).collect()
    }
    fn alive(&self, s: &mut Scn) {
        for (n, b) in &self.brokers {
            s.check(!b.exited(), "a broker stopped", || format!("{n} is not running any more"));
        }
    }
    /// The mesh is whole, and everything gets everywhere.
    async fn judge(&mut self, s: &mut Scn) {
        self.alive(s);
        for (a, b) in self.pairs() {
            let n = self.between(&a, &b).len();
            s.check(n == 1, "not exactly one connection between two brokers", || {
                format!("{n} between {a} and {b}, {MENDED_S} s after the last disturbance")
            });
        }
        let idle: Vec<String> = self
            .w
            .net
            .open_links()
            .iter()
            .filter(|l| l.endpoint.ends_with(".prv") && !self.phantoms.contains(&l.endpoint))
            .filter(|l| !self.pairs().iter().any(|(a, b)| self.between(a, b).iter().any(|x| x.id == l.id)))
            .map(|l| l.endpoint.clone())
            .collect();
        s.check(idle.is_empty(), "a connection between brokers is left over", || format!("{idle:?}"));
        s.ev("meshes_judged", 1);
        s.state((self.brokers.len(), self.users.len(), self.phantoms.len(), self.started.values().map(Vec::len).sum::<usize>()));
        self.traffic(s, None).await;
    }
    /// Everyone sends to everyone (or: to those on the same broker, if that is all that can be asked).
    async fn traffic(&mut self, s: &mut Scn, only: Option<&str>) {
        let keys: Vec<u64> = self.users.iter().filter(|(_, u)| only.is_none_or(|o| u.0 == o)).map(|(k, _)| *k).collect();
        // Newcomers are in once their subscriptions are.
        secs(1.0).await;
        for k in &keys {
            self.users.get_mut(k).expect("there").1.drain();
        }
        let mut want: BTreeMap<(u64, u64), String> = BTreeMap::new();
        let mut bodies: HashMap<u64, Vec<u8>> = HashMap::new();
        for from in &keys {
            for to in &keys {
                let id = self.next_id;
                self.next_id += 1;
                let body = payload(&mut s.rng, id);
                want.insert((id, *to), format!("direct message {from} -> {to} ({} -> {})", self.users[from].0, self.users[to].0));
                self.users.get_mut(from).expect("there").1.direct(&pk(*to), &body).await;
                bodies.insert(id, body);
            }
            let id = self.next_id;
            self.next_id += 1;
            let body = payload(&mut s.rng, id);
            let t = *VALID.choose(&mut s.rng).expect("some");
            for to in &keys {
                if self.users[to].2.contains(&t) {
                    want.insert((id, *to), format!("broadcast of {from} to {t} -> {to} ({} -> {})", self.users[from].0, self.users[to].0));
                }
            }
            self.users.get_mut(from).expect("there").1.broadcast(&[t], &body).await;
            bodies.insert(id, body);
        }
        secs(3.0).await;
        let mut got: HashMap<(u64, u64), u64> = HashMap::new();
        for k in &keys {
            let u = self.users.get_mut(k).expect("there");
            if u.1.closed() {
                s.fail("a user lost its connection", format!("user {k} at {}", u.0));
            }
            for m in u.1.drain() {
                match m {
                    Message::Direct(d) => *got.entry((payload_id(&d.message), *k)).or_default() += 1,
                    Message::Broadcast(b) => *got.entry((payload_id(&b.message), *k)).or_default() += 1,
                    m => s.fail("unexpected message", format!("user {k}: {m:?}")),
                }
            }
        }
        for ((id, k), what) in &want {
            let n = got.remove(&(*id, *k)).unwrap_or(0);
            s.ev("deliveries", n);
            s.check(n == 1, if n == 0 { "a message did not arrive" } else { "a message arrived twice" }, || what.clone());
        }
        for ((id, k), n) in got {
            // Messages of users left out (on other brokers) come from earlier rounds at most.
            if bodies.contains_key(&id) {
                s.fail("a message arrived where it should not", format!("{id} at {k}, {n} times"));
            }
        }
    }
    /// Each broker's calls of discovery: not many more than one round per interval, and not none.
    fn pace(&self, s: &mut Scn, until: Instant, least: usize) {
        for (n, starts) in &self.started {
            let id = self.w.broker_id(n).to_string();
            for op in [Op::Heartbeat, Op::Others] {
                let at: Vec<Instant> = self.w.svc.calls(op).iter().filter(|c| c.who == id).map(|c| c.at).collect();
                let mut t = starts[0];
                while t + Duration::from_secs(60) <= until {
                    let e = t + Duration::from_secs(60);
                    let running = self.brokers.contains_key(n) && *starts.last().expect("one") <= t;
                    if running {
                        let k = at.iter().filter(|x| **x >= t && **x < e).count();
                        s.ev("minutes_of_discovery_calls", 1);
                        s.check(k <= 12, "discovery called far too often", || format!("{n}: {k} {op:?} calls within a minute"));
                        s.check(k >= least, "a broker stopped calling discovery, or does so late", || format!("{n}: {k} {op:?} calls within a minute"));
                    }
                    t += Duration::from_secs(20);
                }
            }
        }
    }
}

fn pick<T: Clone>(v: &[T], rng: &mut StdRng) -> Option<T> {
    v.choose(rng).cloned()
}

fn names(rng: &mut StdRng) -> Vec<String> {
    let mut n: Vec<String> = ["a", "b", "c", "d", "e"].iter().map(|x| format!("b{x}")).collect();
    n.shuffle(rng);
    n.truncate(rng.gen_range(2..=5));
    n
}

/// Any number of brokers, started in any order, with users coming from the start.
async fn formation(s: &mut Scn) {
    let mut m = Mesh::new(s);
    let ns = names(&mut s.rng);
    for n in &ns {
        m.start(s, n).await;
        for _ in 0..s.rng.gen_range(0..3) {
            m.some_user(s).await;
        }
        let d = if s.rng.gen() { 0.0 } else { s.rng.gen_range(0.0..25.0) };
        secs(d).await;
    }
    secs(MENDED_S).await;
    m.judge(s).await;
    m.pace(s, Instant::now(), 5);
}

async fn reformation(s: &mut Scn) {
    let mut m = Mesh::new(s);
    let ns = names(&mut s.rng);
    for n in &ns {
        m.start(s, n).await;
        m.some_user(s).await;
    }
    let d = s.rng.gen_range(0.0..40.0);
    secs(d).await;
    for _ in 0..s.rng.gen_range(1..4) {
        for _ in 0..s.rng.gen_range(1..8) {
            disturb(&mut m, s, &ns).await;
            let d = if s.rng.gen_bool(0.3) { s.rng.gen_range(0.0..0.1) } else { s.rng.gen_range(0.0..25.0) };
            secs(d).await;
            if s.rng.gen_bool(0.3) {
                m.some_user(s).await;
            }
            if s.rng.gen_bool(0.3) {
                // Whatever else is the matter, users of the same broker reach each other.
                if let Some(n) = pick(&m.brokers.keys().cloned().collect::<Vec<_>>(), &mut s.rng) {
                    s.ev("served_meanwhile", 1);
                    m.traffic(s, Some(&n)).await;
                }
            }
            if s.failed() {
                return;
            }
        }
        // The disturbance ends.
        m.w.svc.clear_faults();
        m.w.net.refuse.lock().clear();
        m.w.net.hang.lock().clear();
        for l in m.w.net.links() {
            l.stall(false);
        }
        let gone: Vec<String> = m.crashed.iter().cloned().collect();
        for n in gone {
            revive(&mut m, s, &n).await;
        }
        s.log("calm");
        secs(MENDED_S).await;
        m.judge(s).await;
        if s.failed() {
            return;
        }
    }
    m.pace(s, Instant::now(), 2);
}

/// A crashed broker starts again, and its users come back.
async fn revive(m: &mut Mesh, s: &mut Scn, n: &str) {
    m.start(s, n).await;
    let d = if s.rng.gen() { 0.0 } else { s.rng.gen_range(0.0..15.0) };
    secs(d).await;
    let back: Vec<u64> = m.users.iter().filter(|(_, u)| u.0 == n && u.1.closed()).map(|(k, _)| *k).collect();
    for k in back {
        m.user(s, n, k).await;
    }
}

async fn disturb(m: &mut Mesh, s: &mut Scn, ns: &[String]) {
    let some = pick(&m.brokers.keys().cloned().collect::<Vec<_>>(), &mut s.rng);
    let prv: Vec<Arc<Link>> = m.w.net.open_links().into_iter().filter(|l| l.endpoint.ends_with(".prv")).collect();
    match s.rng.gen_range(0..13) {
        0..=2 => {
            if let Some(l) = pick(&prv, &mut s.rng) {
                match s.rng.gen_range(0..4) {
                    0 => l.eof(),
                    1 => l.a2b.cut(s.rng.gen()),
                    2 => l.b2a.cut(s.rng.gen()),
                    _ => l.reset(),
                }
                s.log(format!("a link to {} breaks", l.endpoint));
                s.ev("links_broken", 1);
            }
        }
        3 => {
            for l in prv {
                l.reset();
            }
            s.log("all links break");
            s.ev("links_broken", 1);
        }
        4 => {
            if let Some(l) = pick(&prv, &mut s.rng) {
                let on = !l.a2b.stalled();
                l.stall(on);
                s.log(format!("a link to {} stalls: {on}", l.endpoint));
                s.ev("stalls", 1);
            }
        }
        5 | 6 => {
            if let Some(n) = some.filter(|_| m.brokers.len() > 1) {
                s.log(format!("broker {n} crashes"));
                let b = m.brokers.remove(&n).expect("there");
                m.w.crash(b).await;
                m.crashed.insert(n.clone());
                s.ev("crashes", 1);
                if s.rng.gen() {
                    let d = if s.rng.gen() { 0.0 } else { s.rng.gen_range(0.0..100.0) };
                    secs(d).await;
                    revive(m, s, &n).await;
                }
            }
        }
        7 => {
            if let Some(n) = pick(&m.crashed.iter().cloned().collect::<Vec<_>>(), &mut s.rng) {
                revive(m, s, &n).await;
            }
        }
        8 | 9 => {
            let op = if s.rng.gen() { Op::Heartbeat } else { Op::Others };
            let who = if s.rng.gen() { None } else { some.map(|n| m.w.broker_id(&n).to_string()) };
            let f = match s.rng.gen_range(0..3) {
                0 => Fault::Hang,
                1 => Fault::Delay(Duration::from_millis(s.rng.gen_range(1..9_000))),
                _ => Fault::Err,
            };
            s.log(format!("discovery: {op:?} of {who:?}: {f:?}"));
            s.ev("discovery_faults", 1);
            m.w.svc.fault(op, who, f);
            if s.rng.gen() {
                let d = s.rng.gen_range(10.0..150.0);
                secs(d).await;
            }
        }
        10 => {
            m.w.svc.clear_faults();
            s.log("discovery works again");
        }
        11 => {
            let n = pick(ns, &mut s.rng).expect("some");
            let ep = m.w.broker_id(&n).private_advertise_endpoint;
            let list = if s.rng.gen() { &m.w.net.refuse } else { &m.w.net.hang };
            list.lock().push(ep);
            s.log(format!("{n} cannot be reached by brokers any more"));
            s.ev("unreachable", 1);
        }
        _ => {
            m.w.net.refuse.lock().clear();
            m.w.net.hang.lock().clear();
            s.log("all can be reached again");
        }
    }
}

/// Registrations behind which there is nothing, or nothing good: tried again and again, at the normal pace, while the
/// others are served.
async fn bad_peers(s: &mut Scn) {
    let mut m = Mesh::new(s);
    let mut ns = names(&mut s.rng);
    ns.truncate(3);
    let mut kept = vec![];
    let n_bad = s.rng.gen_range(1..8);
    for i in 0..n_bad {
        let id = m.w.broker_id(&format!("z{i}"));
        let ep = id.private_advertise_endpoint.clone();
        let kind = s.rng.gen_range(0..4);
        s.log(format!("bad peer {i} of kind {kind}"));
        match kind {
            0 => {}
            1 => m.w.net.hang.lock().push(ep.clone()),
            k => {
                // Accepts, and is silent, or talks nonsense.
                let l = m.w.net.listen(&ep);
                kept.push(tokio::spawn(async move {
                    let mut held = vec![];
                    while let Some((r, w)) = l.accept_raw().await {
                        let mut x = Raw::new(r, w, None);
                        if k == 3 {
                            x.send_frame(&[7; 33]).await;
                        }
                        held.push(x);
                    }
                }));
            }
        }
        m.phantoms.push(ep);
        let far = Instant::now() + Duration::from_secs(100_000);
        m.w.svc.st.lock().brokers.insert(id.to_string(), (0, far));
    }
    for n in &ns {
        m.start(s, n).await;
        m.some_user(s).await;
        let d = s.rng.gen_range(0.0..10.0);
        secs(d).await;
    }
    secs(MENDED_S).await;
    m.judge(s).await;
    let t = Instant::now();
    secs(120.0).await;
    m.judge(s).await;
    let all = m.w.net.attempts.lock().clone();
    for p in &m.phantoms {
        if m.w.net.hang.lock().contains(p) {
            continue;
        }
        let k = all.iter().filter(|(at, e, _)| e == p && *at >= t && *at < t + Duration::from_secs(120)).count();
        let n = m.brokers.len();
        s.ev("attempts_at_bad_peers", k as u64);
        s.check(k >= 3 * n && k <= 24 * n, "a peer that cannot be reached is not tried at the normal pace", || {
            format!("{k} attempts by {n} brokers in two minutes")
        });
    }
    // (Discovery itself was fine all the time.)
    m.pace(s, Instant::now(), 5);
    for k in kept {
        k.abort();
    }
}
