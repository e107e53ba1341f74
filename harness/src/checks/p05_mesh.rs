//! P05: real brokers, a real marshal and real clients; who gets what, exactly once, wherever they are.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::message::Message;
use rand::{seq::SliceRandom, Rng};

use cdn_proto::connection::protocols::{tcp::Tcp, tcp_tls::TcpTls, Protocol};
use cdn_proto::discovery::{embedded::Embedded, redis::Redis, DiscoveryClient};
use parking_lot::Mutex;
use tokio::time::{sleep, timeout};

use super::discovery::Bench;
use super::util::{faults, payload, payload_id, topic_list, valid};
use crate::clients::ClientH;
use crate::group;
use crate::real::RealWorld;
use crate::run::{Group, Rt, Scn};
use crate::sig::keypair;
use crate::world::{pk, secs, BrokerH, World, VALID};

pub fn groups() -> Vec<Group> {
    let two = |mut g: Group| {
        g.par = 2;
        g
    };
    vec![
        group!("mesh", mesh, Rt::Virtual, 4000, 60_000),
        two(group!("mesh-deployed-embedded", deployed_embedded, Rt::Multi(2), 2, 40)),
        two(group!("mesh-deployed-redis", deployed_redis, Rt::Multi(2), 2, 40)),
    ]
}

async fn mesh(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let n_brokers = s.rng.gen_range(1..=5usize);
    let mut names: Vec<String> = (0..n_brokers).map(|i| format!("b{i}")).collect();
    names.shuffle(&mut s.rng);
    let mut brokers: BTreeMap<String, BrokerH> = BTreeMap::new();
    for n in &names {
        brokers.insert(n.clone(), w.broker(n).await);
        let d = s.rng.gen_range(0.0..4.0);
        secs(d).await;
    }
    let (marshal, _mt) = w.marshal("marshal", None).await;
    secs(25.0).await;
    let mut pool = VALID.to_vec();
    pool.shuffle(&mut s.rng);
    pool.truncate(s.rng.gen_range(1..=5));
    let n_keys = s.rng.gen_range(2..=10u64);
    let mut clients: BTreeMap<u64, (ClientH, BTreeSet<u8>)> = BTreeMap::new();
    let mut next_id = 1u64;
    let rounds = s.rng.gen_range(2..=6);
    for round in 0..rounds {
        // Membership and placement.
        for k in 0..n_keys {
            let place = {
                let ids: Vec<String> = brokers.values().map(|b| b.id.to_string()).collect();
                if s.rng.gen_bool(0.15) && names.len() == brokers.len() && round == 0 {
                    None
                } else {
                    ids.choose(&mut s.rng).cloned()
                }
            };
            let r = s.rng.gen_range(0..100);
            if let Some((c, subs)) = clients.get_mut(&k) {
                if r < 12 {
                    s.log(format!("r{round}: client {k} closes"));
                    c.c.close().await;
                    clients.remove(&k);
                    s.ev("client_closes", 1);
                } else if r < 30 {
                    // Its connection breaks; it comes back somewhere.
                    w.svc.st.lock().pin = place.clone();
                    s.log(format!("r{round}: client {k} loses its connection, next on {place:?}"));
                    for l in w.net.open_links() {
                        if l.endpoint.ends_with(".pub") && holds(&w, &l, k) {
                            if s.rng.gen() {
                                l.reset();
                            } else {
                                l.eof();
                            }
                            s.ev("client_moves", 1);
                        }
                    }
                    secs(3.0).await;
                    if !c.ready(Duration::from_secs(60)).await {
                        return s.fail("client not reconnected", format!("client {k} in round {round}"));
                    }
                } else if r < 65 {
                    let ts = topic_list(&mut s.rng, &pool, true);
                    let ts: Vec<u8> = valid(&ts).into_iter().collect();
                    let on = s.rng.gen::<bool>();
                    let change = ts.iter().any(|t| subs.contains(t) != on);
                    if change {
                        let r = if on { c.c.subscribe(ts.clone()).await } else { c.c.unsubscribe(ts.clone()).await };
                        if let Err(e) = r {
                            return s.fail("subscription call failed", format!("client {k}: {e}"));
                        }
                        s.log(format!("r{round}: client {k} {} {ts:?}", if on { "subscribes" } else { "unsubscribes" }));
                        for t in ts {
                            if on {
                                subs.insert(t);
                            } else {
                                subs.remove(&t);
                            }
                        }
                        s.ev("subscription_changes", 1);
                    }
                }
            } else if r < 75 {
                w.svc.st.lock().pin = place.clone();
                let ts = if s.rng.gen_bool(0.3) { vec![] } else { topic_list(&mut s.rng, &pool, false) };
                s.log(format!("r{round}: client {k} starts with {ts:?} on {place:?}"));
                let c = ClientH::new(&w, &marshal, k, ts.clone());
                if !c.ready(Duration::from_secs(60)).await {
                    return s.fail("client not connected", format!("client {k} in round {round}"));
                }
                clients.insert(k, (c, valid(&ts)));
                s.ev("client_starts", 1);
            }
        }
        // The mesh changes.
        if round > 0 && s.rng.gen_bool(0.25) {
            if brokers.len() > 1 && s.rng.gen() {
                let n = brokers.keys().cloned().collect::<Vec<_>>().choose(&mut s.rng).cloned().expect("some");
                s.log(format!("r{round}: broker {n} crashes"));
                let b = brokers.remove(&n).expect("some");
                let id = b.id.to_string();
                w.crash(b).await;
                w.svc.st.lock().brokers.remove(&id);
                let ids: Vec<String> = brokers.values().map(|b| b.id.to_string()).collect();
                w.svc.st.lock().pin = ids.choose(&mut s.rng).cloned();
                s.ev("broker_crashes", 1);
            } else if brokers.len() < n_brokers {
                let n = names.iter().find(|n| !brokers.contains_key(*n)).cloned().expect("some");
                s.log(format!("r{round}: broker {n} starts again"));
                brokers.insert(n.clone(), w.broker(&n).await);
                s.ev("broker_restarts", 1);
            } else {
                let links: Vec<_> = w.net.open_links().into_iter().filter(|l| l.endpoint.ends_with(".prv")).collect();
                if let Some(l) = links.choose(&mut s.rng) {
                    s.log(format!("r{round}: a link between brokers breaks"));
                    l.reset();
                    s.ev("mesh_links_broken", 1);
                }
            }
            secs(40.0).await;
        }
        secs(12.0).await;
        for (k, (c, _)) in &clients {
            if !c.ready(Duration::from_secs(60)).await {
                return s.fail("client not reconnected", format!("client {k} in round {round}"));
            }
        }
        secs(13.0).await;
        for (c, _) in clients.values() {
            for m in c.drain() {
                s.fail("message from nowhere", format!("client {} got {m:?} while nobody sent", c.key));
            }
        }
        let errs: BTreeMap<u64, usize> = clients.iter().map(|(k, c)| (*k, c.0.n_errs())).collect();
        // Traffic.
        let mut want: HashMap<u64, BTreeSet<u64>> = HashMap::new();
        let mut sent: HashMap<u64, (u64, Vec<u8>, u64)> = HashMap::new();
        for (k, (c, _)) in &clients {
            for _ in 0..s.rng.gen_range(1..=4) {
                let id = next_id;
                next_id += 1;
                let body = payload(&mut s.rng, id);
                // Equal messages are still separate messages.
                let times = if s.rng.gen_bool(0.15) { s.rng.gen_range(2..=3) } else { 1 };
                let gap = s.rng.gen_bool(0.3);
                sent.insert(id, (*k, body.clone(), times));
                let r = if s.rng.gen() {
                    let to = s.rng.gen_range(0..n_keys + 1);
                    want.insert(id, clients.keys().copied().filter(|x| *x == to).collect());
                    let mut r = Ok(());
                    for _ in 0..times {
                        r = r.and(c.c.send_direct_message(&keypair(to).public_key, body.clone()).await);
                        if gap {
                            secs(0.2).await;
                        }
                    }
                    r
                } else {
                    let ts = topic_list(&mut s.rng, &pool, true);
                    let v = valid(&ts);
                    want.insert(id, clients.iter().filter(|(_, x)| !x.1.is_disjoint(&v)).map(|x| *x.0).collect());
                    let mut r = Ok(());
                    for _ in 0..times {
                        r = r.and(c.c.send_broadcast_message(ts.clone(), body.clone()).await);
                        if gap {
                            secs(0.2).await;
                        }
                    }
                    r
                };
                if let Err(e) = r {
                    s.fail("send failed", format!("client {k} in round {round}: {e}"));
                }
            }
        }
        secs(2.0).await;
        let mut got: HashMap<(u64, u64), u64> = HashMap::new();
        for (k, (c, _)) in &clients {
            for m in c.drain() {
                let body = match &m {
                    Message::Direct(d) if d.recipient == pk(*k) => &d.message,
                    Message::Broadcast(b) => &b.message,
                    m => {
                        s.fail("unexpected message", format!("client {k} got {m:?}"));
                        continue;
                    }
                };
                let id = payload_id(body);
                match sent.get(&id) {
                    None => s.fail("message from nowhere", format!("client {k} got {id}")),
                    Some((_, b, _)) if b != body => s.fail("altered message", format!("client {k} got {id} altered")),
                    Some(_) => *got.entry((*k, id)).or_default() += 1,
                }
            }
        }
        for (id, to) in &want {
            for k in clients.keys() {
                let n = got.get(&(*k, *id)).copied().unwrap_or(0);
                let e = if to.contains(k) { sent[id].2 } else { 0 };
                s.state((brokers.len(), to.len(), e > 0, sent[id].0 == *k, clients.len()));
                s.ev("deliveries", n);
                let from = sent[id].0;
                s.check(n == e, if n > e { "got what is not for it, or twice" } else { "missed a message" }, || {
                    format!("round {round}: client {k} got message {id} of client {from} {n} times, expected {e}")
                });
            }
        }
        for (k, (c, _)) in &clients {
            s.check(c.n_errs() == errs[k], "client disconnected", || {
                format!("client {k} lost its connection during traffic: {:?}", c.inbox.lock().errs.last())
            });
        }
        if s.failed() {
            return;
        }
    }
    for (c, _) in clients.values() {
        c.c.close().await;
    }
}

/// Whether this connection to a broker is that client's: its permit was issued for its key.
fn holds(w: &World, l: &crate::net::Link, key: u64) -> bool {
    let Some(permit) = l.permit_presented() else { return false };
    let k = format!("{:?}", pk(key));
    w.svc.issued.lock().get(&permit).is_some_and(|x| format!("{x:?}") == k)
}

// As it is deployed: real transports, and one of the real discovery services.

async fn deployed_embedded(s: &mut Scn) {
    let b = Bench::sql();
    deployed::<TcpTls, Embedded>(s, &b).await;
}
async fn deployed_redis(s: &mut Scn) {
    let b = Bench::redis(s.seed).await;
    deployed::<Tcp, Redis>(s, &b).await;
}

struct Member {
    c: cdn_client::Client<crate::real::Side<TcpTls>>,
    subs: BTreeSet<u8>,
    inbox: Arc<Mutex<Vec<Message>>>,
    errs: Arc<Mutex<Vec<String>>>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Member {
    fn drop(&mut self) {
        self.task.abort();
    }
}

async fn deployed<B: Protocol, D: DiscoveryClient>(s: &mut Scn, bench: &Bench) {
    let mut w = RealWorld::<B, TcpTls, D>::over(bench.path());
    let n_brokers = s.rng.gen_range(1..=3);
    if let Err(e) = w.brokers(n_brokers, Some(50_000_000)).await {
        return s.inconclusive(e);
    }
    let marshal = match w.marshal().await {
        Ok(m) => m,
        Err(e) => return s.inconclusive(e),
    };
    let n_keys = s.rng.gen_range(3..=6u64);
    let mut members: BTreeMap<u64, Member> = BTreeMap::new();
    let mut next = 1u64;
    for round in 0..if s.thorough { 4 } else { 2 } {
        for k in 0..n_keys {
            if members.contains_key(&k) && s.rng.gen() {
                continue;
            }
            if let Some(m) = members.remove(&k) {
                m.c.close().await;
                s.ev("client_closes", 1);
            }
            let subs = topic_list(&mut s.rng, &VALID, true);
            let c = w.client(&marshal, k, subs.clone());
            match timeout(Duration::from_secs(40), c.ensure_initialized()).await {
                Ok(Ok(())) => {}
                x => return s.fail("client does not connect", format!("client {k} in round {round}: {x:?}")),
            }
            let (inbox, errs) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
            let (c2, i2, e2) = (c.clone(), inbox.clone(), errs.clone());
            let task = tokio::spawn(async move {
                loop {
                    match c2.receive_message().await {
                        Ok(m) => i2.lock().push(m),
                        Err(e) => {
                            e2.lock().push(e.to_string());
                            sleep(Duration::from_millis(50)).await;
                        }
                    }
                }
            });
            members.insert(k, Member { c, subs: valid(&subs), inbox, errs, task });
        }
        if !bench.usable(s) {
            return;
        }
        // Until everybody knows of everybody: each sends to each, and on each topic.
        let mut missing = vec![(0, 0, 0)];
        for attempt in 0..60 {
            for (k, m) in &members {
                for to in members.keys() {
                    let _ = m.c.send_direct_message(&keypair(*to).public_key, vec![1, *k as u8]).await;
                }
                for t in VALID {
                    let _ = m.c.send_broadcast_message(vec![t], vec![2, *k as u8, t]).await;
                }
            }
            sleep(Duration::from_millis(if attempt == 0 { 300 } else { 600 })).await;
            missing.clear();
            for (k, m) in &members {
                let got = std::mem::take(&mut *m.inbox.lock());
                for from in members.keys() {
                    if !got.iter().any(|x| matches!(x, Message::Direct(d) if d.message == [1, *from as u8])) {
                        missing.push((*from, *k, 256));
                    }
                    for t in &m.subs {
                        if !got.iter().any(|x| matches!(x, Message::Broadcast(b) if b.message == [2, *from as u8, *t])) {
                            missing.push((*from, *k, u16::from(*t)));
                        }
                    }
                }
            }
            s.ev("probes", 1);
            if missing.is_empty() {
                break;
            }
        }
        s.check(missing.is_empty(), "the mesh does not come about", || {
            format!("round {round}, {n_brokers} brokers: after 36 s still missing (from, to, topic; 256 is a direct message): {missing:?}")
        });
        if s.failed() {
            return;
        }
        sleep(Duration::from_millis(1000)).await;
        for m in members.values() {
            m.inbox.lock().clear();
            m.errs.lock().clear();
        }
        // What counts.
        let mut want: BTreeMap<(u64, u64), u64> = BTreeMap::new();
        let first = next;
        for _ in 0..s.rng.gen_range(20..60) {
            let from = s.rng.gen_range(0..n_keys);
            let id = next;
            next += 1;
            let body = payload(&mut s.rng, id);
            let r = if s.rng.gen() {
                let to = s.rng.gen_range(0..n_keys + 1);
                if to < n_keys {
                    want.insert((to, id), 1);
                }
                members[&from].c.send_direct_message(&keypair(to).public_key, body).await
            } else {
                let ts = topic_list(&mut s.rng, &VALID, true);
                let v = valid(&ts);
                for (k, m) in &members {
                    if !m.subs.is_disjoint(&v) {
                        want.insert((*k, id), 1);
                    }
                }
                members[&from].c.send_broadcast_message(ts, body).await
            };
            if let Err(e) = r {
                return s.fail("send failed", format!("client {from} in round {round}: {e}"));
            }
        }
        let total: u64 = want.values().sum();
        for _ in 0..100 {
            if members.values().map(|m| m.inbox.lock().len() as u64).sum::<u64>() >= total {
                break;
            }
            sleep(Duration::from_millis(100)).await;
        }
        sleep(Duration::from_millis(400)).await;
        let mut got: BTreeMap<(u64, u64), u64> = BTreeMap::new();
        for (k, m) in &members {
            for x in m.inbox.lock().iter() {
                match x {
                    Message::Direct(d) => *got.entry((*k, payload_id(&d.message))).or_default() += 1,
                    Message::Broadcast(b) => *got.entry((*k, payload_id(&b.message))).or_default() += 1,
                    x => s.fail("unexpected message", format!("client {k} got {x:?}")),
                }
            }
        }
        for k in members.keys() {
            for id in first..next {
                let (g, e) = (got.remove(&(*k, id)).unwrap_or(0), want.get(&(*k, id)).copied().unwrap_or(0));
                s.ev("deliveries", g);
                s.check(g == e, if g > e { "got what is not for it, or twice" } else { "missed a message" }, || {
                    format!("deployed, round {round}, {n_brokers} brokers: client {k} got message {id} {g} times, expected {e}")
                });
            }
        }
        s.check(got.is_empty(), "message from nowhere", || format!("{got:?}"));
        for (k, m) in &members {
            let e = m.errs.lock().clone();
            s.check(e.is_empty(), "client disconnected", || format!("client {k} in round {round}: {e:?}"));
        }
        s.state((n_brokers, n_keys, total, round));
        if s.failed() {
            return;
        }
    }
}
