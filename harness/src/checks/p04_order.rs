//! P04: per sender-receiver order, integrity, no duplicates, no gaps.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Protocol};
use cdn_proto::connection::Bytes;
use cdn_proto::message::{Broadcast, Direct, Message};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};

use crate::group;
use crate::net::{Faults, Net};
use crate::real::RealWorld;
use crate::run::{Group, Rt, Scn};
use crate::sig::keypair;
use crate::world::{connection_pair2, pk, secs, settle, Raw, World, VALID};

pub fn groups() -> Vec<Group> {
    let mut v = vec![
        group!("order-sim", sim, Rt::Virtual, 3000, 60_000),
        group!("order-connection", connection, Rt::Multi(4), 150, 3000),
        group!("order-tcp", real_tcp, Rt::Multi(4), 3, 60),
        group!("order-tls", real_tls, Rt::Multi(4), 2, 60),
        group!("order-quic", real_quic, Rt::Multi(4), 2, 60),
    ];
    v[1].par = 3;
    for g in &mut v[2..] {
        g.par = 2;
    }
    v
}

/// sender (4), sequence number (8), filler, all derived from (sender, seq): a receiver can tell what it should be.
fn body(sender: u32, seq: u64, size: usize) -> Vec<u8> {
    let mut v = sender.to_le_bytes().to_vec();
    v.extend(seq.to_le_bytes());
    v.extend((size as u32).to_le_bytes());
    let mut r = StdRng::seed_from_u64(u64::from(sender) << 40 | seq);
    let at = v.len();
    v.resize(at + size, 0);
    r.fill(&mut v[at..]);
    v
}
fn parse(b: &[u8]) -> Option<(u32, u64)> {
    let s = u32::from_le_bytes(b.get(..4)?.try_into().ok()?);
    let q = u64::from_le_bytes(b.get(4..12)?.try_into().ok()?);
    let n = u32::from_le_bytes(b.get(12..16)?.try_into().ok()?) as usize;
    (n < (1 << 26) && body(s, q, n) == b).then_some((s, q))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    /// Everything, gap-free.
    All,
    /// A gap-free prefix.
    Prefix,
    /// In order, at most once (a link between brokers broke meanwhile).
    Subsequence,
}

/// `got`: what this receiver received, in order; `sent[s]`: sequence numbers that sender `s` addressed to it, in order.
fn judge(s: &mut Scn, who: &str, got: &[Option<(u32, u64)>], sent: &BTreeMap<u32, Vec<u64>>, want: &HashMap<u32, Want>) {
    let mut at: BTreeMap<u32, usize> = BTreeMap::new();
    let mut skipped: BTreeSet<u32> = BTreeSet::new();
    for (n, g) in got.iter().enumerate() {
        s.ev("messages", 1);
        s.ev("oracle_evaluations", 1);
        let Some((from, seq)) = g else {
            s.fail("corrupted message", format!("{who}: message {n} is not what anyone sent"));
            continue;
        };
        let Some(list) = sent.get(from) else {
            s.fail("message from nowhere", format!("{who}: got message {seq} of {from}, which sent it nothing"));
            continue;
        };
        let i = at.entry(*from).or_default();
        if list.get(*i) == Some(seq) {
            *i += 1;
            continue;
        }
        match list.iter().skip(*i).position(|x| x == seq).map(|j| j + *i).or_else(|| list.iter().position(|x| x == seq)) {
            None => s.fail("message from nowhere", format!("{who}: got message {seq} of {from}, not addressed to it")),
            Some(j) if j < *i => {
                s.fail("duplicate or out of order", format!("{who}: got message {seq} of {from} after {:?}", list.get(*i - 1)));
            }
            Some(j) => {
                if want.get(from) != Some(&Want::Subsequence) {
                    s.fail("gap or out of order", format!("{who}: got message {seq} of {from} where {:?} was due", list.get(*i)));
                }
                skipped.insert(*from);
                *i = j + 1;
            }
        }
    }
    for (from, list) in sent {
        let i = at.get(from).copied().unwrap_or(0);
        let w = want.get(from).copied().unwrap_or(Want::All);
        if w == Want::All {
            s.check(i == list.len(), "message lost", || {
                format!("{who}: got {i} of the {} messages of {from}, though all connections stayed up", list.len())
            });
        }
        s.state((format!("{w:?}"), list.len().min(40), i == list.len(), skipped.contains(from), got.len() / 20));
        s.ev("pairs", 1);
    }
}

struct Plan {
    items: Vec<(u64, Message, u64)>,
}

async fn sim(s: &mut Scn) {
    let small = s.rng.gen_bool(0.5);
    let mut f = Faults {
        capacity: if small { s.rng.gen_range(300..5000) } else { 1 << 20 },
        chunk: *[(1, 9), (1, 400), (1, 9000), (1 << 20, 1 << 20)].choose(&mut s.rng).expect("some"),
        ..Faults::default()
    };
    if s.rng.gen() {
        f.latency_us = (0, if small { 1500 } else { 20_000 });
    }
    let w = World::new(s.seed, f);
    let two = s.rng.gen_bool(0.5);
    let mut brokers = vec![w.broker("m1").await];
    settle().await;
    if two {
        brokers.push(w.broker("m2").await);
        secs(12.0).await;
    }
    let n = s.rng.gen_range(2..=6usize);
    let mut users: Vec<(Raw, BTreeSet<u8>, usize)> = vec![];
    for i in 0..n {
        let b = s.rng.gen_range(0..brokers.len());
        let topics: BTreeSet<u8> = (0..s.rng.gen_range(0..3)).map(|_| VALID[s.rng.gen_range(0..4)]).collect();
        let list: Vec<u8> = topics.iter().copied().collect();
        match w.user(&brokers[b].id, i as u64, &list).await {
            Ok(u) => users.push((u, topics, b)),
            Err(e) => return s.fail("user not admitted", e),
        }
    }
    secs(11.0).await;
    for u in &mut users {
        u.0.drain();
    }
    // What everyone will send.
    let senders = s.rng.gen_range(1..=n);
    let mut sent: Vec<BTreeMap<u32, Vec<u64>>> = vec![BTreeMap::new(); n];
    let mut plans: Vec<Plan> = vec![];
    let big = s.rng.gen_bool(0.15);
    for i in 0..senders {
        let mut p = Plan { items: vec![] };
        for q in 0..s.rng.gen_range(5..=60u64) {
            let size = match s.rng.gen_range(0..20) {
                0 => 0,
                1..=12 => s.rng.gen_range(0..60),
                13..=18 => s.rng.gen_range(0..3000),
                _ if big => s.rng.gen_range(50_000..200_000),
                _ => s.rng.gen_range(8100..8300),
            };
            let m = body(i as u32, q, size);
            let wait = if s.rng.gen_bool(0.2) { s.rng.gen_range(0..30) } else { 0 };
            // Equal messages are still separate messages.
            let times = if s.rng.gen_bool(0.08) { 2 } else { 1 };
            let msg = if s.rng.gen_bool(0.6) {
                let to = s.rng.gen_range(0..n);
                for _ in 0..times {
                    sent[to].entry(i as u32).or_default().push(q);
                }
                Message::Direct(Direct { recipient: pk(to as u64), message: m })
            } else {
                let t = VALID[s.rng.gen_range(0..4)];
                for (to, u) in users.iter().enumerate() {
                    for _ in 0..if u.1.contains(&t) { times } else { 0 } {
                        sent[to].entry(i as u32).or_default().push(q);
                    }
                }
                Message::Broadcast(Broadcast { topics: vec![t], message: m })
            };
            for _ in 1..times {
                p.items.push((0, msg.clone(), q));
            }
            p.items.push((wait, msg, q));
        }
        plans.push(p);
    }
    // Disturbances.
    let mut cut_user: BTreeSet<usize> = BTreeSet::new();
    let mut cut_mesh = false;
    for (i, u) in users.iter().enumerate() {
        let Some(l) = &u.0.link else { continue };
        match s.rng.gen_range(0..10) {
            0 | 1 => {
                // Slow to read, within what a broker tolerates.
                let (l, d, st) = (l.clone(), s.rng.gen_range(0..500), s.rng.gen_range(10..2500));
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_millis(d)).await;
                    l.b2a.stall(true);
                    tokio::time::sleep(Duration::from_millis(st)).await;
                    l.b2a.stall(false);
                });
                s.ev("stalls", 1);
            }
            2 => {
                let at = s.rng.gen_range(0..20_000);
                if s.rng.gen() {
                    l.b2a.cut_after(at, s.rng.gen());
                } else {
                    l.a2b.cut_after(at, s.rng.gen());
                }
                cut_user.insert(i);
                s.ev("cuts", 1);
            }
            _ => {}
        }
    }
    if two && s.rng.gen_bool(0.3) {
        let links: Vec<_> = w.net.open_links().into_iter().filter(|l| l.endpoint.ends_with(".prv")).collect();
        if let Some(l) = links.choose(&mut s.rng) {
            let (l, d, cut) = (l.clone(), s.rng.gen_range(0..1500), s.rng.gen::<bool>());
            cut_mesh = cut;
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(d)).await;
                if cut {
                    l.reset();
                } else {
                    l.stall(true);
                    tokio::time::sleep(Duration::from_millis(1800)).await;
                    l.stall(false);
                }
            });
            s.ev("mesh_disturbed", 1);
        }
    }
    let mut tasks = vec![];
    let mut back: Vec<(Raw, BTreeSet<u8>, usize)> = vec![];
    let mut rest = vec![];
    let mut plans = plans.into_iter();
    for (u, t, b) in users {
        match plans.next() {
            Some(p) => {
                let mut u = u;
                tasks.push(tokio::spawn(async move {
                    for (wait, m, _) in p.items {
                        if wait > 0 {
                            tokio::time::sleep(Duration::from_millis(wait)).await;
                        }
                        u.send(&m).await;
                    }
                    (u, t, b)
                }));
            }
            None => rest.push((u, t, b)),
        }
    }
    for t in tasks {
        match t.await {
            Ok(x) => back.push(x),
            Err(e) => return s.inconclusive(format!("sender: {e}")),
        }
    }
    back.extend(rest);
    secs(8.0).await;
    let places: Vec<usize> = back.iter().map(|u| u.2).collect();
    for i in 0..back.len() {
        let got: Vec<Option<(u32, u64)>> = back[i]
            .0
            .drain()
            .into_iter()
            .map(|m| match m {
                Message::Direct(d) if d.recipient == pk(i as u64) => parse(&d.message),
                Message::Broadcast(b) => parse(&b.message),
                _ => None,
            })
            .collect();
        let want: HashMap<u32, Want> = (0..senders)
            .map(|j| {
                let w = if cut_mesh && places[i] != places[j] {
                    Want::Subsequence
                } else if cut_user.contains(&i) || cut_user.contains(&j) {
                    Want::Prefix
                } else {
                    Want::All
                };
                (j as u32, w)
            })
            .collect();
        judge(s, &format!("user {i}"), &got, &sent[i], &want);
        if !cut_user.contains(&i) {
            let closed = back[i].0.closed();
            s.check(!closed, "user disconnected", || format!("user {i} was disconnected though its connection was fine"));
        }
    }
}

/// One connection, several clones sending at once, bounded queues, a reader that dawdles.
async fn connection(s: &mut Scn) {
    let net = Net::new(
        s.seed,
        Faults {
            capacity: s.rng.gen_range(100..20_000),
            chunk: (1, s.rng.gen_range(2..5000)),
            ..Faults::default()
        },
    );
    let lim = |s: &mut Scn| {
        let q = *[None, Some(1), Some(3)].choose(&mut s.rng).expect("some");
        let pool = *[None, Some(20_000), Some(1_000_000)].choose(&mut s.rng).expect("some");
        Limiter::new(pool, q)
    };
    let (la, lb) = (lim(s), lim(s));
    let (a, b, _link) = connection_pair2(&net, "x", la, lb).await;
    let n = s.rng.gen_range(1..=6u32);
    let per = s.rng.gen_range(20..=150u64);
    let soft = s.rng.gen::<bool>();
    let mut tasks = vec![];
    for i in 0..n {
        let a = a.clone();
        let seed: u64 = s.rng.gen();
        tasks.push(tokio::spawn(async move {
            let mut r = StdRng::seed_from_u64(seed);
            for q in 0..per {
                let size = if r.gen_bool(0.1) { r.gen_range(0..6000) } else { r.gen_range(0..100) };
                let m = Message::Direct(Direct { recipient: vec![], message: body(i, q, size) });
                if r.gen() {
                    a.send_message(m).await?;
                } else {
                    let raw = m.serialize()?;
                    a.send_message_raw(Bytes::from_unchecked(raw)).await?;
                }
                if r.gen_bool(0.05) {
                    tokio::task::yield_now().await;
                }
            }
            Ok::<_, cdn_proto::error::Error>(())
        }));
    }
    let total = u64::from(n) * per;
    let mut got = vec![];
    let reader = async {
        let mut r = StdRng::seed_from_u64(1);
        while (got.len() as u64) < total {
            match tokio::time::timeout(Duration::from_secs(20), b.recv_message()).await {
                Ok(Ok(Message::Direct(d))) => got.push(parse(&d.message)),
                Ok(Ok(_)) => got.push(None),
                Ok(Err(e)) => return Some(format!("{e}")),
                Err(_) => return Some("nothing for 20 s".into()),
            }
            if r.gen_bool(0.02) {
                tokio::time::sleep(Duration::from_millis(r.gen_range(0..3))).await;
            }
        }
        None
    };
    let sender = async {
        for t in tasks {
            if let Ok(Err(e)) = t.await {
                return Some(format!("send failed: {e}"));
            }
        }
        if soft {
            if let Err(e) = a.soft_close().await {
                return Some(format!("soft close failed: {e}"));
            }
        }
        None
    };
    let (r, t) = tokio::join!(reader, sender);
    for e in [r, t].into_iter().flatten() {
        s.fail("connection failed", e);
    }
    let sent: BTreeMap<u32, Vec<u64>> = (0..n).map(|i| (i, (0..per).collect())).collect();
    judge(s, "receiver", &got, &sent, &HashMap::new());
}

async fn real_tcp(s: &mut Scn) {
    real::<Tcp, Tcp>(s).await;
}
async fn real_tls(s: &mut Scn) {
    real::<Tcp, TcpTls>(s).await;
}
async fn real_quic(s: &mut Scn) {
    real::<Quic, Quic>(s).await;
}

/// Real transports, real clients, several threads: everyone sends to everyone.
async fn real<B: Protocol, U: Protocol>(s: &mut Scn) {
    let mut w = RealWorld::<B, U>::new();
    let brokers = match w.brokers(2, None).await {
        Ok(b) => b,
        Err(e) => return s.inconclusive(e),
    };
    let marshal = match w.marshal().await {
        Ok(m) => m,
        Err(e) => return s.inconclusive(e),
    };
    let n = 5usize;
    let topic = VALID[2];
    let mut clients = vec![];
    for i in 0..n {
        let pin = w.svc.st.lock().brokers.keys().nth(i % brokers.len()).cloned();
        w.svc.st.lock().pin = pin;
        let c = w.client(&marshal, i as u64, if i % 2 == 0 { vec![topic] } else { vec![] });
        match tokio::time::timeout(Duration::from_secs(20), c.ensure_initialized()).await {
            Ok(Ok(())) => clients.push(c),
            x => return s.inconclusive(format!("client {i} not connected: {x:?}")),
        }
    }
    // The announcements are immediate; make sure they have arrived.
    let mut reach = vec![vec![false; n]; n];
    for _ in 0..60 {
        for (i, c) in clients.iter().enumerate() {
            for j in 0..n {
                if !reach[i][j] {
                    let _ = c.send_direct_message(&keypair(j as u64).public_key, body(1000 + i as u32, 0, 0)).await;
                }
            }
        }
        for (j, c) in clients.iter().enumerate() {
            while let Ok(Ok(m)) = tokio::time::timeout(Duration::from_millis(60), c.receive_message()).await {
                if let Message::Direct(d) = m {
                    if let Some((f, 0)) = parse(&d.message) {
                        reach[f as usize - 1000][j] = true;
                    }
                }
            }
        }
        if reach.iter().flatten().all(|x| *x) {
            break;
        }
    }
    if !reach.iter().flatten().all(|x| *x) {
        return s.inconclusive("clients do not reach each other");
    }
    let per = if s.thorough { 400 } else { 150u64 };
    let mut sent: Vec<BTreeMap<u32, Vec<u64>>> = vec![BTreeMap::new(); n];
    let mut plans = vec![];
    for i in 0..n {
        let mut p = vec![];
        for q in 0..per {
            let size = match s.rng.gen_range(0..50) {
                0 => s.rng.gen_range(50_000..300_000),
                1..=10 => s.rng.gen_range(1000..20_000),
                _ => s.rng.gen_range(0..200),
            };
            let b = body(i as u32, q, size);
            if s.rng.gen_bool(0.7) {
                let to = s.rng.gen_range(0..n);
                sent[to].entry(i as u32).or_default().push(q);
                p.push((Some(to), b));
            } else {
                for to in (0..n).step_by(2) {
                    sent[to].entry(i as u32).or_default().push(q);
                }
                p.push((None, b));
            }
        }
        plans.push(p);
    }
    let totals: Vec<usize> = sent.iter().map(|m| m.values().map(Vec::len).sum()).collect();
    let mut tasks = vec![];
    for (i, (c, p)) in clients.iter().cloned().zip(plans).enumerate() {
        let total = totals[i];
        let c2 = c.clone();
        let recv = tokio::spawn(async move {
            let mut got = vec![];
            let mut err = None;
            while got.len() < total {
                match tokio::time::timeout(Duration::from_secs(15), c2.receive_message()).await {
                    Ok(Ok(Message::Direct(d))) if parse(&d.message).is_some_and(|x| x.0 >= 1000) => {}
                    Ok(Ok(Message::Direct(d))) => got.push(parse(&d.message)),
                    Ok(Ok(Message::Broadcast(b))) => got.push(parse(&b.message)),
                    Ok(Ok(_)) => got.push(None),
                    Ok(Err(e)) => {
                        err = Some(e.to_string());
                        break;
                    }
                    Err(_) => break,
                }
                if got.len() % 97 == 3 {
                    tokio::time::sleep(Duration::from_millis(20)).await;
                }
            }
            // Anything on top?
            while let Ok(Ok(m)) = tokio::time::timeout(Duration::from_millis(200), c2.receive_message()).await {
                match m {
                    Message::Direct(d) if parse(&d.message).is_some_and(|x| x.0 >= 1000) => {}
                    Message::Direct(d) => got.push(parse(&d.message)),
                    Message::Broadcast(b) => got.push(parse(&b.message)),
                    _ => got.push(None),
                }
            }
            (got, err)
        });
        let send = tokio::spawn(async move {
            for (to, b) in p {
                let r = match to {
                    Some(to) => c.send_direct_message(&keypair(to as u64).public_key, b).await,
                    None => c.send_broadcast_message(vec![topic], b).await,
                };
                if let Err(e) = r {
                    return Some(e.to_string());
                }
            }
            None
        });
        tasks.push((send, recv));
    }
    let mut disturbed = false;
    let mut results = vec![];
    for (send, recv) in tasks {
        let (Ok(e1), Ok((got, e2))) = (send.await, recv.await) else {
            return s.inconclusive("task failed");
        };
        for e in [e1, e2].into_iter().flatten() {
            disturbed = true;
            s.log(format!("client error: {e}"));
        }
        results.push(got);
    }
    if disturbed {
        // Nothing disturbed the network: whether that is right is for others to judge, order is judged here.
        s.ev("runs_with_client_errors", 1);
    }
    let w = if disturbed { Want::Subsequence } else { Want::All };
    let want: HashMap<u32, Want> = (0..n as u32).map(|i| (i, w)).collect();
    for (i, got) in results.iter().enumerate() {
        judge(s, &format!("client {i}"), got, &sent[i], &want);
    }
    for c in &clients {
        c.close().await;
    }
}
