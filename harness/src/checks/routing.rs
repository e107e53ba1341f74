//! P02 / P03: one broker under test among scripted users and scripted peer brokers; every frame that any of them
//! receives is compared with what the model of subscriptions, interests and locations prescribes.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use cdn_proto::message::{Broadcast, Direct, Message};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

use super::util::{faults, payload, payload_id, topic_list, valid, Subs};
use crate::announce::Announcer;
use crate::group;
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, settle, BrokerH, Raw, World, VALID};

pub fn p02() -> Vec<Group> {
    vec![
        group!("direct-model", direct, Rt::Virtual, 1500, 40_000),
        group!("direct-churn", churn, Rt::Virtual, 600, 10_000),
    ]
}
pub fn p03() -> Vec<Group> {
    vec![group!("forwarding-model", forwarding, Rt::Virtual, 1500, 40_000)]
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Focus {
    Direct,
    Forwarding,
}

async fn direct(s: &mut Scn) {
    scenario(s, Focus::Direct).await;
}
async fn forwarding(s: &mut Scn) {
    scenario(s, Focus::Forwarding).await;
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Party {
    User(usize),
    Peer(usize),
}

struct Peer {
    name: String,
    raw: Option<Raw>,
    ann: Announcer,
    interest: Subs,
}

/// Keys that are easily confused.
fn keys(rng: &mut StdRng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![pk(0)];
    while v.len() < n {
        let mut k = v.choose(rng).expect("non-empty").clone();
        match rng.gen_range(0..6) {
            0 => k = pk(v.len() as u64 + 100),
            1 => k.push(rng.gen()),
            2 => *k.last_mut().expect("non-empty") ^= 1,
            3 => k[1] ^= 0x80,
            4 => k.extend_from_slice(&[0; 3]),
            _ => k[17] = k[17].wrapping_add(1),
        }
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v.shuffle(rng);
    v
}

enum Op {
    Cast(Vec<u8>),
    To(Vec<u8>),
}

async fn scenario(s: &mut Scn, focus: Focus) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b: BrokerH = w.broker("m").await;
    settle().await;
    let n_keys = s.rng.gen_range(2..=8);
    let keys = keys(&mut s.rng, n_keys);
    let n_peers = match focus {
        Focus::Direct => s.rng.gen_range(0..=3),
        Focus::Forwarding => s.rng.gen_range(1..=5),
    };
    let mut pool = VALID.to_vec();
    pool.shuffle(&mut s.rng);
    pool.truncate(s.rng.gen_range(1..=5));
    let mut peers: Vec<Peer> = (0..n_peers)
        .map(|i| {
            // Below and above the broker's own identifier.
            let name = format!("{}{i}", if s.rng.gen() { "a" } else { "z" });
            Peer { raw: None, ann: Announcer::new(w.broker_id(&name)), interest: Subs::new(), name }
        })
        .collect();
    let mut users: BTreeMap<usize, (Raw, Subs)> = BTreeMap::new();
    let mut next_id = 1u64;
    let mut unannounced = false;
    let rounds = s.rng.gen_range(6..=16);
    for round in 0..rounds {
        // Peers come and go.
        for i in 0..peers.len() {
            let up = peers[i].raw.is_some();
            let r = s.rng.gen_range(0..100);
            if (!up && r < 70) || (up && r < 4) {
                if unannounced {
                    secs(11.0).await;
                    hear(&mut peers, s);
                    unannounced = false;
                }
                match w.peer(&b.id, &peers[i].name).await {
                    Ok(mut raw) => {
                        s.log(format!("r{round}: peer {} connects{}", peers[i].name, if up { " again" } else { "" }));
                        // It missed what was announced while it was away: take that in first, as far as it concerns
                        // its own users, and announce only those.
                        settle().await;
                        let mut told = Announcer::new(peers[i].ann.id.clone());
                        for m in raw.drain() {
                            told.hear(&m);
                        }
                        let mine: Vec<Vec<u8>> = keys
                            .iter()
                            .filter(|k| peers[i].ann.location(k) == Some(peers[i].ann.id.clone()))
                            .filter(|k| !keys.iter().enumerate().any(|(j, x)| x == *k && users.contains_key(&j)))
                            .filter(|k| (0..peers.len()).all(|j| j == i || peers[j].ann.location(k) != Some(peers[j].ann.id.clone())))
                            .cloned()
                            .collect();
                        for k in &mine {
                            told.join(k);
                        }
                        let m = told.users_diff();
                        for (j, p) in peers.iter_mut().enumerate() {
                            if j != i {
                                p.ann.hear(&m);
                            }
                        }
                        let p = &mut peers[i];
                        p.ann.users = told.users;
                        raw.send(&p.ann.topics_full()).await;
                        raw.send(&p.ann.users_full()).await;
                        p.raw = Some(raw);
                        settle().await;
                        s.ev("peer_connects", 1);
                    }
                    Err(e) => return s.fail("peer not admitted", e),
                }
            } else if up && r < 8 {
                s.log(format!("r{round}: peer {} goes away", peers[i].name));
                peers[i].raw.as_mut().expect("up").hang_up();
                peers[i].raw = None;
                s.ev("peer_disconnects", 1);
            }
        }
        settle().await;
        hear(&mut peers, s);
        // Peers' interests change.
        for p in &mut peers {
            if s.rng.gen_bool(0.6) {
                for _ in 0..s.rng.gen_range(1..=3) {
                    let t = *pool.choose(&mut s.rng).expect("some");
                    let on = s.rng.gen();
                    p.ann.set_topic(t, on);
                    if on {
                        p.interest.insert(t);
                    } else {
                        p.interest.remove(&t);
                    }
                }
                let stale = s.rng.gen_bool(0.2).then(|| p.ann.topics_full());
                let diff = p.ann.topics_diff();
                s.log(format!("r{round}: peer {} announces interest in {:?}", p.name, p.interest));
                if let Some(raw) = &mut p.raw {
                    if let Some(m) = stale {
                        raw.send(&m).await;
                    }
                    raw.send(&diff).await;
                    if s.rng.gen_bool(0.2) {
                        raw.send(&diff).await;
                    }
                    if s.rng.gen_bool(0.1) {
                        raw.send(&p.ann.topics_full()).await;
                    }
                }
            }
        }
        // Users come, go and move.
        for k in 0..keys.len() {
            let here = users.contains_key(&k);
            let r = s.rng.gen_range(0..100);
            if (!here && r < 40) || (here && r < 5) {
                let topics = if s.rng.gen_bool(0.3) { vec![] } else { topic_list(&mut s.rng, &pool, false) };
                match w.user_with_key(&b.id, keys[k].clone(), &topics).await {
                    Ok(raw) => {
                        s.log(format!("r{round}: user {k} connects with {topics:?}"));
                        users.insert(k, (raw, valid(&topics)));
                        s.ev("user_connects", 1);
                    }
                    Err(e) => return s.fail("user not admitted", e),
                }
                settle().await;
                hear(&mut peers, s);
            } else if here && r < 15 {
                s.log(format!("r{round}: user {k} leaves"));
                users.get_mut(&k).expect("here").0.hang_up();
                users.remove(&k);
                s.ev("user_leaves", 1);
                settle().await;
                // A peer that was away hears of a departure only if that is announced after its return.
                unannounced = true;
                if s.rng.gen_bool(0.5) || peers.iter().any(|p| p.raw.is_none()) {
                    secs(11.0).await;
                    unannounced = false;
                }
                hear(&mut peers, s);
            } else if r >= 85 {
                // A peer that is connected announces the user as its own, or gone.
                let up: Vec<usize> = (0..peers.len()).filter(|i| peers[*i].raw.is_some()).collect();
                let Some(&i) = up.choose(&mut s.rng) else { continue };
                let theirs = peers[i].ann.location(&keys[k]) == Some(peers[i].ann.id.clone());
                if theirs {
                    peers[i].ann.leave(&keys[k]);
                    s.ev("remote_leaves", 1);
                } else {
                    peers[i].ann.join(&keys[k]);
                    s.ev("remote_joins", 1);
                }
                s.log(format!("r{round}: peer {} announces user {k} {}", peers[i].name, if theirs { "gone" } else { "here" }));
                let m = peers[i].ann.users_diff();
                for (j, p) in peers.iter_mut().enumerate() {
                    if j != i {
                        p.ann.hear(&m);
                    }
                }
                peers[i].raw.as_mut().expect("up").send(&m).await;
                settle().await;
                if !theirs && here {
                    // The session moved away.
                    s.ev("moves_away", 1);
                    if !users.get(&k).expect("here").0.closed() {
                        return s.fail("session survived its move", format!("user {k} was announced elsewhere but is still connected"));
                    }
                    users.remove(&k);
                }
            }
        }
        secs(1.0).await;
        hear(&mut peers, s);
        // Where each key is, by the history above.
        let location = |k: &[u8]| -> Option<Party> {
            if let Some((i, _)) = keys.iter().enumerate().find(|(i, x)| *x == k && users.contains_key(i)) {
                return Some(Party::User(i));
            }
            peers
                .iter()
                .position(|p| p.raw.is_some() && p.ann.location(k) == Some(p.ann.id.clone()))
                .map(Party::Peer)
        };
        // Traffic.
        let mut expected: HashMap<u64, BTreeSet<Party>> = HashMap::new();
        let mut sent: HashMap<u64, (Party, Message, u64)> = HashMap::new();
        let mut plan: Vec<(Party, Message)> = vec![];
        let senders: Vec<Party> = users
            .keys()
            .map(|k| Party::User(*k))
            .chain((0..peers.len()).filter(|i| peers[*i].raw.is_some()).map(Party::Peer))
            .collect();
        for &from in &senders {
            for _ in 0..s.rng.gen_range(0..=4) {
                let p_direct = if focus == Focus::Direct { 0.8 } else { 0.45 };
                let op = if s.rng.gen_bool(p_direct) {
                    let mut k = keys.choose(&mut s.rng).expect("some").clone();
                    match s.rng.gen_range(0..20) {
                        0 => k = vec![],
                        1 => {
                            k.pop();
                        }
                        2 => k.truncate(5),
                        3 => k = vec![0; 33],
                        4 => k = (0..33).map(|_| s.rng.gen()).collect(),
                        _ => {}
                    }
                    Op::To(k)
                } else {
                    Op::Cast(topic_list(&mut s.rng, &pool, true))
                };
                let id = next_id;
                next_id += 1;
                let body = payload(&mut s.rng, id);
                let from_user = matches!(from, Party::User(_));
                let (m, to) = match op {
                    Op::To(k) => {
                        let to: BTreeSet<Party> = match location(&k) {
                            Some(Party::Peer(_)) if !from_user => BTreeSet::new(),
                            Some(x) => [x].into(),
                            None => BTreeSet::new(),
                        };
                        (Message::Direct(Direct { recipient: k, message: body }), to)
                    }
                    Op::Cast(t) => {
                        let ts = valid(&t);
                        let mut to: BTreeSet<Party> =
                            users.iter().filter(|(_, u)| !u.1.is_disjoint(&ts)).map(|(k, _)| Party::User(*k)).collect();
                        if from_user {
                            to.extend(
                                (0..peers.len())
                                    .filter(|i| peers[*i].raw.is_some() && !peers[*i].interest.is_disjoint(&ts))
                                    .map(Party::Peer),
                            );
                        }
                        (Message::Broadcast(Broadcast { topics: t, message: body }), to)
                    }
                };
                expected.insert(id, to);
                // Equal messages are still separate messages.
                let times = if s.rng.gen_bool(0.12) { s.rng.gen_range(2..=3) } else { 1 };
                sent.insert(id, (from, m.clone(), times));
                for _ in 0..times {
                    plan.push((from, m.clone()));
                }
            }
        }
        for (from, m) in &plan {
            let raw = match from {
                Party::User(k) => &mut users.get_mut(k).expect("here").0,
                Party::Peer(i) => peers[*i].raw.as_mut().expect("up"),
            };
            raw.send(m).await;
        }
        settle().await;
        settle().await;
        // Verdicts.
        let mut got: HashMap<(Party, u64), u64> = HashMap::new();
        let mut inbox: Vec<(Party, Vec<Message>)> = vec![];
        for (k, u) in users.iter_mut() {
            inbox.push((Party::User(*k), u.0.drain()));
        }
        for i in 0..peers.len() {
            if let Some(raw) = &mut peers[i].raw {
                inbox.push((Party::Peer(i), raw.drain()));
            }
        }
        for (at, msgs) in inbox {
            for m in msgs {
                let id = match &m {
                    Message::Direct(d) => payload_id(&d.message),
                    Message::Broadcast(x) => payload_id(&x.message),
                    Message::UserSync(_) | Message::TopicSync(_) if matches!(at, Party::Peer(_)) => {
                        for (i, p) in peers.iter_mut().enumerate() {
                            if at == Party::Peer(i) && !p.ann.hear(&m) {
                                s.fail("unreadable announcement", format!("{at:?} got an announcement that does not decode"));
                            }
                        }
                        continue;
                    }
                    other => {
                        s.fail("unexpected message", format!("{at:?} got {other:?}"));
                        continue;
                    }
                };
                match sent.get(&id) {
                    None => s.fail("message from nowhere", format!("{at:?} got message {id}, which was not sent in this round")),
                    Some((_, o, _)) if *o != m => s.fail("altered message", format!("{at:?} got message {id} altered")),
                    Some(_) => *got.entry((at, id)).or_default() += 1,
                }
            }
        }
        for (&id, to) in &expected {
            let (from, m, times) = &sent[&id];
            let is_direct = matches!(m, Message::Direct(_));
            for &at in &senders {
                let relevant = match focus {
                    Focus::Direct => is_direct,
                    Focus::Forwarding => matches!(at, Party::Peer(_)) || matches!(from, Party::Peer(_)),
                };
                if !relevant {
                    continue;
                }
                let n = got.get(&(at, id)).copied().unwrap_or(0);
                let want = if to.contains(&at) { *times } else { 0 };
                s.state((at, from, is_direct, want > 0, to.len(), peers.len(), users.len()));
                s.ev("deliveries", n);
                if matches!(at, Party::Peer(_)) && n > 0 {
                    s.ev("forwarded", n);
                }
                let what = || {
                    format!("message {id} from {from:?} ({}) reached {at:?} {n} times, expected {want}; {}",
                        if is_direct { "direct" } else { "broadcast" },
                        match m {
                            Message::Direct(d) => format!("recipient {:?}", keys.iter().position(|k| *k == d.recipient)),
                            Message::Broadcast(x) => format!("topics {:?}", x.topics),
                            _ => String::new(),
                        })
                };
                let sig = match (at, n > want) {
                    (Party::User(_), true) => "user got what is not for it",
                    (Party::User(_), false) => "user missed a message",
                    (Party::Peer(_), true) if matches!(from, Party::Peer(_)) => "forwarded between brokers",
                    (Party::Peer(_), true) => "peer got what is not for it",
                    (Party::Peer(_), false) => "peer missed a message",
                };
                s.check(n == want, sig, what);
            }
        }
        for (k, u) in &users {
            s.check(!u.0.closed(), "user disconnected", || format!("user {k} was disconnected in round {round}"));
        }
        for p in &peers {
            let closed = p.raw.as_ref().is_some_and(Raw::closed);
            s.check(!closed, "peer disconnected", || format!("peer {} was disconnected in round {round}", p.name));
        }
        s.ev("messages", sent.len() as u64);
        if s.failed() {
            return;
        }
    }
}

fn hear(peers: &mut [Peer], s: &mut Scn) {
    for p in peers.iter_mut() {
        if let Some(raw) = &mut p.raw {
            for m in raw.drain() {
                match m {
                    Message::UserSync(_) | Message::TopicSync(_) => {
                        if !p.ann.hear(&m) {
                            s.fail("unreadable announcement", "a peer got an announcement that does not decode".to_string());
                        }
                    }
                    m => s.fail("message from nowhere", format!("peer {} got {m:?} while nobody sent anything", p.name)),
                }
            }
        }
    }
}

/// Direct messages while their recipients come, go and are replaced: at most once, only to the recipient, and
/// certainly to one that was there throughout.
async fn churn(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("m").await;
    settle().await;
    let n = s.rng.gen_range(3..=6usize);
    let keys = keys(&mut s.rng, n);
    let mut stable: Vec<Raw> = vec![];
    let n_stable = 2;
    for k in keys.iter().take(n_stable) {
        match w.user_with_key(&b.id, k.clone(), &[]).await {
            Ok(r) => stable.push(r),
            Err(e) => return s.fail("user not admitted", e),
        }
    }
    settle().await;
    let mut flaky: Vec<(usize, Raw)> = vec![];
    let mut gone: Vec<(usize, Raw)> = vec![];
    let mut sent: HashMap<u64, usize> = HashMap::new();
    let mut id = 0;
    for _ in 0..s.rng.gen_range(10..=60) {
        match s.rng.gen_range(0..10) {
            0..=6 => {
                let from = s.rng.gen_range(0..n_stable);
                let to = s.rng.gen_range(0..n);
                id += 1;
                sent.insert(id, to);
                let p = payload(&mut s.rng, id);
                stable[from].direct(&keys[to], &p).await;
                s.ev("messages", 1);
            }
            7 => {
                let k = s.rng.gen_range(n_stable..n);
                if let Ok(r) = w.user_with_key(&b.id, keys[k].clone(), &[]).await {
                    flaky.push((k, r));
                    s.ev("user_connects", 1);
                }
            }
            8 if !flaky.is_empty() => {
                let i = s.rng.gen_range(0..flaky.len());
                let (k, mut r) = flaky.remove(i);
                if s.rng.gen() {
                    r.hang_up();
                } else if let Some(l) = &r.link {
                    l.reset();
                }
                gone.push((k, r));
                s.ev("user_leaves", 1);
            }
            _ => {
                let d = s.rng.gen_range(0..30);
                tokio::time::sleep(std::time::Duration::from_millis(d)).await;
            }
        }
    }
    secs(2.0).await;
    let mut got: HashMap<u64, u64> = HashMap::new();
    let all = stable.iter_mut().enumerate().chain(flaky.iter_mut().chain(gone.iter_mut()).map(|(k, r)| (*k, r)));
    for (k, r) in all {
        for m in r.drain() {
            let Message::Direct(d) = m else {
                s.fail("unexpected message", format!("user {k} got something else than a direct message"));
                continue;
            };
            let i = payload_id(&d.message);
            *got.entry(i).or_default() += 1;
            s.check(sent.get(&i) == Some(&k) && d.recipient == keys[k], "user got what is not for it", || {
                format!("user {k} got message {i}, sent to {:?}", sent.get(&i))
            });
        }
    }
    for (i, to) in &sent {
        let n = got.get(i).copied().unwrap_or(0);
        s.state((to, n, flaky.len(), gone.len()));
        s.ev("deliveries", n);
        s.check(n <= 1, "delivered more than once", || format!("message {i} arrived {n} times"));
        s.check(*to >= n_stable || n == 1, "user missed a message", || {
            format!("message {i} to user {to}, connected throughout, arrived {n} times")
        });
    }
    for (k, r) in stable.iter().enumerate() {
        s.check(!r.closed(), "user disconnected", || format!("user {k} was disconnected"));
    }
}
