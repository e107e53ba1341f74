//! P22: every message passes its connection's own hook exactly once, as received and in order, and the hook's verdict
//! is what happens.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use cdn_broker::verif::{DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::def::HookResult;
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithPermit, Broadcast, Direct, Message};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

use super::util::{faults, topic_list, valid, Subs};
use crate::announce::{key, topic_sync, user_sync};
use crate::group;
use crate::interpose::mix;
use crate::run::{Group, Rt, Scn};
use crate::world::{auth_with_key, pk, settle, BrokerOpts, Hook, HookCall, Raw, World, INVALID, VALID};

pub fn groups() -> Vec<Group> {
    vec![group!("hooks", hooks, Rt::Virtual, 900, 30_000), group!("hooks-together", together, Rt::Virtual, 200, 5_000)]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Verdict {
    Process,
    Skip,
    Fail,
}

/// The verdict on a message is a function of its content, known to the hook and to the model.
fn verdict(seed: u64, m: &Message) -> Verdict {
    let mut h = seed;
    for b in m.serialize().expect("serializes") {
        h = mix(h ^ u64::from(b));
    }
    match h % 40 {
        0 => Verdict::Fail,
        1..=9 => Verdict::Skip,
        _ => Verdict::Process,
    }
}

type Calls = Arc<Mutex<Vec<(HookCall, Message)>>>;

fn hook(seed: u64, calls: &Calls) -> Hook {
    let calls = calls.clone();
    Hook::watching(move |c, m| {
        calls.lock().push((c.clone(), m.clone()));
        match verdict(seed, m) {
            Verdict::Process => Ok(HookResult::ProcessMessage),
            Verdict::Skip => Ok(HookResult::SkipMessage),
            Verdict::Fail => anyhow::bail!("not this one"),
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Who {
    User(u64),
    Peer(usize),
}

/// Keys that are nearly the same.
fn uk(u: u64) -> Vec<u8> {
    let mut k = pk(0);
    k[1 + (u as usize * 11) % 32] ^= u as u8;
    k
}

struct Conn {
    raw: Raw,
    who: Who,
    alive: bool,
    subs: Subs,
    /// What the hook should have seen of it.
    seen: Vec<Message>,
}

fn user_message(rng: &mut StdRng, id: &mut u64, keys: &[Vec<u8>]) -> Message {
    *id += 1;
    let body = id.to_le_bytes().to_vec();
    match rng.gen_range(0..40) {
        0..=12 => Message::Direct(Direct { recipient: keys.choose(rng).expect("some").clone(), message: body }),
        13..=25 => Message::Broadcast(Broadcast { topics: topic_list(rng, &VALID, true), message: body }),
        26..=30 => Message::Subscribe(topic_list(rng, &VALID, true)),
        31..=35 => Message::Unsubscribe(topic_list(rng, &VALID, true)),
        36 => Message::Broadcast(Broadcast { topics: vec![INVALID[0]], message: body }),
        37 => Message::Subscribe(if rng.gen() { vec![] } else { INVALID.to_vec() }),
        38 => Message::Unsubscribe(vec![INVALID[1]]),
        _ => other_message(rng, body),
    }
}

fn other_message(rng: &mut StdRng, body: Vec<u8>) -> Message {
    match rng.gen_range(0..5) {
        0 => Message::UserSync(body),
        1 => Message::TopicSync(body),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: rng.gen(), context: "x".into() }),
        3 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen() }),
        _ => auth_with_key("espresso-cdn-user-marshal-auth", rng.gen_range(0..100), rng.gen_range(0..1000)),
    }
}

async fn hooks(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let (user_calls, peer_calls): (Calls, Calls) = Default::default();
    let b = w
        .broker_with(
            "m",
            BrokerOpts { user_hook: hook(s.seed, &user_calls), broker_hook: hook(s.seed + 1, &peer_calls), ..Default::default() },
        )
        .await;
    settle().await;
    let n_users = s.rng.gen_range(2..=5u64);
    let n_peers = s.rng.gen_range(0..=3usize);
    let mut conns: Vec<Conn> = vec![];
    let mut id = 0u64;
    // Where users announced by peers are, and what peers want.
    let mut remote: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut next_remote = 5000u64;
    let mut versions: BTreeMap<usize, TopicSyncMap> = BTreeMap::new();
    let rounds = s.rng.gen_range(4..=14);
    for round in 0..rounds {
        // Whoever is not there connects.
        for u in 0..n_users {
            if !conns.iter().any(|c| c.alive && c.who == Who::User(u)) && s.rng.gen_bool(0.7) {
                let topics = topic_list(&mut s.rng, &VALID, false);
                match w.user_with_key(&b.id, uk(u), &topics).await {
                    Ok(raw) => conns.push(Conn { raw, who: Who::User(u), alive: true, subs: valid(&topics), seen: vec![] }),
                    Err(e) => return s.fail("user not admitted", e),
                }
                settle().await;
            }
        }
        for p in 0..n_peers {
            if !conns.iter().any(|c| c.alive && c.who == Who::Peer(p)) && s.rng.gen_bool(0.7) {
                match w.peer(&b.id, &format!("p{p}")).await {
                    Ok(raw) => {
                        conns.push(Conn { raw, who: Who::Peer(p), alive: true, subs: Subs::new(), seen: vec![] });
                        versions.insert(p, TopicSyncMap::new(0));
                    }
                    Err(e) => return s.fail("peer not admitted", e),
                }
                settle().await;
            }
        }
        for c in &mut conns {
            c.raw.drain();
        }
        let Some(i) = (0..conns.len()).filter(|i| conns[*i].alive).collect::<Vec<_>>().choose(&mut s.rng).copied() else { continue };
        // One connection sends, the others watch.
        let who = conns[i].who;
        let keys: Vec<Vec<u8>> = (0..=n_users).map(uk).chain(remote.keys().cloned()).collect();
        let mut expect: BTreeMap<usize, Vec<Message>> = BTreeMap::new();
        let mut why = String::new();
        let mut burst = vec![];
        for _ in 0..s.rng.gen_range(1..=8) {
            if s.rng.gen_bool(0.02) {
                // Not a message: no hook is asked.
                let v: Vec<u8> = vec![0xff; s.rng.gen_range(1..30)];
                burst.push((None, v));
                if conns[i].alive {
                    why = "it sent garbage".into();
                    conns[i].alive = false;
                }
                continue;
            }
            let mut m = match who {
                Who::User(_) => user_message(&mut s.rng, &mut id, &keys),
                Who::Peer(p) => match s.rng.gen_range(0..10) {
                    0..=2 => {
                        id += 1;
                        Message::Direct(Direct { recipient: keys.choose(&mut s.rng).expect("some").clone(), message: id.to_le_bytes().to_vec() })
                    }
                    3..=5 => {
                        id += 1;
                        Message::Broadcast(Broadcast { topics: topic_list(&mut s.rng, &VALID, true), message: id.to_le_bytes().to_vec() })
                    }
                    6 => {
                        let v = versions.get_mut(&p).expect("set");
                        for t in VALID {
                            if s.rng.gen_bool(0.3) {
                                v.insert(t, if s.rng.gen() { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed });
                            }
                        }
                        let _ = v.diff();
                        topic_sync(&v.get_full())
                    }
                    7 => {
                        next_remote += 1;
                        let mut d = DirectMap::new(w.broker_id(&format!("p{p}")));
                        d.insert(key(&pk(next_remote)), w.broker_id(&format!("p{p}")));
                        user_sync(&d)
                    }
                    8 => Message::Subscribe(vec![1]),
                    _ => {
                        id += 1;
                        other_message(&mut s.rng, id.to_le_bytes().to_vec())
                    }
                },
            };
            // (Equal messages are messages of their own.)
            let times = if s.rng.gen_bool(0.1) { 2 } else { 1 };
            if times == 2 {
                if let Message::Direct(d) = &mut m {
                    d.message.push(2);
                }
            }
            for _ in 0..times {
                burst.push((Some(m.clone()), m.serialize().expect("serializes")));
                if !conns[i].alive {
                    continue;
                }
                conns[i].seen.push(m.clone());
                let v = verdict(if matches!(who, Who::User(_)) { s.seed } else { s.seed + 1 }, &m);
                s.ev(match v {
                    Verdict::Process => "verdict_process",
                    Verdict::Skip => "verdict_skip",
                    Verdict::Fail => "verdict_disconnect",
                }, 1);
                s.state((std::mem::discriminant(&m), v, matches!(who, Who::User(_))));
                match v {
                    Verdict::Skip => continue,
                    Verdict::Fail => {
                        why = format!("the hook refused {m:?}");
                        conns[i].alive = false;
                        continue;
                    }
                    Verdict::Process => {}
                }
                let from_user = matches!(who, Who::User(_));
                match &m {
                    Message::Direct(d) => {
                        // Whoever is alive: a session that was just ended by this burst no longer counts.
                        for (j, c) in conns.iter().enumerate() {
                            let to = match c.who {
                                Who::User(u) => uk(u) == d.recipient,
                                Who::Peer(p) => from_user && remote.get(&d.recipient) == Some(&p),
                            };
                            if c.alive && to {
                                expect.entry(j).or_default().push(m.clone());
                            }
                        }
                    }
                    Message::Broadcast(x) => {
                        let ts = valid(&x.topics);
                        if ts.is_empty() && from_user {
                            why = "it named no known topic".into();
                            conns[i].alive = false;
                            continue;
                        }
                        for (j, c) in conns.iter().enumerate() {
                            if c.alive && !c.subs.is_disjoint(&ts) && (from_user || matches!(c.who, Who::User(_))) {
                                expect.entry(j).or_default().push(m.clone());
                            }
                        }
                    }
                    Message::Subscribe(t) | Message::Unsubscribe(t) if from_user => {
                        let ts = valid(t);
                        if ts.is_empty() {
                            why = "it named no known topic".into();
                            conns[i].alive = false;
                        } else if matches!(m, Message::Subscribe(_)) {
                            conns[i].subs.extend(ts);
                        } else {
                            for t in ts {
                                conns[i].subs.remove(&t);
                            }
                        }
                    }
                    Message::TopicSync(bytes) if !from_user => match crate::announce::read_topic_sync(bytes) {
                        Some(t) => {
                            // (Full states, later ones newer.)
                            conns[i].subs = VALID.iter().copied().filter(|x| t.get(x) == Some(&SubscriptionStatus::Subscribed)).collect();
                        }
                        None => {
                            why = "unreadable announcement".into();
                            conns[i].alive = false;
                        }
                    },
                    Message::UserSync(bytes) if !from_user => match crate::announce::read_user_sync(bytes) {
                        Some(d) => {
                            let Who::Peer(p) = who else { unreachable!() };
                            for k in d.underlying_map.keys() {
                                remote.insert(k.as_ref().clone(), p);
                            }
                        }
                        None => {
                            why = "unreadable announcement".into();
                            conns[i].alive = false;
                        }
                    },
                    _ if from_user => {
                        why = "not for users to send".into();
                        conns[i].alive = false;
                    }
                    _ => {}
                }
            }
        }
        s.log(format!("r{round}: {who:?} sends {}", burst.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>().join(", ")));
        for (_, bytes) in &burst {
            conns[i].raw.send_frame(bytes).await;
        }
        s.ev("messages", burst.len() as u64);
        settle().await;
        settle().await;
        for (j, c) in conns.iter_mut().enumerate() {
            let got: Vec<Message> = c
                .raw
                .drain()
                .into_iter()
                .filter(|m| !matches!((c.who, m), (Who::Peer(_), Message::UserSync(_) | Message::TopicSync(_))))
                .collect();
            if !c.alive && j == i {
                // What was still on its way to it may be lost.
                s.check(c.raw.closed(), "verdict not obeyed: not disconnected", || format!("round {round}: {:?}, though {why}", c.who));
                continue;
            }
            let want = expect.remove(&j).unwrap_or_default();
            if c.alive {
                s.check(!c.raw.closed(), "disconnected without cause", || format!("round {round}: {:?} while {who:?} sent", c.who));
            }
            s.check(got == want, if got.len() > want.len() { "verdict not obeyed: processed" } else { "verdict not obeyed: not processed" }, || {
                format!("round {round}: {:?} got {got:?}, should have got {want:?} from {who:?}", c.who)
            });
        }
        if s.failed() {
            return;
        }
    }
    judge_calls(s, &conns, &user_calls, true);
    judge_calls(s, &conns, &peer_calls, false);
}

/// The calls of each instance are the messages of one connection.
fn judge_calls(s: &mut Scn, conns: &[Conn], calls: &Calls, users: bool) {
    let mut per: BTreeMap<u64, Vec<(HookCall, Message)>> = BTreeMap::new();
    for (c, m) in calls.lock().iter() {
        per.entry(c.instance).or_default().push((c.clone(), m.clone()));
    }
    let mut ids: BTreeMap<Who, u64> = BTreeMap::new();
    let mut instances = per.into_iter();
    // (Instances are numbered in the order in which connections were made.)
    for c in conns.iter().filter(|c| matches!(c.who, Who::User(_)) == users && !c.seen.is_empty()) {
        s.ev("connections_with_hook", 1);
        let Some((_, got)) = instances.next() else {
            s.fail("messages without hook", format!("{:?} sent {} messages and no hook of its own saw them", c.who, c.seen.len()));
            return;
        };
        let seen: Vec<Message> = got.iter().map(|x| x.1.clone()).collect();
        s.check(seen == c.seen, "hook did not see the messages of its connection", || {
            format!("{:?}: the hook saw {seen:?}, it sent {:?}", c.who, c.seen)
        });
        let nth: Vec<u64> = got.iter().map(|x| x.0.nth).collect();
        s.check(nth == (0..got.len() as u64).collect::<Vec<_>>(), "state of another hook", || format!("{:?}: call numbers {nth:?}", c.who));
        let id: BTreeSet<u64> = got.iter().map(|x| x.0.identifier).collect();
        let same = id.len() == 1;
        s.check(same, "identity changes", || format!("{:?}: {id:?}", c.who));
        let id = *id.first().expect("non-empty");
        let before = *ids.entry(c.who).or_insert(id);
        s.check(before == id, "another identity for the same key", || format!("{:?}: {before} and {id}", c.who));
    }
    let extra: Vec<u64> = instances.map(|x| x.0).collect();
    s.check(extra.is_empty(), "hook called without a message", || format!("{} instances more than connections", extra.len()));
    let distinct: BTreeSet<u64> = ids.values().copied().collect();
    s.check(distinct.len() == ids.len() && !distinct.contains(&0), "identities are not distinct", || format!("{ids:?}"));
}

/// Many connections sending at the same time.
async fn together(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let calls: Calls = Calls::default();
    let log = calls.clone();
    let h = Hook::watching(move |c, m| {
        log.lock().push((c.clone(), m.clone()));
        match m {
            Message::Direct(d) if d.message.last() == Some(&1) => Ok(HookResult::SkipMessage),
            Message::Direct(d) if d.message.last() == Some(&2) => anyhow::bail!("no"),
            _ => Ok(HookResult::ProcessMessage),
        }
    });
    let b = w.broker_with("m", BrokerOpts { user_hook: h, ..Default::default() }).await;
    settle().await;
    let n = s.rng.gen_range(2..=8u64);
    let mut conns = vec![];
    for u in 0..n {
        match w.user_with_key(&b.id, uk(u), &[]).await {
            Ok(raw) => conns.push(Conn { raw, who: Who::User(u), alive: true, subs: Subs::new(), seen: vec![] }),
            Err(e) => return s.fail("user not admitted", e),
        }
        settle().await;
    }
    let mut expect: Vec<BTreeMap<u64, Vec<u64>>> = vec![BTreeMap::new(); n as usize];
    let mut id = 0u64;
    for step in 0..60 {
        for i in 0..n as usize {
            if s.rng.gen_bool(0.5) {
                continue;
            }
            id += 1;
            let to = s.rng.gen_range(0..n);
            // Only late, so that every connection has a history.
            let kind = match s.rng.gen_range(0..10) {
                0 if step > 50 => 2u8,
                0..=3 => 1,
                _ => 0,
            };
            let m = Message::Direct(Direct { recipient: uk(to), message: [&id.to_le_bytes()[..], &[kind]].concat() });
            if conns[i].alive {
                conns[i].seen.push(m.clone());
                conns[i].alive = kind != 2;
                if kind == 0 {
                    expect[to as usize].entry(i as u64).or_default().push(id);
                }
            }
            conns[i].raw.send(&m).await;
        }
        if s.rng.gen_bool(0.2) {
            tokio::time::sleep(std::time::Duration::from_millis(s.rng.gen_range(0..30))).await;
        }
    }
    settle().await;
    settle().await;
    for i in 0..n as usize {
        let (closed, alive) = (conns[i].raw.closed(), conns[i].alive);
        s.check(closed != alive, "verdict not obeyed: not disconnected", || format!("user {i}: closed {closed}, should be alive {alive}"));
        if !alive {
            continue;
        }
        let got: Vec<u64> = conns[i]
            .raw
            .drain()
            .into_iter()
            .filter_map(|m| match m {
                Message::Direct(d) => Some(u64::from_le_bytes(d.message[..8].try_into().ok()?)),
                _ => None,
            })
            .collect();
        let mut want: Vec<u64> = expect[i].values().flatten().copied().collect();
        let mut sorted = got.clone();
        sorted.sort_unstable();
        want.sort_unstable();
        s.check(sorted == want, "verdict not obeyed: not processed", || format!("user {i} got {sorted:?}, should have got {want:?}"));
        s.state((n, want.len() / 8));
    }
    s.ev("messages", id);
    judge_calls(s, &conns, &calls, true);
}
