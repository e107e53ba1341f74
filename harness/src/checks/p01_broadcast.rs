//! P01: a broadcast reaches exactly the current subscribers of its topics, once each.
use std::collections::{BTreeMap, HashMap};

use cdn_proto::message::{Broadcast, Message};
use rand::{seq::SliceRandom, Rng};

use super::util::{faults, payload, payload_id, topic_list, valid, Subs};
use crate::group;
use crate::run::{Group, Rt, Scn};
use crate::world::{settle, Raw, World, INVALID, VALID};

pub fn groups() -> Vec<Group> {
    vec![group!("broadcast-model", scenario, Rt::Virtual, 2500, 60_000)]
}

#[derive(Clone, Debug)]
enum Op {
    Sub(Vec<u8>),
    Unsub(Vec<u8>),
    /// Topics, payload, how many times in a row.
    Cast(Vec<u8>, Vec<u8>, u64),
    /// A direct message to oneself: interleaved traffic that must not disturb anything.
    Direct(Vec<u8>),
}

struct User {
    raw: Raw,
    subs: Subs,
}

async fn scenario(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("b0").await;
    settle().await;
    let n_users = s.rng.gen_range(2..=6u64);
    let n_topics = s.rng.gen_range(1..=VALID.len());
    let mut pool = VALID.to_vec();
    pool.shuffle(&mut s.rng);
    pool.truncate(n_topics);
    let mut users: BTreeMap<u64, User> = BTreeMap::new();
    let mut next_id = 1u64;
    let rounds = s.rng.gen_range(8..=25);
    for round in 0..rounds {
        // Membership changes happen between rounds.
        for k in 0..n_users {
            let here = users.contains_key(&k);
            let r = s.rng.gen_range(0..100);
            if (!here && r < 60) || (here && r < 6) {
                let topics = if s.rng.gen_bool(0.2) { vec![] } else { topic_list(&mut s.rng, &pool, false) };
                match w.user(&b.id, k, &topics).await {
                    Ok(raw) => {
                        s.log(format!("r{round}: user {k} connects with {topics:?}"));
                        s.ev(if here { "reconnects_over_live_session" } else { "connects" }, 1);
                        users.insert(k, User { raw, subs: valid(&topics) });
                    }
                    Err(e) => return s.fail("user not admitted", e),
                }
            } else if here && r < 10 {
                s.log(format!("r{round}: user {k} leaves"));
                s.ev("disconnects", 1);
                users.get_mut(&k).expect("here").raw.hang_up();
                users.remove(&k);
            } else if here && r < 13 {
                // A message without a single valid topic reaches nobody.
                let u = users.get_mut(&k).expect("here");
                let bad = if s.rng.gen_bool(0.3) { vec![] } else { vec![*INVALID.choose(&mut s.rng).expect("some")] };
                s.log(format!("r{round}: user {k} broadcasts to no valid topic: {bad:?}"));
                s.ev("broadcasts_without_valid_topic", 1);
                u.raw.broadcast(&bad, &payload(&mut s.rng, 0)).await;
                settle().await;
                users.remove(&k);
            }
        }
        settle().await;
        // Each user's operations this round, sent pipelined, all users concurrently.
        let mut plan: BTreeMap<u64, Vec<Op>> = BTreeMap::new();
        let mut sent: HashMap<u64, (u64, usize, Message, u64)> = HashMap::new();
        for &k in users.keys() {
            let n = s.rng.gen_range(0..=4);
            let ops = (0..n)
                .map(|i| match s.rng.gen_range(0..10) {
                    0..=1 => Op::Sub(topic_list(&mut s.rng, &pool, true)),
                    2..=3 => Op::Unsub(topic_list(&mut s.rng, &pool, true)),
                    4 => Op::Direct(payload(&mut s.rng, 0)),
                    _ => {
                        let (t, p) = (topic_list(&mut s.rng, &pool, true), payload(&mut s.rng, next_id));
                        let m = Message::Broadcast(Broadcast { topics: t.clone(), message: p.clone() });
                        // Equal messages are still separate messages.
                        let times = if s.rng.gen_bool(0.15) { s.rng.gen_range(2..=3) } else { 1 };
                        sent.insert(next_id, (k, i, m, times));
                        next_id += 1;
                        Op::Cast(t, p, times)
                    }
                })
                .collect::<Vec<_>>();
            plan.insert(k, ops);
        }
        // The subscription states each user goes through: history[k][i] is in effect when its i-th op is sent.
        let mut history: BTreeMap<u64, Vec<Subs>> = BTreeMap::new();
        for (&k, u) in &users {
            let mut h = vec![u.subs.clone()];
            for op in &plan[&k] {
                let mut now = h.last().expect("non-empty").clone();
                match op {
                    Op::Sub(t) => now.extend(valid(t)),
                    Op::Unsub(t) => now.retain(|x| !t.contains(x)),
                    _ => {}
                }
                h.push(now);
            }
            history.insert(k, h);
        }
        for (&k, u) in users.iter_mut() {
            for op in &plan[&k] {
                s.log(format!("r{round}: user {k}: {}", brief(op)));
                match op {
                    Op::Sub(t) => u.raw.subscribe(t).await,
                    Op::Unsub(t) => u.raw.unsubscribe(t).await,
                    Op::Cast(t, p, times) => {
                        for _ in 1..*times {
                            u.raw.broadcast(t, p).await;
                        }
                        u.raw.broadcast(t, p).await
                    }
                    Op::Direct(p) => {
                        let me = crate::world::pk(k);
                        u.raw.direct(&me, p).await
                    }
                };
            }
        }
        settle().await;
        settle().await;
        // What each user got.
        for (&k, u) in users.iter_mut() {
            let mut got: HashMap<u64, u64> = HashMap::new();
            for m in u.raw.drain() {
                match &m {
                    Message::Broadcast(x) => {
                        let id = payload_id(&x.message);
                        match sent.get(&id) {
                            None => s.fail(
                                "unexpected broadcast",
                                format!("user {k} got a broadcast that nobody sent this round: topics {:?}, id {id}", x.topics),
                            ),
                            Some((_, _, original, _)) if *original != m => s.fail(
                                "altered broadcast",
                                format!("user {k} got broadcast {id} with other contents than were sent"),
                            ),
                            Some(_) => *got.entry(id).or_default() += 1,
                        }
                    }
                    Message::Direct(_) => {}
                    other => s.fail("unexpected message", format!("user {k} got {other:?}")),
                }
            }
            for (&id, (from, at, m, times)) in &sent {
                let Message::Broadcast(x) = m else { continue };
                let topics = valid(&x.topics);
                let hits = |h: &Subs| h.intersection(&topics).next().is_some();
                let (must, may) = if *from == k {
                    let h = hits(&history[&k][*at]);
                    (h, h)
                } else {
                    (history[&k].iter().all(hits), history[&k].iter().any(hits))
                };
                let n = got.get(&id).copied().unwrap_or(0);
                s.state((k, topics.clone(), history[&k].last().expect("some").clone(), *from == k, must, may));
                s.check(n <= *times, "delivered more than once", || format!("user {k} got broadcast {id}, sent {times} times, {n} times"));
                s.check(!must || n >= *times, "subscriber missed a broadcast", || {
                    format!("user {k}, subscribed throughout to one of {topics:?}, got broadcast {id} of user {from} {n} of {times} times (subscriptions: {:?})", history[&k])
                });
                s.check(may || n == 0, "delivered to a non-subscriber", || {
                    format!("user {k}, never subscribed to any of {topics:?}, got broadcast {id} of user {from} (subscriptions: {:?})", history[&k])
                });
                s.ev("deliveries", n);
            }
            s.check(!u.raw.closed(), "well-behaved user disconnected", || format!("user {k} was disconnected in round {round}"));
        }
        for (k, u) in users.iter_mut() {
            u.subs = history[k].last().expect("some").clone();
        }
        s.ev("broadcasts", sent.len() as u64);
        if s.failed() {
            return;
        }
    }
    if b.exited() {
        s.fail("broker exited", "the broker's main task ended");
    }
}

fn brief(op: &Op) -> String {
    match op {
        Op::Sub(t) => format!("subscribe {t:?}"),
        Op::Unsub(t) => format!("unsubscribe {t:?}"),
        Op::Cast(t, p, times) => format!("broadcast {} to {t:?} ({} bytes) x{times}", payload_id(p), p.len()),
        Op::Direct(p) => format!("direct to self ({} bytes)", p.len()),
    }
}
