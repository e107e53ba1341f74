//! P07: after the end of a user's connection, nothing of it is left: not in the broker's counts, not in what it tells
//! its peers, not in what they forward.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

use cdn_broker::verif::{SubscriptionStatus, TopicSyncMap};
use cdn_proto::def::HookResult;
use cdn_proto::message::{AuthenticateWithPermit, Message};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use tokio::time::sleep;

use super::util::{faults, topic_list, valid, Subs};
use crate::announce::{read_topic_sync, Announcer};
use crate::disco::{Fault, Op};
use crate::group;
use crate::net::Faults;
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, settle, BrokerH, BrokerOpts, Hook, Raw, World, INVALID, VALID};

pub fn groups() -> Vec<Group> {
    let mut v = vec![
        group!("departures", departures, Rt::Virtual, 500, 20_000),
        group!("departures-gauges", gauges, Rt::Virtual, 120, 2_000),
        group!("departures-storm", storm, Rt::Multi(6), 3, 40),
    ];
    v[1].par = 1;
    v[2].par = 3;
    v
}

/// A scripted peer broker that listens to everything brokers announce.
struct Listener {
    raws: Vec<Raw>,
    users: Announcer,
    topics: Vec<TopicSyncMap>,
}

impl Listener {
    async fn new(w: &World, brokers: &[BrokerH], name: &str) -> Result<Self, String> {
        let mut raws = vec![];
        for b in brokers {
            raws.push(w.peer(&b.id, name).await?);
        }
        Ok(Self {
            raws,
            users: Announcer::new(w.broker_id(name)),
            topics: brokers.iter().map(|_| TopicSyncMap::new(0)).collect(),
        })
    }
    /// Take in everything that has arrived, in order of arrival; messages that are no announcements are returned.
    fn hear(&mut self, s: &mut Scn) -> usize {
        let mut all = vec![];
        for (i, r) in self.raws.iter_mut().enumerate() {
            all.extend(r.drain_at().into_iter().map(|(t, m)| (t, i, m)));
        }
        all.sort_by_key(|x| x.0);
        let mut other = 0;
        for (_, i, m) in all {
            match &m {
                Message::UserSync(_) => {
                    s.check(self.users.hear(&m), "unreadable announcement", || format!("from broker {i}"));
                }
                Message::TopicSync(b) => match read_topic_sync(b) {
                    Some(t) => {
                        self.topics[i].merge(t);
                    }
                    None => s.fail("unreadable announcement", format!("from broker {i}")),
                },
                _ => other += 1,
            }
        }
        other
    }
    fn topics_of(&self, i: usize) -> Subs {
        (0..=255).filter(|t| self.topics[i].get(t) == Some(&SubscriptionStatus::Subscribed)).collect()
    }
}

/// Ways for a user's connection to end.
async fn depart(rng: &mut StdRng, r: &mut Raw, arrived: bool) -> &'static str {
    match rng.gen_range(0..if arrived { 12 } else { 7 }) {
        0 | 1 => {
            r.hang_up();
            "hangs up"
        }
        2 => {
            if let Some(l) = &r.link {
                l.reset();
            }
            "is reset"
        }
        3 => {
            r.close_write();
            "ends its stream"
        }
        4 => {
            let n = rng.gen_range(1..50);
            let v: Vec<u8> = (0..n).map(|_| rng.gen::<u8>() | 1).collect();
            r.send_frame(&v).await;
            "sends garbage"
        }
        5 => {
            r.send_bytes(&[0, 0]).await;
            r.close_write();
            "ends in mid-length"
        }
        6 => {
            r.send_bytes(&[0, 0, 0, 9, 1, 2, 3]).await;
            r.hang_up();
            "hangs up in mid-frame"
        }
        7 => {
            let t = *INVALID.choose(rng).expect("some");
            match rng.gen_range(0..3) {
                0 => r.subscribe(&[t]).await,
                1 => r.unsubscribe(&[t, t]).await,
                _ => r.broadcast(&[t], b"to nobody").await,
            };
            "names no known topic"
        }
        8 => {
            let m = match rng.gen_range(0..4) {
                0 => Message::UserSync(vec![]),
                1 => Message::TopicSync(vec![1]),
                2 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 5 }),
                _ => Message::AuthenticateResponse(cdn_proto::message::AuthenticateResponse { permit: 1, context: String::new() }),
            };
            r.send(&m).await;
            "sends what is not for users to send"
        }
        9 => {
            r.send_bytes(&[0xff; 8]).await;
            "announces a message beyond the limit"
        }
        10 => {
            r.direct(&pk(1), b"leave").await;
            "is disconnected by the hook"
        }
        _ => {
            // Both directions, at different times.
            r.subscribe(&VALID).await;
            if let Some(l) = &r.link {
                l.b2a.cut(true);
            }
            sleep(Duration::from_millis(20)).await;
            r.hang_up();
            "goes in two steps"
        }
    }
}

fn leaver() -> Hook {
    Hook::new(|_, m| match m {
        Message::Direct(d) if d.message == b"leave" => anyhow::bail!("as the message says"),
        _ => Ok(HookResult::ProcessMessage),
    })
}

async fn departures(s: &mut Scn) {
    // The same latency everywhere: what an announcement led to arrives after it.
    let mut f = faults(&mut s.rng);
    let l = s.rng.gen_range(1..=20) * 1000;
    f.latency_us = (l, l);
    let w = World::new(s.seed, f);
    let nb = s.rng.gen_range(1..=3);
    let mut brokers: Vec<BrokerH> = vec![];
    for i in 0..nb {
        brokers.push(w.broker_with(&format!("b{i}"), BrokerOpts { user_hook: leaver(), ..Default::default() }).await);
    }
    secs(25.0).await;
    // Somebody on each broker who sends, and remains.
    let mut senders = vec![];
    for (i, b) in brokers.iter().enumerate() {
        match w.user(&b.id, 10 + i as u64, &[]).await {
            Ok(r) => senders.push(r),
            Err(e) => return s.fail("user not admitted", e),
        }
    }
    let mut lis = match Listener::new(&w, &brokers, if s.rng.gen() { "a" } else { "z" }).await {
        Ok(l) => l,
        Err(e) => return s.fail("peer not admitted", e),
    };
    settle().await;
    // It takes part in the announcements from their start: what it hears is all there is.
    lis.hear(s);
    let n_keys = s.rng.gen_range(1..=8u64);
    let mut pool = VALID.to_vec();
    pool.shuffle(&mut s.rng);
    pool.truncate(s.rng.gen_range(1..=5));
    let mut users: BTreeMap<u64, (Raw, usize, Subs)> = BTreeMap::new();
    let mut ways: BTreeSet<&'static str> = BTreeSet::new();
    let mut gone: Vec<Raw> = vec![];
    for round in 0..s.rng.gen_range(2..=6) {
        let mut hb_down = false;
        if s.rng.gen_bool(0.15) {
            w.svc.fault(Op::Heartbeat, None, Fault::Err);
            hb_down = true;
        }
        for _ in 0..s.rng.gen_range(1..=14) {
            let k = 100 + s.rng.gen_range(0..n_keys);
            let here = users.contains_key(&k);
            match s.rng.gen_range(0..10) {
                0..=4 => {
                    // Comes, comes again or moves.
                    let b = s.rng.gen_range(0..nb);
                    let topics = if s.rng.gen_bool(0.2) { vec![] } else { topic_list(&mut s.rng, &pool, false) };
                    match w.user(&brokers[b].id, k, &topics).await {
                        Ok(r) => {
                            s.log(format!("r{round}: user {k} comes to b{b} with {topics:?}"));
                            if let Some((o, _, _)) = users.insert(k, (r, b, valid(&topics))) {
                                gone.push(o);
                                s.ev("replaced", 1);
                            }
                            s.ev("arrivals", 1);
                        }
                        Err(e) => return s.fail("user not admitted", e),
                    }
                    // One that leaves at once, before anything has come of its coming.
                    if s.rng.gen_bool(0.15) {
                        if here {
                            // (A session that never began replaces none.)
                            settle().await;
                        }
                        let (mut r, b, _) = users.remove(&k).expect("just came");
                        let way = depart(&mut s.rng, &mut r, true).await;
                        s.log(format!("r{round}: user {k} {way} at once on b{b}"));
                        gone.push(r);
                        ways.insert(way);
                        s.ev("departures", 1);
                    }
                }
                5 | 6 if here => {
                    let (r, _, subs) = users.get_mut(&k).expect("here");
                    let t = topic_list(&mut s.rng, &pool, true);
                    if s.rng.gen() {
                        r.subscribe(&t).await;
                        subs.extend(valid(&t));
                    } else {
                        r.unsubscribe(&t).await;
                        for t in valid(&t) {
                            subs.remove(&t);
                        }
                    }
                    s.log(format!("r{round}: user {k} has {subs:?}"));
                }
                7 => {
                    // One that does not even arrive.
                    let b = s.rng.gen_range(0..nb);
                    if let Ok(mut r) = w.raw(&brokers[b].id.public_advertise_endpoint).await {
                        let permit = w.svc.permit(&brokers[b].id, pk(k + 1000));
                        r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
                        if s.rng.gen() {
                            settle().await;
                        }
                        depart(&mut s.rng, &mut r, false).await;
                        gone.push(r);
                        s.ev("departures_before_arrival", 1);
                    }
                }
                _ if here => {
                    let (mut r, b, _) = users.remove(&k).expect("here");
                    let way = depart(&mut s.rng, &mut r, true).await;
                    s.log(format!("r{round}: user {k} {way} on b{b}"));
                    gone.push(r);
                    ways.insert(way);
                    s.ev("departures", 1);
                }
                _ => {}
            }
            if s.rng.gen_bool(0.1) {
                secs(11.0).await;
            } else {
                settle().await;
            }
        }
        if hb_down {
            w.svc.clear_faults();
        }
        // One synchronisation interval; the peers' own heartbeat may take as long.
        secs(10.5).await;
        if hb_down {
            secs(10.5).await;
        }
        lis.hear(s);
        let on = |b: usize| users.values().filter(|u| u.1 == b).count() + 1;
        let topics_on = |b: usize| -> Subs { users.values().filter(|u| u.1 == b).flat_map(|u| u.2.iter().copied()).collect() };
        for (k, (r, b, _)) in &users {
            s.check(!r.closed(), "remaining user disconnected", || format!("round {round}: user {k} on b{b}"));
        }
        // What the broker reports.
        for (i, b) in brokers.iter().enumerate() {
            let last = w.svc.calls(Op::Heartbeat).into_iter().rev().find(|c| c.who == b.id.to_string());
            let n = last.as_ref().map(|c| c.num as usize);
            s.check(n == Some(on(i)), "wrong number of users reported", || {
                format!("round {round}: b{i} reports {n:?} users and has {}", on(i))
            });
        }
        // What it tells peers that were there and peers that come now.
        let mut fresh = match Listener::new(&w, &brokers, "k").await {
            Ok(l) => l,
            Err(e) => return s.fail("peer not admitted", e),
        };
        settle().await;
        fresh.hear(s);
        for (who, l) in [("a listening peer", &lis), ("a new peer", &fresh)] {
            for k in 100..100 + n_keys {
                for k in [k, k + 1000] {
                    let want = users.get(&k).map(|u| brokers[u.1].id.clone());
                    let have = l.users.location(&pk(k));
                    s.check(have == want, if want.is_none() { "departed user still announced" } else { "wrong location announced" }, || {
                        format!("round {round}: {who} is told that user {k} is at {have:?}, it is at {want:?}")
                    });
                }
            }
            for i in 0..nb {
                let (have, want) = (l.topics_of(i), topics_on(i));
                s.check(have == want, "wrong topics announced", || {
                    format!("round {round}: {who} is told that b{i} wants {have:?}; its users want {want:?}")
                });
            }
        }
        // What is sent: every topic and key, from every broker.
        for r in &mut gone {
            r.drain();
        }
        let totals = |w: &World| -> Vec<(u64, u64)> { w.net.open_links().iter().map(|l| (l.id, l.a2b.total() + l.b2a.total())).collect() };
        for (i, sender) in senders.iter_mut().enumerate() {
            for t in VALID {
                let before = totals(&w);
                sender.broadcast(&[t], b"x").await;
                secs(0.3).await;
                let after = totals(&w);
                // Each broker that wants it gets it from broker i; its users get it; nobody else anything.
                let moved = after.iter().filter(|(id, n)| before.iter().any(|(i2, n2)| i2 == id && n2 != n)).count();
                let want = 1
                    + (0..nb).filter(|j| *j != i && topics_on(*j).contains(&t)).count()
                    + users.values().filter(|u| u.2.contains(&t)).count();
                s.check(moved <= want, "sent for nobody", || {
                    format!("round {round}: topic {t} from b{i}: {moved} connections carried it, {want} should")
                });
                s.check(moved >= want, "remaining users forgotten", || {
                    format!("round {round}: topic {t} from b{i}: {moved} connections carried it, {want} should")
                });
            }
            for k in 100..100 + n_keys {
                let before = totals(&w);
                sender.direct(&pk(k), b"x").await;
                secs(0.3).await;
                let after = totals(&w);
                let moved = after.iter().filter(|(id, n)| before.iter().any(|(i2, n2)| i2 == id && n2 != n)).count();
                let want = 1 + users.get(&k).map_or(0, |u| if u.1 == i { 1 } else { 2 });
                s.check(moved <= want, "sent for nobody", || {
                    format!("round {round}: to user {k} from b{i}: {moved} connections carried it, {want} should")
                });
                s.check(moved >= want, "remaining users forgotten", || {
                    format!("round {round}: to user {k} from b{i}: {moved} connections carried it, {want} should")
                });
            }
        }
        for r in &mut gone {
            let g = r.drain();
            s.check(g.is_empty(), "sent to one that left", || format!("round {round}: {g:?}"));
        }
        lis.hear(s);
        s.state((users.len(), gone.len().min(12), nb, ways.len()));
        for w in &ways {
            s.state(w);
        }
        s.ev("quiet_points", 1);
        if s.failed() {
            return;
        }
    }
}

fn gauge(name: &str) -> Option<i64> {
    prometheus::gather().iter().find(|f| f.get_name() == name).map(|f| f.get_metric()[0].get_gauge().get_value() as i64)
}

/// The metrics (one scenario at a time: they are the process's).
async fn gauges(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker_with("m", BrokerOpts { user_hook: leaver(), ..Default::default() }).await;
    settle().await;
    let base = (gauge("num_users_connected").unwrap_or(0), gauge("num_brokers_connected").unwrap_or(0));
    let mut users: BTreeMap<u64, Raw> = BTreeMap::new();
    let mut peers: BTreeMap<usize, Raw> = BTreeMap::new();
    let mut old = vec![];
    for step in 0..s.rng.gen_range(5..40) {
        let k = s.rng.gen_range(0..6u64);
        match s.rng.gen_range(0..8) {
            0..=2 => match w.user(&b.id, k, &[1]).await {
                Ok(r) => old.extend(users.insert(k, r)),
                Err(e) => return s.fail("user not admitted", e),
            },
            3 | 4 => {
                if let Some(mut r) = users.remove(&k) {
                    depart(&mut s.rng, &mut r, true).await;
                    old.push(r);
                }
            }
            5 => {
                let i = s.rng.gen_range(0..3);
                match w.peer(&b.id, &format!("p{i}")).await {
                    Ok(mut r) => {
                        // Peers announce users, which are not users of this broker (but may have been).
                        if s.rng.gen() {
                            let mut a = Announcer::new(w.broker_id(&format!("p{i}")));
                            for _ in 0..30 * (step + 1) {
                                a.join(&pk(k));
                                let _ = a.users_diff();
                            }
                            a.leave(&pk(k));
                            a.join(&pk(k));
                            r.send(&a.users_diff()).await;
                            old.extend(users.remove(&k));
                        }
                        old.extend(peers.insert(i, r));
                    }
                    Err(e) => return s.fail("peer not admitted", e),
                }
            }
            6 => {
                let i = s.rng.gen_range(0..3);
                if let Some(mut r) = peers.remove(&i) {
                    match s.rng.gen_range(0..3) {
                        0 => r.hang_up(),
                        1 => {
                            r.send_frame(b"garbage").await;
                        }
                        _ => {
                            r.send(&Message::UserSync(vec![7; 9])).await;
                        }
                    }
                    old.push(r);
                }
            }
            _ => {
                if let Some(r) = users.values_mut().next() {
                    r.broadcast(&[1], b"x").await;
                }
            }
        }
        settle().await;
        let now = (
            gauge("num_users_connected").unwrap_or(0) - base.0,
            gauge("num_brokers_connected").unwrap_or(0) - base.1,
        );
        s.check(now.0 == users.len() as i64, "wrong number of users in the metrics", || {
            format!("step {step}: {} in the metrics, {} connected", now.0, users.len())
        });
        s.check(now.1 == peers.len() as i64, "wrong number of brokers in the metrics", || {
            format!("step {step}: {} in the metrics, {} connected", now.1, peers.len())
        });
        s.ev("gauge_readings", 2);
        s.state((now, old.len().min(10)));
        if s.failed() {
            return;
        }
    }
}

/// Users that come and go at once, on several threads: in the end nobody is there.
async fn storm(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let b = w.broker_with("m", BrokerOpts { user_hook: leaver(), ..Default::default() }).await;
    sleep(Duration::from_millis(20)).await;
    let Ok(mut peer) = w.peer(&b.id, "z").await else { return s.fail("peer not admitted", String::new()) };
    let Ok(mut chatter) = w.user(&b.id, 1, &[]).await else { return s.fail("user not admitted", String::new()) };
    let stop = Arc::new(AtomicBool::new(false));
    let stop2 = stop.clone();
    let chat = tokio::spawn(async move {
        let mut i = 0u64;
        while !stop2.load(Ordering::SeqCst) {
            i += 1;
            chatter.broadcast(&VALID, b"chat").await;
            chatter.direct(&pk(100 + i % 40), b"chat").await;
            if i % 16 == 0 {
                sleep(Duration::from_micros(50)).await;
            }
        }
        chatter
    });
    let mut tasks = vec![];
    for i in 0..8u64 {
        let (w, id) = (World { net: w.net.clone(), svc: w.svc.clone(), path: w.path.clone() }, b.id.clone());
        let mut rng = StdRng::seed_from_u64(s.seed ^ i);
        tasks.push(tokio::spawn(async move {
            let until = std::time::Instant::now() + Duration::from_millis(2500);
            let (mut n, mut ways) = (0u64, BTreeSet::new());
            let mut kept = vec![];
            while std::time::Instant::now() < until {
                // Keys are shared by two tasks, so sessions also replace each other.
                let k = 100 + i / 2 * 10 + rng.gen_range(0..10);
                let Ok(mut r) = w.raw(&id.public_advertise_endpoint).await else { continue };
                let permit = w.svc.permit(&id, pk(k));
                let mut all = vec![];
                for m in [Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }), Message::Subscribe(vec![1, 2])] {
                    let v = m.serialize().expect("serializes");
                    all.extend((v.len() as u32).to_be_bytes());
                    all.extend(v);
                }
                let pipelined = rng.gen_bool(0.5);
                if pipelined {
                    // And its end in the same breath.
                    all.extend([0, 0, 0, 3, 9, 9, 9]);
                }
                r.send_bytes(&all).await;
                if !pipelined {
                    if rng.gen() {
                        r.next(Duration::from_secs(10)).await;
                    }
                    ways.insert(depart(&mut rng, &mut r, true).await);
                }
                n += 1;
                kept.push(r);
                if kept.len() > 50 {
                    kept.remove(0);
                }
            }
            (n, ways, kept)
        }));
    }
    let mut kept = vec![];
    for t in tasks {
        match t.await {
            Ok((n, ways, k)) => {
                s.ev("departures", n);
                for w in ways {
                    s.state(w);
                }
                kept.push(k);
            }
            Err(e) => return s.inconclusive(format!("{e}")),
        }
    }
    stop.store(true, Ordering::SeqCst);
    let Ok(mut chatter) = chat.await else { return s.inconclusive("chatter".to_string()) };
    // Messages to those that left go nowhere, and peers are told that they left.
    // (Authentications under way end within five seconds; the reports follow within ten.)
    sleep(Duration::from_millis(16_000)).await;
    let mut a = Announcer::new(w.broker_id("z"));
    let mut topics = TopicSyncMap::new(0);
    for m in peer.drain() {
        match &m {
            Message::UserSync(_) => {
                a.hear(&m);
            }
            Message::TopicSync(b) => {
                if let Some(t) = read_topic_sync(b) {
                    topics.merge(t);
                }
            }
            _ => {}
        }
    }
    let left: Vec<u64> = (100..150).filter(|k| a.location(&pk(*k)).is_some()).collect();
    s.check(left.is_empty(), "departed user still announced", || format!("{left:?} after the storm"));
    let t: Vec<u8> = (0..=255).filter(|t| topics.get(t) == Some(&SubscriptionStatus::Subscribed)).collect();
    s.check(t.is_empty(), "wrong topics announced", || format!("{t:?} wanted by nobody, after the storm"));
    let last = w.svc.calls(Op::Heartbeat).pop().map(|c| c.num);
    s.check(last == Some(1), "wrong number of users reported", || format!("{last:?} instead of 1 after the storm"));
    s.check(chatter.broadcast(&[1], b"x").await && !chatter.closed(), "remaining user disconnected", String::new);
    s.ev("reports", 1);
}
