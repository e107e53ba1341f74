//! P06: the newest session of a key receives everything, with its own subscriptions only, whatever the older ones did
//! or still do; the same for the connections between two brokers.
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::def::HookResult;
use cdn_proto::message::{Broadcast, Direct, Message};
use rand::{rngs::StdRng, Rng, SeedableRng};
use tokio::time::{sleep, timeout};

use super::util::{faults, topic_list, valid, Subs};
use crate::announce::{topic_sync, Announcer};
use crate::group;
use crate::net::Faults;
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, settle, BrokerH, BrokerOpts, Hook, Raw, World, VALID};

pub fn groups() -> Vec<Group> {
    let mut v = vec![
        group!("sessions", sessions, Rt::Virtual, 700, 20_000),
        group!("sessions-at-once", at_once, Rt::Virtual, 400, 10_000),
        group!("peer-sessions", peer_sessions, Rt::Virtual, 700, 20_000),
        group!("sessions-slow-hook", slow_hook, Rt::Multi(3), 32, 400),
        group!("peer-sessions-slow-hook", peer_slow_hook, Rt::Multi(3), 32, 400),
        group!("sessions-storm", storm, Rt::Multi(4), 6, 80),
        group!("peer-sessions-storm", peer_storm, Rt::Multi(4), 6, 80),
    ];
    for g in &mut v[3..5] {
        g.par = 16;
    }
    for g in &mut v[5..7] {
        g.par = 3;
    }
    v
}

const KEY: u64 = 500;
const NOTE: &[u8] = b"note";

struct Sess {
    raw: Raw,
    broker: usize,
    subs: Subs,
    no: usize,
}

/// Something a session may do or suffer without being the current one.
async fn misbehave(rng: &mut StdRng, x: &mut Sess, what: u32) -> &'static str {
    match what {
        0 => {
            x.raw.subscribe(&VALID).await;
            "subscribes to everything"
        }
        1 => {
            x.raw.unsubscribe(&VALID).await;
            "unsubscribes from everything"
        }
        2 => {
            let n = rng.gen_range(1..60);
            let v: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
            x.raw.send_frame(&v).await;
            "sends garbage"
        }
        3 => {
            x.raw.send_bytes(&[0, 0, 1]).await;
            x.raw.hang_up();
            "hangs up in mid-frame"
        }
        4 => {
            x.raw.hang_up();
            "hangs up"
        }
        5 => {
            if let Some(l) = &x.raw.link {
                l.reset();
            }
            "is reset"
        }
        6 => {
            x.raw.direct(&pk(KEY + 1), NOTE).await;
            "sends a message"
        }
        7 => {
            if let Some(l) = &x.raw.link {
                l.b2a.stall(true);
            }
            "stops reading"
        }
        _ => "does nothing",
    }
}

fn is_note(m: &Message) -> bool {
    matches!(m, Message::Direct(Direct { message, .. }) if message == NOTE)
}

/// Send the probe messages from each sender; the current session gets what it should, and no other session anything.
async fn probe(s: &mut Scn, senders: &mut [(usize, Raw)], cur: &mut Sess, old: &mut [Sess], n: &mut u64, ctx: &str) {
    for x in old.iter_mut() {
        x.raw.drain();
    }
    let early = cur.raw.drain();
    s.check(early.iter().all(is_note), "unexpected message", || format!("{ctx}: {early:?}"));
    let mut expect: Vec<Vec<u8>> = vec![];
    for (b, sender) in senders.iter_mut() {
        *n += 1;
        let p = format!("direct {n} from {b}").into_bytes();
        sender.direct(&pk(KEY), &p).await;
        expect.push(p);
        for t in VALID {
            *n += 1;
            let p = format!("topic {t} {n} from {b}").into_bytes();
            sender.broadcast(&[t], &p).await;
            if cur.subs.contains(&t) {
                expect.push(p);
            }
        }
    }
    secs(1.0).await;
    let got: Vec<Vec<u8>> = cur
        .raw
        .drain()
        .into_iter()
        .map(|m| match m {
            Message::Direct(Direct { message, .. }) | Message::Broadcast(Broadcast { message, .. }) => message,
            o => format!("{o:?}").into_bytes(),
        })
        .filter(|m| m != NOTE)
        .collect();
    let show = |v: &[Vec<u8>]| v.iter().map(|p| String::from_utf8_lossy(p).to_string()).collect::<Vec<_>>().join(", ");
    let miss: Vec<Vec<u8>> = expect.iter().filter(|p| !got.contains(p)).cloned().collect();
    let more: Vec<Vec<u8>> = got.iter().filter(|p| !expect.contains(p)).cloned().collect();
    s.check(!cur.raw.closed(), "newest session ended", || ctx.to_string());
    s.check(miss.is_empty(), "newest session does not receive", || {
        format!("{ctx}: session {} with {:?} lacks {}", cur.no, cur.subs, show(&miss))
    });
    s.check(more.is_empty() && got.len() <= expect.len(), "newest session receives too much", || {
        format!("{ctx}: session {} with {:?} got {}", cur.no, cur.subs, show(&more))
    });
    for x in old.iter_mut() {
        let g = x.raw.drain();
        s.check(g.is_empty(), "older session receives", || format!("{ctx}: session {}: {g:?}", x.no));
    }
    s.ev("probe_messages", expect.len() as u64);
}

async fn sessions(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let nb = s.rng.gen_range(1..=3);
    let mut brokers: Vec<BrokerH> = vec![];
    for i in 0..nb {
        brokers.push(w.broker(&format!("b{i}")).await);
    }
    secs(25.0).await;
    let mut senders = vec![];
    for (i, b) in brokers.iter().enumerate() {
        match w.user(&b.id, KEY + 10 + i as u64, &[]).await {
            Ok(r) => senders.push((i, r)),
            Err(e) => return s.fail("valid user refused", e),
        }
    }
    // The user that messages of older sessions go to, so that they are delivered somewhere.
    let _sink = w.user(&brokers[0].id, KEY + 1, &[]).await;
    secs(12.0).await;
    let (mut cur, mut old): (Option<Sess>, Vec<Sess>) = (None, vec![]);
    let mut n = 0;
    let rounds = s.rng.gen_range(3..12);
    for no in 0..rounds {
        let broker = s.rng.gen_range(0..nb);
        let topics = if s.rng.gen_bool(0.2) { vec![] } else { topic_list(&mut s.rng, &VALID, false) };
        let moved = cur.as_ref().is_some_and(|c| c.broker != broker);
        let mut ctx = format!("session {no} on b{broker}");
        // What the current session does just before (it may arrive after).
        let before = s.rng.gen_range(0..14);
        let wait_before = s.rng.gen_bool(0.3);
        if let Some(c) = &mut cur {
            let what = misbehave(&mut s.rng, c, before).await;
            ctx += &format!(", before it session {} on b{} {what}", c.no, c.broker);
            if wait_before {
                secs(if s.rng.gen() { 1.0 } else { 11.0 }).await;
            }
        }
        let raw = match w.user(&brokers[broker].id, KEY, &topics).await {
            Ok(r) => r,
            Err(e) => return s.fail("newer session refused", format!("{ctx}: {e}")),
        };
        if let Some(c) = cur.take() {
            old.push(c);
        }
        let mut c = Sess { raw, broker, subs: valid(&topics), no };
        // What older sessions do right after, and what the new one does.
        for _ in 0..s.rng.gen_range(0..3) {
            if old.is_empty() {
                break;
            }
            let what = s.rng.gen_range(0..8);
            let i = if s.rng.gen_bool(0.7) { old.len() - 1 } else { s.rng.gen_range(0..old.len()) };
            let did = misbehave(&mut s.rng, &mut old[i], what).await;
            ctx += &format!(", session {} {did}", old[i].no);
        }
        if s.rng.gen_bool(0.5) {
            let t = topic_list(&mut s.rng, &VALID, true);
            if s.rng.gen() {
                c.raw.subscribe(&t).await;
                c.subs.extend(valid(&t));
            } else {
                c.raw.unsubscribe(&t).await;
                for t in valid(&t) {
                    c.subs.remove(&t);
                }
            }
        }
        s.log(&*ctx);
        // The older session is ended: at once on the same broker, once the announcement is there elsewhere.
        settle().await;
        if moved {
            secs(11.0).await;
        }
        if let Some(o) = old.last() {
            if let Some(l) = &o.raw.link {
                l.b2a.stall(false);
            }
            settle().await;
            s.check(o.raw.closed() || o.raw.link.as_ref().is_some_and(|l| !l.is_open()), "older session not ended", || ctx.clone());
        }
        if nb > 1 {
            secs(11.0).await;
        }
        probe(s, &mut senders, &mut c, &mut old, &mut n, &ctx).await;
        s.ev("sessions", 1);
        s.state((moved, before, wait_before, c.subs.len(), old.len().min(4), nb));
        if s.failed() {
            return;
        }
        // Older sessions' ends while nothing else happens.
        if s.rng.gen_bool(0.4) && !old.is_empty() {
            let i = s.rng.gen_range(0..old.len());
            let what = s.rng.gen_range(0..8);
            let did = misbehave(&mut s.rng, &mut old[i], what).await;
            let ctx = format!("{ctx}; later session {} {did}", old[i].no);
            s.log(&*ctx);
            secs(if nb > 1 { 12.0 } else { 0.5 }).await;
            probe(s, &mut senders, &mut c, &mut old, &mut n, &ctx).await;
        }
        if s.failed() {
            return;
        }
        cur = Some(c);
    }
}

/// Several sessions of one key started together: exactly one is left, and it works.
async fn at_once(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let nb = s.rng.gen_range(1..=3);
    let mut brokers: Vec<BrokerH> = vec![];
    for i in 0..nb {
        brokers.push(w.broker(&format!("b{i}")).await);
    }
    secs(25.0).await;
    let mut senders = vec![];
    for (i, b) in brokers.iter().enumerate() {
        match w.user(&b.id, KEY + 10 + i as u64, &[]).await {
            Ok(r) => senders.push((i, r)),
            Err(e) => return s.fail("valid user refused", e),
        }
    }
    secs(12.0).await;
    let mut n = 0;
    for round in 0..s.rng.gen_range(1..4) {
        let k = s.rng.gen_range(2..6);
        let plan: Vec<(usize, Subs, u64)> = (0..k)
            .map(|_| {
                let t = topic_list(&mut s.rng, &VALID, false);
                (s.rng.gen_range(0..nb), valid(&t), s.rng.gen_range(0..30))
            })
            .collect();
        let mut tasks = vec![];
        for (no, (b, subs, d)) in plan.iter().cloned().enumerate() {
            let (w, id) = (World { net: w.net.clone(), svc: w.svc.clone(), path: w.path.clone() }, brokers[b].id.clone());
            tasks.push(tokio::spawn(async move {
                sleep(Duration::from_millis(d)).await;
                let t: Vec<u8> = subs.iter().copied().collect();
                w.user(&id, KEY, &t).await.map(|raw| Sess { raw, broker: b, subs, no })
            }));
        }
        let mut all = vec![];
        for t in tasks {
            match t.await {
                Ok(Ok(x)) => all.push(x),
                Ok(Err(e)) => s.fail("valid session refused", e),
                Err(e) => return s.inconclusive(format!("{e}")),
            }
        }
        secs(35.0).await;
        let open: Vec<usize> = all.iter().filter(|x| !x.raw.closed()).map(|x| x.no).collect();
        let ctx = format!("round {round}: {plan:?}, open: {open:?}");
        s.log(&*ctx);
        if !s.check(open.len() == 1, "not exactly one session left", || ctx.clone()) {
            return;
        }
        let i = all.iter().position(|x| !x.raw.closed()).expect("one is open");
        let mut cur = all.remove(i);
        probe(s, &mut senders, &mut cur, &mut all, &mut n, &ctx).await;
        s.ev("sessions", k);
        s.state((k, nb, cur.broker, plan.iter().map(|p| p.0).collect::<BTreeSet<_>>().len()));
        if s.failed() {
            return;
        }
    }
}

struct PeerSess {
    raw: Raw,
    topics: Subs,
    users: Vec<u64>,
    no: usize,
}

/// Connections of one (scripted) peer broker, each replacing the one before.
async fn peer_sessions(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("m").await;
    settle().await;
    let Ok(mut user) = w.user(&b.id, KEY, &[1, 2]).await else { return s.fail("valid user refused", String::new()) };
    let (mut cur, mut old): (Option<PeerSess>, Vec<PeerSess>) = (None, vec![]);
    let name = if s.rng.gen() { "a" } else { "z" };
    let mut n = 0u64;
    for no in 0..s.rng.gen_range(3..10) {
        // A restarted broker counts its versions from the start; a reconnecting one goes on.
        let mut ann = Announcer::new(w.broker_id(name));
        for _ in 0..s.rng.gen_range(0..3) {
            for t in VALID {
                if s.rng.gen() {
                    ann.set_topic(t, s.rng.gen());
                }
            }
            let _ = ann.topics_diff();
        }
        let topics: Subs = VALID.iter().copied().filter(|_| s.rng.gen_bool(0.4)).collect();
        for t in VALID {
            ann.set_topic(t, topics.contains(&t));
        }
        let before = s.rng.gen_range(0..10);
        let mut ctx = format!("connection {no} with {topics:?}");
        if let Some(c) = &mut cur {
            ctx += &format!(", before it {}", peer_misbehave(&mut s.rng, c, before).await);
        }
        let mut raw = match w.peer(&b.id, name).await {
            Ok(r) => r,
            Err(e) => return s.fail("newer peer connection refused", e),
        };
        raw.send(&ann.topics_full()).await;
        // Users that appear behind this connection.
        let u = 9000 + s.seed % 1000 * 100 + no as u64;
        ann.join(&pk(u));
        raw.send(&ann.users_diff()).await;
        if let Some(c) = cur.take() {
            old.push(c);
        }
        let mut c = PeerSess { raw, topics, users: vec![u], no };
        for _ in 0..s.rng.gen_range(0..3) {
            if old.is_empty() {
                break;
            }
            let what = s.rng.gen_range(0..8);
            let i = if s.rng.gen_bool(0.7) { old.len() - 1 } else { s.rng.gen_range(0..old.len()) };
            let did = peer_misbehave(&mut s.rng, &mut old[i], what).await;
            ctx += &format!(", after it connection {} {did}", old[i].no);
        }
        s.log(&*ctx);
        settle().await;
        if let Some(o) = old.last() {
            if let Some(l) = &o.raw.link {
                l.b2a.stall(false);
            }
            settle().await;
            s.check(o.raw.closed() || o.raw.link.as_ref().is_some_and(|l| !l.is_open()), "older peer connection not ended", || ctx.clone());
        }
        for again in 0..2 {
            // Both ways.
            for x in old.iter_mut() {
                x.raw.drain();
            }
            c.raw.drain();
            user.drain();
            n += 1;
            let down = format!("down {n}").into_bytes();
            c.raw.broadcast(&[1], &down).await;
            let mut expect = vec![];
            for t in VALID {
                n += 1;
                let p = format!("up {t} {n}").into_bytes();
                user.broadcast(&[t], &p).await;
                if c.topics.contains(&t) {
                    expect.push(p);
                }
            }
            for u in &c.users {
                n += 1;
                let p = format!("to {u} {n}").into_bytes();
                user.direct(&pk(*u), &p).await;
                expect.push(p);
            }
            secs(0.5).await;
            let got: Vec<Vec<u8>> = c
                .raw
                .drain()
                .into_iter()
                .filter_map(|m| match m {
                    Message::Broadcast(Broadcast { message, .. }) | Message::Direct(Direct { message, .. }) => Some(message),
                    _ => None,
                })
                .collect();
            let show = |v: &[Vec<u8>]| v.iter().map(|p| String::from_utf8_lossy(p).to_string()).collect::<Vec<_>>().join(", ");
            s.check(!c.raw.closed(), "newest peer connection ended", || ctx.clone());
            s.check(got == expect, "wrong forwarding over the newest peer connection", || {
                format!("{ctx}: got [{}], should be [{}]", show(&got), show(&expect))
            });
            let at_user = user.drain();
            s.check(
                at_user.iter().any(|m| matches!(m, Message::Broadcast(b) if b.message == down)),
                "newest peer connection not listened to",
                || ctx.clone(),
            );
            for x in old.iter_mut() {
                let g = x.raw.drain();
                s.check(g.is_empty(), "older peer connection receives", || format!("{ctx}: connection {}: {g:?}", x.no));
            }
            s.ev("probe_messages", expect.len() as u64 + 1);
            if s.failed() {
                return;
            }
            if again == 0 {
                if old.is_empty() {
                    break;
                }
                let i = s.rng.gen_range(0..old.len());
                let what = s.rng.gen_range(0..8);
                let did = peer_misbehave(&mut s.rng, &mut old[i], what).await;
                ctx += &format!("; later connection {} {did}", old[i].no);
                secs(if s.rng.gen() { 0.5 } else { 11.0 }).await;
            }
        }
        s.ev("peer_connections", 1);
        s.state((before, c.topics.len(), old.len().min(4)));
        cur = Some(c);
    }
}

async fn peer_misbehave(rng: &mut StdRng, x: &mut PeerSess, what: u32) -> &'static str {
    match what {
        0 => {
            // Newer than anything.
            let mut a = cdn_broker::verif::TopicSyncMap::new(0);
            for _ in 0..20 {
                for t in VALID {
                    a.insert(t, cdn_broker::verif::SubscriptionStatus::Subscribed);
                }
                let _ = a.diff();
            }
            x.raw.send(&topic_sync(&a.get_full())).await;
            "announces everything"
        }
        1 => {
            x.raw.send(&Message::UserSync(vec![1, 2, 3])).await;
            "sends an undecodable announcement"
        }
        2 => {
            let n = rng.gen_range(1..60);
            let v: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
            x.raw.send_frame(&v).await;
            "sends garbage"
        }
        3 => {
            x.raw.send_bytes(&[0, 0, 1]).await;
            x.raw.hang_up();
            "hangs up in mid-frame"
        }
        4 => {
            x.raw.hang_up();
            "hangs up"
        }
        5 => {
            if let Some(l) = &x.raw.link {
                l.reset();
            }
            "is reset"
        }
        6 => {
            if let Some(l) = &x.raw.link {
                l.b2a.stall(true);
            }
            "stops reading"
        }
        _ => "does nothing",
    }
}

/// A hook that takes its time over the messages that say so, and then fails on those that say that.
fn slow(entered: Arc<AtomicU64>) -> Hook {
    Hook::new(move |_, m| {
        let text = match m {
            Message::Direct(d) => d.message.clone(),
            Message::Broadcast(b) => b.message.clone(),
            Message::Subscribe(_) | Message::Unsubscribe(_) | Message::TopicSync(_) => b"slow".to_vec(),
            _ => vec![],
        };
        if text.starts_with(b"slow") {
            entered.fetch_add(1, Ordering::SeqCst);
            std::thread::sleep(Duration::from_millis(60));
        }
        if text == b"slow and fail" {
            anyhow::bail!("as the message says");
        }
        Ok(HookResult::ProcessMessage)
    })
}

/// Wait (real time) until `n` messages entered the hook.
async fn entered(c: &AtomicU64, n: u64) -> bool {
    for _ in 0..2000 {
        if c.load(Ordering::SeqCst) >= n {
            return true;
        }
        sleep(Duration::from_millis(1)).await;
    }
    false
}

/// The older session's last message is still being looked at when the newer session starts.
async fn slow_hook(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let count = Arc::new(AtomicU64::new(0));
    let b = w.broker_with("b0", BrokerOpts { user_hook: slow(count.clone()), ..Default::default() }).await;
    sleep(Duration::from_millis(20)).await;
    let Ok(mut sender) = w.user(&b.id, KEY + 10, &[]).await else { return s.fail("valid user refused", String::new()) };
    let mut old: Vec<Raw> = vec![];
    let Ok(mut cur) = w.user(&b.id, KEY, &[1]).await else { return s.fail("valid user refused", String::new()) };
    sleep(Duration::from_millis(20)).await;
    let mut n = 0;
    for round in 0..6 {
        let kind = s.rng.gen_range(0..4);
        match kind {
            0 => cur.direct(&pk(1), b"slow and fail").await,
            1 => cur.subscribe(&[2]).await,
            2 => cur.unsubscribe(&[1]).await,
            _ => {
                // The message, and then the end of the connection.
                cur.direct(&pk(1), b"slow").await;
                cur.hang_up();
                true
            }
        };
        n += 1;
        if !entered(&count, n).await {
            return s.inconclusive("hook not entered".to_string());
        }
        let next = match timeout(Duration::from_secs(10), w.user(&b.id, KEY, &[1])).await {
            Ok(Ok(r)) => r,
            o => return s.fail("newer session refused", format!("round {round}: {:?}", o.map(|o| o.map(|_| ())))),
        };
        old.push(std::mem::replace(&mut cur, next));
        sleep(Duration::from_millis(200)).await;
        let ctx = format!("round {round}, kind {kind}");
        let p = format!("probe {round}").into_bytes();
        sender.direct(&pk(KEY), &p).await;
        sender.broadcast(&[2], b"not subscribed").await;
        sender.broadcast(&[1], &p).await;
        let a = cur.next(Duration::from_secs(5)).await;
        let c = cur.next(Duration::from_secs(5)).await;
        s.check(!cur.closed(), "newest session ended", || ctx.clone());
        s.check(matches!(&a, Some(Message::Direct(d)) if d.message == p), "newest session does not receive", || format!("{ctx}: {a:?}"));
        s.check(
            matches!(&c, Some(Message::Broadcast(d)) if d.message == p),
            "newest session has not its own subscriptions",
            || format!("{ctx}: {c:?}"),
        );
        s.ev("probe_messages", 3);
        s.ev("sessions", 1);
        s.state((kind, round));
        if s.failed() {
            return;
        }
    }
}

async fn peer_slow_hook(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let count = Arc::new(AtomicU64::new(0));
    let b = w.broker_with("b0", BrokerOpts { broker_hook: slow(count.clone()), ..Default::default() }).await;
    sleep(Duration::from_millis(20)).await;
    let Ok(mut sender) = w.user(&b.id, KEY + 10, &[]).await else { return s.fail("valid user refused", String::new()) };
    let mut old: Vec<Raw> = vec![];
    let name = if s.rng.gen() { "a0" } else { "c0" };
    let mut ann = Announcer::new(w.broker_id(name));
    for t in [2, 3] {
        ann.set_topic(t, true);
    }
    let _ = ann.topics_diff();
    for t in [2, 3] {
        ann.set_topic(t, false);
    }
    ann.set_topic(1, true);
    let Ok(mut cur) = w.peer(&b.id, name).await else { return s.fail("peer refused", String::new()) };
    let mut n = 1;
    cur.send(&ann.topics_full()).await;
    if !entered(&count, n).await {
        return s.inconclusive("hook not entered".to_string());
    }
    sleep(Duration::from_millis(100)).await;
    for round in 0..6 {
        let kind = s.rng.gen_range(0..3);
        match kind {
            0 => cur.direct(&pk(1), b"slow and fail").await,
            1 => {
                // Far newer than what the next connection says.
                let mut a = cdn_broker::verif::TopicSyncMap::new(0);
                for _ in 0..20 {
                    a.insert(2, cdn_broker::verif::SubscriptionStatus::Subscribed);
                    a.insert(1, cdn_broker::verif::SubscriptionStatus::Unsubscribed);
                    let _ = a.diff();
                }
                cur.send(&topic_sync(&a.get_full())).await
            }
            _ => {
                cur.direct(&pk(1), b"slow").await;
                cur.hang_up();
                true
            }
        };
        n += 1;
        if !entered(&count, n).await {
            return s.inconclusive("hook not entered".to_string());
        }
        let mut next = match timeout(Duration::from_secs(10), w.peer(&b.id, name)).await {
            Ok(Ok(r)) => r,
            o => return s.fail("newer peer connection refused", format!("round {round}: {:?}", o.map(|o| o.map(|_| ())))),
        };
        next.send(&ann.topics_full()).await;
        n += 1;
        old.push(std::mem::replace(&mut cur, next));
        if !entered(&count, n).await {
            s.fail("newest peer connection ended", format!("round {round}, kind {kind}: its announcement is not read"));
            return;
        }
        sleep(Duration::from_millis(200)).await;
        cur.drain();
        let ctx = format!("round {round}, kind {kind}");
        let p = format!("probe {round}").into_bytes();
        sender.broadcast(&[2], b"not interested").await;
        sender.broadcast(&[1], &p).await;
        let c = cur.next(Duration::from_secs(5)).await;
        s.check(!cur.closed(), "newest peer connection ended", || ctx.clone());
        s.check(
            matches!(&c, Some(Message::Broadcast(d)) if d.message == p),
            "wrong forwarding over the newest peer connection",
            || format!("{ctx}: {c:?}"),
        );
        s.ev("probe_messages", 2);
        s.ev("peer_connections", 1);
        s.state((kind, round));
        if s.failed() {
            return;
        }
    }
}

/// Sessions replacing each other as fast as they can, with everything that can be in flight being in flight.
async fn storm(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let b = w.broker("b0").await;
    sleep(Duration::from_millis(20)).await;
    let Ok(mut sender) = w.user(&b.id, KEY + 10, &[]).await else { return s.fail("valid user refused", String::new()) };
    // Somebody keeps sending to the key all along.
    let Ok(mut chatter) = w.user(&b.id, KEY + 11, &[]).await else { return s.fail("valid user refused", String::new()) };
    let stop = Arc::new(AtomicU64::new(0));
    let stop2 = stop.clone();
    let chat = tokio::spawn(async move {
        while stop2.load(Ordering::SeqCst) == 0 {
            chatter.direct(&pk(KEY), b"chat").await;
            chatter.broadcast(&[0], b"chat").await;
            sleep(Duration::from_micros(30)).await;
        }
    });
    let until = std::time::Instant::now() + Duration::from_millis(2500);
    let mut cur: Option<Raw> = None;
    let mut round = 0u64;
    let mut gone: Vec<Raw> = vec![];
    while std::time::Instant::now() < until {
        round += 1;
        let topic = VALID[1 + (round as usize % 3)];
        let kind = s.rng.gen_range(0..6);
        let (delay, mut old) = (s.rng.gen_range(0..120), cur.take());
        let mut rng = StdRng::seed_from_u64(round);
        let trouble = tokio::spawn(async move {
            if let Some(o) = &mut old {
                sleep(Duration::from_micros(delay)).await;
                for _ in 0..rng.gen_range(1..20) {
                    o.subscribe(&[1, 2, 3]).await;
                    o.unsubscribe(&[1, 2, 3]).await;
                }
                match kind {
                    0 => {
                        o.send_frame(b"garbage").await;
                    }
                    1 => o.hang_up(),
                    2 => {
                        if let Some(l) = &o.link {
                            l.reset();
                        }
                    }
                    _ => {}
                }
            }
            old
        });
        let mut next = match timeout(Duration::from_secs(10), w.user(&b.id, KEY, &[0, topic])).await {
            Ok(Ok(r)) => r,
            o => return s.fail("newer session refused", format!("round {round}: {:?}", o.map(|o| o.map(|_| ())))),
        };
        // A change of mind right behind the initial subscription.
        next.subscribe(&[7]).await;
        // The session has begun when it hears itself.
        let hello = format!("hello {round}").into_bytes();
        next.direct(&pk(KEY), &hello).await;
        let (t0, mut heard) = (std::time::Instant::now(), false);
        while !heard && !next.closed() && t0.elapsed() < Duration::from_secs(10) {
            heard = matches!(next.next(Duration::from_millis(500)).await, Some(Message::Direct(d)) if d.message == hello);
        }
        if !s.check(heard, if next.closed() { "newest session ended" } else { "newest session does not receive" }, || {
            format!("round {round}, kind {kind}, hello")
        }) {
            break;
        }
        if let Ok(Some(o)) = trouble.await {
            gone.push(o);
        }
        if gone.len() > 20 {
            gone.remove(0);
        }
        if round % 4 != 0 {
            cur = Some(next);
            s.ev("sessions", 1);
            continue;
        }
        sleep(Duration::from_millis(4)).await;
        let p = format!("probe {round}").into_bytes();
        for t in [1, 2, 3, 7] {
            sender.broadcast(&[t], &[&p[..], &[t]].concat()).await;
        }
        sender.direct(&pk(KEY), &p).await;
        let (mut got, mut end) = (vec![], false);
        let t0 = std::time::Instant::now();
        while !end && t0.elapsed() < Duration::from_secs(10) && !next.closed() {
            match next.next(Duration::from_millis(500)).await {
                Some(Message::Direct(d)) if d.message == p => end = true,
                Some(Message::Broadcast(d)) if d.message.starts_with(&p) && d.message.len() == p.len() + 1 => got.push(d.message[p.len()]),
                _ => {}
            }
        }
        let ctx = format!("round {round}, kind {kind}");
        s.check(!next.closed(), "newest session ended", || ctx.clone());
        s.check(end, "newest session does not receive", || ctx.clone());
        got.sort_unstable();
        let mut should = vec![topic, 7];
        should.sort_unstable();
        should.dedup();
        s.check(!end || got == should, "newest session has not its own subscriptions", || format!("{ctx}: {got:?}, should be {should:?}"));
        s.ev("sessions", 1);
        s.ev("probe_messages", 5);
        s.state((kind, delay / 20));
        if s.failed() {
            break;
        }
        cur = Some(next);
    }
    stop.store(1, Ordering::SeqCst);
    let _ = chat.await;
}

async fn peer_storm(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let b = w.broker("b0").await;
    sleep(Duration::from_millis(20)).await;
    let Ok(mut sender) = w.user(&b.id, KEY + 10, &[]).await else { return s.fail("valid user refused", String::new()) };
    let Ok(mut chatter) = w.user(&b.id, KEY + 11, &[]).await else { return s.fail("valid user refused", String::new()) };
    let stop = Arc::new(AtomicU64::new(0));
    let stop2 = stop.clone();
    let chat = tokio::spawn(async move {
        while stop2.load(Ordering::SeqCst) == 0 {
            chatter.broadcast(&[0, 1, 2, 3], b"chat").await;
            sleep(Duration::from_micros(30)).await;
        }
    });
    let name = if s.rng.gen() { "a0" } else { "c0" };
    let until = std::time::Instant::now() + Duration::from_millis(2500);
    let mut cur: Option<Raw> = None;
    let mut round = 0u64;
    let mut gone: Vec<Raw> = vec![];
    while std::time::Instant::now() < until {
        round += 1;
        let topic = VALID[1 + (round as usize % 3)];
        let kind = s.rng.gen_range(0..6);
        let (delay, mut old) = (s.rng.gen_range(0..120), cur.take());
        // What the older connection keeps announcing is newer than what the newer one says.
        let mut a = cdn_broker::verif::TopicSyncMap::new(0);
        for i in 0..6 {
            for t in [1, 2, 3] {
                let on = i % 2 == 0;
                a.insert(t, if on { cdn_broker::verif::SubscriptionStatus::Subscribed } else { cdn_broker::verif::SubscriptionStatus::Unsubscribed });
            }
            let _ = a.diff();
        }
        let stale = topic_sync(&a.get_full());
        let trouble = tokio::spawn(async move {
            if let Some(o) = &mut old {
                sleep(Duration::from_micros(delay)).await;
                o.send(&stale).await;
                match kind {
                    0 => {
                        o.send_frame(b"garbage").await;
                    }
                    1 => o.hang_up(),
                    2 => {
                        if let Some(l) = &o.link {
                            l.reset();
                        }
                    }
                    _ => {}
                }
            }
            old
        });
        let mut next = match timeout(Duration::from_secs(10), w.peer(&b.id, name)).await {
            Ok(Ok(r)) => r,
            o => return s.fail("newer peer connection refused", format!("round {round}: {:?}", o.map(|o| o.map(|_| ())))),
        };
        let mut ann = Announcer::new(w.broker_id(name));
        ann.set_topic(topic, true);
        next.send(&ann.topics_full()).await;
        // The connection is in use when something comes through.
        let hello = format!("hello {round}").into_bytes();
        next.direct(&pk(KEY + 10), &hello).await;
        let (t0, mut heard) = (std::time::Instant::now(), false);
        while !heard && !next.closed() && t0.elapsed() < Duration::from_secs(10) {
            heard = matches!(sender.next(Duration::from_millis(500)).await, Some(Message::Direct(d)) if d.message == hello);
        }
        if !s.check(heard, if next.closed() { "newest peer connection ended" } else { "newest peer connection not listened to" }, || {
            format!("round {round}, kind {kind}, hello")
        }) {
            break;
        }
        if let Ok(Some(o)) = trouble.await {
            gone.push(o);
        }
        if gone.len() > 20 {
            gone.remove(0);
        }
        if round % 4 != 0 {
            cur = Some(next);
            s.ev("peer_connections", 1);
            continue;
        }
        sleep(Duration::from_millis(4)).await;
        let p = format!("probe {round}").into_bytes();
        let others: Vec<u8> = [1, 2, 3].into_iter().filter(|t| *t != topic).collect();
        sender.broadcast(&others, &[&p[..], b"x"].concat()).await;
        sender.broadcast(&[topic], &p).await;
        let (mut got, mut end) = (false, false);
        let t0 = std::time::Instant::now();
        while !end && t0.elapsed() < Duration::from_secs(10) && !next.closed() {
            match next.next(Duration::from_millis(500)).await {
                Some(Message::Broadcast(d)) if d.message == p => end = true,
                Some(Message::Broadcast(d)) if d.message.starts_with(&p) => got = true,
                _ => {}
            }
        }
        let ctx = format!("round {round}, kind {kind}");
        s.check(!next.closed(), "newest peer connection ended", || ctx.clone());
        s.check(end && !got, "wrong forwarding over the newest peer connection", || format!("{ctx}: topic {topic}: {end}, others: {got}"));
        s.ev("peer_connections", 1);
        s.ev("probe_messages", 2);
        s.state((kind, delay / 20));
        if s.failed() {
            break;
        }
        cur = Some(next);
    }
    stop.store(1, Ordering::SeqCst);
    let _ = chat.await;
}
