//! P15: connections that break every rule, next to honest traffic that must not notice.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::crypto::signature::Namespace;
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::{
    AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use tokio::time::Instant;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Connection, Protocol};
use tokio::io::AsyncWriteExt;

use super::util::{faults, payload, payload_id};
use crate::real::{free_addr, RealWorld};
use crate::sig::keypair;
use crate::group;
use crate::run::{Group, Rt, Scn};
use crate::world::{auth_with_key, now_secs, pk, secs, BrokerH, Raw, World, INVALID, VALID};

pub fn groups() -> Vec<Group> {
    let mut work = group!("isolation-work", work, Rt::Multi(4), 2, 40);
    work.par = 1;
    vec![
        group!("isolation", isolation, Rt::Virtual, 500, 20_000),
        work,
        group!("isolation-handshakes", handshakes, Rt::Multi(2), 4, 40),
        group!("isolation-unread", unread, Rt::Multi(2), 7, 120),
    ]
}

/// What one offender did, and what was wrong with how it was dealt with.
pub(super) struct Report {
    pub what: String,
    pub wrong: Option<(String, String)>,
    pub reconnected: bool,
}

/// Past the timeouts of 5 s that the code has.
const TIMED_OUT_S: u64 = 8;

pub(super) struct Place {
    pub w: World,
    pub brokers: Vec<BrokerIdentifier>,
    pub marshal: String,
}

async fn isolation(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let n_brokers = s.rng.gen_range(1..=2);
    let mut brokers: Vec<BrokerH> = vec![];
    for i in 0..n_brokers {
        brokers.push(w.broker(&format!("b{i}")).await);
    }
    let (marshal, mt) = w.marshal("marshal", None).await;
    secs(15.0).await;
    let place = Arc::new(Place { brokers: brokers.iter().map(|b| b.id.clone()).collect(), marshal, w });
    // The honest ones.
    let n = s.rng.gen_range(2..=4u64);
    let mut honest: Vec<(u64, Raw, BTreeSet<u8>)> = vec![];
    for k in 1..=n {
        let b = s.rng.gen_range(0..n_brokers);
        let ts: BTreeSet<u8> = VALID.iter().copied().filter(|_| s.rng.gen_bool(0.4)).collect();
        match place.w.user(&place.brokers[b], k, &ts.iter().copied().collect::<Vec<_>>()).await {
            Ok(r) => honest.push((k, r, ts)),
            Err(e) => return s.fail("an honest user was not let in", e),
        }
    }
    secs(1.0).await;
    let n_bad = s.rng.gen_range(1..=8u64);
    let bad: Vec<_> = (0..n_bad)
        .map(|i| {
            let (p, rng) = (place.clone(), StdRng::seed_from_u64(s.rng.gen()));
            tokio::spawn(offender(p, rng, 1000 + i))
        })
        .collect();
    // Traffic all the while.
    let until = Instant::now() + Duration::from_secs(s.rng.gen_range(8..25));
    let mut sent: BTreeMap<u64, (Instant, u64, BTreeSet<u64>)> = BTreeMap::new();
    let mut next = 1u64;
    let mut newcomers = vec![];
    while Instant::now() < until {
        for i in 0..honest.len() {
            let id = next;
            next += 1;
            let body = payload(&mut s.rng, id);
            let from = honest[i].0;
            let to: BTreeSet<u64> = if s.rng.gen() {
                let to = s.rng.gen_range(1..=n);
                honest[i].1.direct(&pk(to), &body).await;
                [to].into()
            } else {
                let t = *VALID.choose(&mut s.rng).expect("some");
                honest[i].1.broadcast(&[t], &body).await;
                honest.iter().filter(|h| h.2.contains(&t)).map(|h| h.0).collect()
            };
            sent.insert(id, (Instant::now(), from, to));
        }
        if s.rng.gen_bool(0.15) {
            let (p, k) = (place.clone(), 5000 + next);
            newcomers.push(tokio::spawn(newcomer(p, k)));
        }
        let d = s.rng.gen_range(0.0..0.5);
        secs(d).await;
    }
    secs(4.0).await;
    // Everything arrived once, in order, in time.
    let mut got: HashMap<(u64, u64), u64> = HashMap::new();
    for (k, r, _) in &mut honest {
        s.check(!r.closed(), "an honest user lost its connection", || format!("user {k}"));
        let mut last: HashMap<u64, u64> = HashMap::new();
        for (at, m) in r.drain_at() {
            let id = match &m {
                Message::Direct(d) => payload_id(&d.message),
                Message::Broadcast(b) => payload_id(&b.message),
                m => {
                    s.fail("unexpected message", format!("user {k}: {m:?}"));
                    continue;
                }
            };
            let Some((t, from, _)) = sent.get(&id) else {
                s.fail("message from nowhere", format!("user {k} got {id}"));
                continue;
            };
            *got.entry((id, *k)).or_default() += 1;
            let d = at.saturating_duration_since(*t);
            s.check(d < Duration::from_secs(2), "honest traffic was delayed", || format!("message {id} took {d:?} to {k}"));
            let before = last.insert(*from, id).unwrap_or(0);
            s.check(before < id, "honest traffic was reordered", || format!("user {k} got {id} after {before}"));
        }
    }
    for (id, (_, from, to)) in &sent {
        for k in 1..=n {
            let c = got.get(&(*id, k)).copied().unwrap_or(0);
            s.ev("honest_deliveries", c);
            let e = u64::from(to.contains(&k));
            s.check(c == e, if c < e { "honest traffic was lost" } else { "honest traffic was duplicated or misdirected" }, || {
                format!("message {id} of {from} arrived {c} times at {k}, expected {e}")
            });
        }
    }
    for x in newcomers {
        s.ev("newcomers", 1);
        match x.await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => s.fail("an honest newcomer was not served", e),
            Err(e) => s.inconclusive(format!("newcomer: {e}")),
        }
        s.ev("oracle_evaluations", 1);
    }
    for x in bad {
        match x.await {
            Ok(reports) => {
                for r in reports {
                    s.ev("offences", 1);
                    s.ev("oracle_evaluations", 1);
                    s.ev("offenders_back", u64::from(r.reconnected));
                    s.state((r.what.clone(), n_brokers));
                    if let Some((sig, d)) = r.wrong {
                        s.fail(&sig, format!("{}: {d}", r.what));
                    }
                }
            }
            Err(e) => s.inconclusive(format!("offender: {e}")),
        }
    }
    for b in &brokers {
        s.check(!b.exited(), "a broker stopped", || b.name.clone());
    }
    s.check(!mt.is_finished(), "the marshal stopped", String::new);
}

/// Someone new, by way of the marshal.
pub(super) async fn newcomer(p: Arc<Place>, key: u64) -> Result<(), String> {
    let t0 = Instant::now();
    let mut m = p.w.raw(&p.marshal).await?;
    m.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
    let (permit, to) = match m.next(Duration::from_secs(10)).await {
        Some(Message::AuthenticateResponse(a)) if a.permit > 1 => (a.permit, a.context),
        x => return Err(format!("the marshal's answer: {x:?}")),
    };
    let mut r = p.w.raw(&to).await?;
    r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
    match r.next(Duration::from_secs(10)).await {
        Some(Message::AuthenticateResponse(a)) if a.permit == 1 => {}
        x => return Err(format!("the broker's answer: {x:?}")),
    }
    r.subscribe(&[]).await;
    r.direct(&pk(key), b"myself").await;
    match r.next(Duration::from_secs(10)).await {
        Some(Message::Direct(d)) if d.message == b"myself" => {}
        x => return Err(format!("no echo, but {x:?}")),
    }
    let d = t0.elapsed();
    r.hang_up();
    if d > Duration::from_secs(2) {
        return Err(format!("took {d:?} to be served"));
    }
    Ok(())
}

pub(super) async fn offender(p: Arc<Place>, mut rng: StdRng, key: u64) -> Vec<Report> {
    let mut out = vec![];
    for _ in 0..rng.gen_range(1..4) {
        secs(rng.gen_range(0.0..5.0)).await;
        let b = p.brokers.choose(&mut rng).expect("some").clone();
        let r = match rng.gen_range(0..10) {
            0 => stranger(&p, &mut rng, &p.marshal, "marshal", key).await,
            1 => stranger(&p, &mut rng, &b.public_advertise_endpoint, "user port", key).await,
            2 => stranger(&p, &mut rng, &b.private_advertise_endpoint, "broker port", key).await,
            3 | 4 => peer(&p, &mut rng, &b, key).await,
            _ => user(&p, &mut rng, &b, key).await,
        };
        out.push(r.unwrap_or_else(|e| Report {
            what: "an offender".into(),
            wrong: Some(("an offender could not even begin".into(), e)),
            reconnected: false,
        }));
    }
    out
}

fn junk(rng: &mut StdRng) -> Vec<u8> {
    let n = *[0usize, 1, 7, 8, 40, 1000, 20_000].choose(rng).expect("some");
    loop {
        let v: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
        if Message::deserialize(&v).is_err() {
            return v;
        }
    }
}

/// Any message, whoever may send it.
fn any_message(rng: &mut StdRng) -> Message {
    match rng.gen_range(0..9) {
        0 => auth_with_key(Namespace::UserMarshalAuth.as_str(), 9, now_secs()),
        1 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![1], timestamp: rng.gen(), signature: vec![] }),
        2 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen() }),
        3 => Message::AuthenticateResponse(AuthenticateResponse { permit: rng.gen_range(0..3), context: "x/y".into() }),
        4 => Message::UserSync(vec![1, 2, 3]),
        5 => Message::TopicSync(vec![0; 40]),
        6 => Message::Direct(Direct { recipient: vec![1; 40], message: vec![2; 400] }),
        7 => Message::Broadcast(Broadcast { topics: vec![0], message: vec![3; 400] }),
        _ => Message::Subscribe(vec![0]),
    }
}

/// Ways of not finishing what one began.  Returns whether a time limit must end it.
async fn dawdle(rng: &mut StdRng, r: &mut Raw) -> (&'static str, bool) {
    match rng.gen_range(0..5) {
        0 => {
            // Part of a length.
            let n = rng.gen_range(1..4);
            r.send_bytes(&[0, 0, 1, 0][..n]).await;
            ("part of a length", false)
        }
        1 => {
            r.send_bytes(&[0, 0, 1, 0, 5, 5, 5]).await;
            ("part of a frame", true)
        }
        2 => {
            r.send_bytes(&[0, 0, 0, 200]).await;
            for _ in 0..24 {
                secs(0.5).await;
                r.send_bytes(&[7]).await;
            }
            ("a frame in drips", true)
        }
        3 => {
            r.send_bytes(&[0x1f, 0xff, 0xff, 0xfe, 1, 2, 3]).await;
            ("the beginning of a huge frame", true)
        }
        _ => {
            r.send_bytes(&[0xff, 0xff, 0xff, 0xff]).await;
            ("a length beyond the limit", true)
        }
    }
}

fn vanish(rng: &mut StdRng, r: &mut Raw) -> &'static str {
    match rng.gen_range(0..4) {
        0 => {
            r.hang_up();
            "hung up"
        }
        1 => {
            r.close_write();
            "closed its half"
        }
        2 => {
            r.link.as_ref().expect("linked").reset();
            "reset"
        }
        _ => {
            let l = r.link.as_ref().expect("linked");
            l.a2b.cut(rng.gen());
            "lost one direction"
        }
    }
}

/// Someone who does not get as far as being known.
async fn stranger(p: &Place, rng: &mut StdRng, at: &str, port: &str, key: u64) -> Result<Report, String> {
    let mute = rng.gen_bool(0.2);
    let mut r = if mute { p.w.mute(at).await? } else { p.w.raw(at).await? };
    let mut limited = true;
    let what = match rng.gen_range(0..7) {
        _ if mute => "no handshake".to_string(),
        0 => "nothing".to_string(),
        1 => {
            r.send_frame(&junk(rng)).await;
            "junk".into()
        }
        2 => {
            // (a permit or a key that is not valid there)
            let m = match rng.gen_range(0..3) {
                0 => auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs() - 100),
                1 => auth_with_key("elsewhere", key, now_secs()),
                _ => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen_range(2..900) }),
            };
            r.send(&m).await;
            "invalid credentials".into()
        }
        3 => {
            let m = any_message(rng);
            r.send(&m).await;
            "any message".into()
        }
        4 => dawdle(rng, &mut r).await.0.to_string(),
        5 => vanish(rng, &mut r).to_string(),
        _ if port == "user port" => {
            // Let in, but never subscribes, or does something else first.
            let permit = p.w.svc.permit(p.brokers.iter().find(|b| b.public_advertise_endpoint == at).expect("it is"), pk(key));
            r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
            r.next(Duration::from_secs(5)).await;
            if rng.gen() {
                r.send(&Message::Direct(Direct { recipient: pk(1), message: vec![] })).await;
                "a message before subscribing".into()
            } else {
                "no subscription".into()
            }
        }
        _ => {
            limited = false;
            r.send_frame(&junk(rng)).await;
            r.hang_up();
            "junk, and gone".into()
        }
    };
    let closed = r.wait_closed(Duration::from_secs(TIMED_OUT_S)).await || r.link.as_ref().is_some_and(|l| !l.is_open());
    let wrong = (limited && !closed)
        .then(|| ("a stranger was kept waiting for ever".to_string(), format!("still connected after {TIMED_OUT_S} s")));
    Ok(Report { what: format!("{port}: {what}"), wrong, reconnected: false })
}

async fn user(p: &Place, rng: &mut StdRng, b: &BrokerIdentifier, key: u64) -> Result<Report, String> {
    let ts: Vec<u8> = VALID.iter().copied().filter(|_| rng.gen_bool(0.7)).collect();
    let mut r = p.w.user(b, key, &ts).await?;
    secs(rng.gen_range(0.0..2.0)).await;
    // (what it did, by when it must be disconnected)
    let (what, by): (String, Option<u64>) = match rng.gen_range(0..9) {
        0 => {
            r.send_frame(&junk(rng)).await;
            ("junk".into(), Some(2))
        }
        1 => {
            let m = match rng.gen_range(0..5) {
                0 => auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs()),
                1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 5 }),
                2 => Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: String::new() }),
                3 => Message::UserSync(vec![]),
                _ => Message::TopicSync(vec![]),
            };
            r.send(&m).await;
            (format!("not allowed: {}", format!("{m:?}").split(['(', ' ']).next().unwrap_or("")), Some(2))
        }
        2 => {
            let ts = if rng.gen() { vec![] } else { INVALID.to_vec() };
            match rng.gen_range(0..3) {
                0 => r.broadcast(&ts, b"to nobody").await,
                1 => r.subscribe(&ts).await,
                _ => r.unsubscribe(&ts).await,
            };
            ("unknown topics only".into(), Some(2))
        }
        3 | 4 => {
            let (what, limited) = dawdle(rng, &mut r).await;
            (what.into(), limited.then_some(TIMED_OUT_S))
        }
        5 | 6 => {
            // Reads nothing any more, for a while or for good.
            let l = r.link.clone().expect("linked");
            l.b2a.set_capacity(4096);
            l.b2a.stall(true);
            let t = Instant::now();
            let mut full: Option<Instant> = None;
            // (Once for what is written and once for what is flushed.)
            let by = 2 * TIMED_OUT_S;
            let long = rng.gen_range(1..25);
            while t.elapsed() < Duration::from_secs(long) {
                secs(0.2).await;
                if full.is_none() && l.b2a.queued() >= 4096 {
                    full = Some(Instant::now());
                }
                let late = full.is_some_and(|f| f.elapsed() > Duration::from_secs(by));
                if late && l.b2a.is_open() {
                    return Ok(Report {
                        what: "reads nothing".into(),
                        wrong: Some((
                            "a user that reads nothing stayed connected".into(),
                            format!("{by} s after its buffers were full"),
                        )),
                        reconnected: false,
                    });
                }
                if !l.b2a.is_open() {
                    break;
                }
            }
            l.b2a.stall(false);
            ("reads nothing".into(), None)
        }
        7 => {
            let l = r.link.clone().expect("linked");
            l.a2b.cut_after(rng.gen_range(0..600), rng.gen());
            for _ in 0..3 {
                r.direct(&pk(1_000_000), &[1; 200]).await;
            }
            ("cut while sending".into(), None)
        }
        _ => (vanish(rng, &mut r).into(), None),
    };
    if let Some(by) = by {
        if !r.wait_closed(Duration::from_secs(by)).await {
            return Ok(Report {
                what: format!("user: {what}"),
                wrong: Some(("an offending user was not disconnected".into(), format!("still connected after {by} s"))),
                reconnected: false,
            });
        }
    }
    if rng.gen() {
        drop(r);
    } else {
        r.hang_up();
    }
    secs(rng.gen_range(0.0..1.0)).await;
    let wrong = back(p, b, key).await.err().map(|e| ("an offender's key cannot be used any more".to_string(), e));
    Ok(Report { what: format!("user: {what}"), wrong, reconnected: true })
}

/// The offender's key, used properly.
async fn back(p: &Place, b: &BrokerIdentifier, key: u64) -> Result<(), String> {
    let mut r = p.w.user(b, key, &[]).await?;
    secs(0.5).await;
    let mut other = p.w.user(b, key + 100_000, &[]).await?;
    secs(0.5).await;
    for i in 0..3u8 {
        other.direct(&pk(key), &[i, i, i]).await;
    }
    for i in 0..3u8 {
        match r.next(Duration::from_secs(3)).await {
            Some(Message::Direct(d)) if d.message == [i, i, i] => {}
            x => return Err(format!("message {i} of 3 for the new connection: {x:?}")),
        }
    }
    r.hang_up();
    other.hang_up();
    Ok(())
}

async fn peer(p: &Place, rng: &mut StdRng, b: &BrokerIdentifier, key: u64) -> Result<Report, String> {
    let name = format!("peer{key}");
    let mut r = p.w.peer(b, &name).await?;
    let mut an = crate::announce::Announcer::new(p.w.broker_id(&name));
    for t in VALID {
        an.set_topic(t, rng.gen());
    }
    r.send(&an.topics_diff()).await;
    secs(rng.gen_range(0.0..2.0)).await;
    let (what, by): (String, Option<u64>) = match rng.gen_range(0..6) {
        0 => {
            r.send_frame(&junk(rng)).await;
            ("junk".into(), Some(2))
        }
        1 => {
            let x = vec![rng.gen(); rng.gen_range(0..40)];
            r.send(&if rng.gen() { Message::UserSync(x) } else { Message::TopicSync(x) }).await;
            ("an unreadable announcement".into(), Some(2))
        }
        2 | 3 => {
            let (what, limited) = dawdle(rng, &mut r).await;
            (what.into(), limited.then_some(TIMED_OUT_S))
        }
        4 => {
            let l = r.link.clone().expect("linked");
            l.b2a.set_capacity(4096);
            l.b2a.stall(true);
            secs(rng.gen_range(1.0..20.0)).await;
            l.b2a.stall(false);
            ("reads nothing".into(), None)
        }
        _ => (vanish(rng, &mut r).into(), None),
    };
    if let Some(by) = by {
        if !r.wait_closed(Duration::from_secs(by)).await {
            return Ok(Report {
                what: format!("peer: {what}"),
                wrong: Some(("an offending peer was not disconnected".into(), format!("still connected after {by} s"))),
                reconnected: false,
            });
        }
    }
    r.hang_up();
    secs(rng.gen_range(0.0..1.0)).await;
    // It can come back, and is told everything.
    let again = async {
        let mut r = p.w.peer(b, &name).await?;
        let until = Instant::now() + Duration::from_secs(3);
        let mut told = false;
        while let Some(m) = r.next(until.saturating_duration_since(Instant::now())).await {
            told |= matches!(m, Message::UserSync(_));
            if told {
                break;
            }
        }
        let open = !r.closed();
        r.hang_up();
        if told && open {
            Ok(())
        } else {
            Err(format!("told its users: {told}, still open: {open}"))
        }
    }
    .await;
    let wrong = again.err().map(|e: String| ("an offending peer cannot come back".to_string(), e));
    Ok(Report { what: format!("peer: {what}"), wrong, reconnected: true })
}

/// Work out of proportion: messages that are legal but make a broker busy.
async fn work(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let w = World::new(s.seed, crate::net::Faults { capacity: 64 << 20, ..Default::default() });
    let b = w.broker("b").await;
    secs(0.2).await;
    let mut crowd = vec![];
    for k in 0..400u64 {
        match w.user(&b.id, 10_000 + k, &[0, 1, 2]).await {
            Ok(r) => crowd.push(r),
            Err(e) => return s.inconclusive(format!("crowd: {e}")),
        }
    }
    let (Ok(mut a), Ok(mut z), Ok(mut bad)) = (w.user(&b.id, 1, &[3]).await, w.user(&b.id, 2, &[3]).await, w.user(&b.id, 3, &[]).await)
    else {
        return s.inconclusive("users not let in");
    };
    secs(0.5).await;
    let mut kinds = [0, 1, 2, 3];
    kinds.shuffle(&mut rng);
    for kind in kinds {
        let n = 1_500_000usize;
        let many: Vec<u8> = (0..n).map(|i| [0, 1, 2, 200][i % 4]).collect();
        let m = match kind {
            0 => Message::Broadcast(Broadcast { topics: many, message: vec![1; 10] }),
            1 => Message::Subscribe(many),
            2 => Message::Unsubscribe(many),
            _ => Message::Direct(Direct { recipient: many, message: vec![] }),
        };
        let t = tokio::spawn(async move {
            for _ in 0..4 {
                bad.send(&m).await;
            }
            bad
        });
        let mut worst = Duration::ZERO;
        let t0 = Instant::now();
        let mut i = 0u64;
        while t0.elapsed() < Duration::from_secs(1) || i < 20 {
            i += 1;
            let t = Instant::now();
            let body = i.to_le_bytes();
            if i % 2 == 0 {
                a.direct(&pk(2), &body).await;
            } else {
                a.broadcast(&[3], &body).await;
            }
            loop {
                match z.next(Duration::from_secs(30)).await {
                    Some(Message::Direct(d)) if d.message == body => break,
                    Some(Message::Broadcast(d)) if d.message == body => break,
                    None => {
                        s.fail("honest traffic does not get through", format!("while a message of kind {kind} with {n} repeated entries is processed"));
                        return;
                    }
                    _ => {}
                }
            }
            worst = worst.max(t.elapsed());
            if i % 5 == 0 {
                // Changes need the state to be free.
                let ts = [[7u8], [42]][(i / 5 % 2) as usize];
                a.subscribe(&ts).await;
            }
            secs(0.02).await;
            if t0.elapsed() > Duration::from_secs(60) {
                break;
            }
        }
        bad = t.await.expect("offender");
        s.ev("worst_delay_ms", worst.as_millis() as u64);
        s.state((kind, worst.as_millis() / 50));
        s.ev("heavy_messages", 4);
        s.check(worst < Duration::from_secs(12), "honest traffic was held up by one user's message", || {
            format!("{worst:?}, while a message of kind {kind} with {n} repeated entries was processed")
        });
    }
    s.check(!b.exited(), "a broker stopped", String::new);
}

/// Over TLS: connections that never do their part of the handshake, next to ones that do.
async fn handshakes(s: &mut Scn) {
    let mut w = RealWorld::<TcpTls, TcpTls>::new();
    let (public, private) = (free_addr(), free_addr());
    if let Err(e) = w.broker((public.clone(), private.clone()), None).await {
        return s.inconclusive(e);
    }
    let marshal = match w.marshal().await {
        Ok(m) => m,
        Err(e) => return s.inconclusive(e),
    };
    if !w.wait_brokers(1).await {
        return s.inconclusive("the broker does not register");
    }
    let mut silent = vec![];
    let n = s.rng.gen_range(3..=6);
    for _ in 0..n {
        for a in [&marshal, &public, &private] {
            match tokio::net::TcpStream::connect(a).await {
                Ok(mut c) => {
                    if s.rng.gen() {
                        // (The beginning of a TLS record.)
                        let _ = c.write_all(&[0x16, 3, 1, 2]).await;
                    }
                    silent.push(c);
                }
                Err(e) => return s.inconclusive(format!("{a}: {e}")),
            }
        }
    }
    tokio::time::sleep(Duration::from_millis(100)).await;
    s.ev("silent_connections", silent.len() as u64);
    let limit = Duration::from_secs(4);
    let t = std::time::Instant::now();
    let c = w.client(&marshal, 1, vec![0]);
    let served = tokio::time::timeout(limit, async {
        c.ensure_initialized().await.map_err(|e| e.to_string())?;
        c.send_direct_message(&keypair(1).public_key, b"myself".to_vec()).await.map_err(|e| e.to_string())?;
        loop {
            match c.receive_message().await.map_err(|e| e.to_string())? {
                Message::Direct(d) if d.message == b"myself" => return Ok::<_, String>(()),
                _ => {}
            }
        }
    })
    .await;
    s.state((n, t.elapsed().as_millis() / 100));
    match served {
        Ok(Ok(())) => s.ev("newcomers", 1),
        x => s.fail("an honest newcomer was not served", format!("{x:?} after {:?}, next to {} connections without handshake", t.elapsed(), silent.len())),
    }
    let peer = tokio::time::timeout(limit, async {
        let c = TcpTls::connect(&private, true, Limiter::none()).await.map_err(|e| e.to_string())?;
        let a = auth_with_key(Namespace::BrokerBrokerAuth.as_str(), crate::world::BROKER_KEY, now_secs());
        c.send_message(a).await.map_err(|e| e.to_string())?;
        match c.recv_message().await.map_err(|e| e.to_string())? {
            Message::AuthenticateResponse(a) if a.permit == 1 => Ok(()),
            m => Err(format!("{m:?}")),
        }
    })
    .await;
    match peer {
        Ok(Ok(())) => s.ev("peers", 1),
        x => s.fail("a peer was not served", format!("{x:?}, next to {} connections without handshake", silent.len())),
    }
    s.ev("oracle_evaluations", 2);
}

/// On a real transport: a user or a broker that stops reading, while there is more for it than the broker's memory
/// holds.  It must be let go, with what was kept for it, for the others to be served.
async fn unread(s: &mut Scn) {
    match s.rng.gen_range(0..4) {
        0 => unread_on::<Tcp>(s, "tcp").await,
        1 => unread_on::<Quic>(s, "quic").await,
        _ => unread_on::<TcpTls>(s, "tls").await,
    }
}

async fn unread_on<P: Protocol>(s: &mut Scn, name: &str) {
    let mut w = RealWorld::<P, P>::new();
    let (public, private) = (free_addr(), free_addr());
    let pool = 4_000_000;
    if let Err(e) = w.broker((public.clone(), private.clone()), Some(pool)).await {
        return s.inconclusive(e);
    }
    if !w.wait_brokers(1).await {
        return s.inconclusive("the broker does not register");
    }
    let id = BrokerIdentifier { public_advertise_endpoint: public.clone(), private_advertise_endpoint: private.clone() };
    let size = *[300usize, 3_000, 40_000, 300_000].choose(&mut s.rng).expect("some");
    let to_peer = s.rng.gen_bool(0.4);
    let permits: Vec<u64> = (1..=3).map(|k| w.svc.permit(&id, pk(k))).collect();
    let user = |key: usize, limiter: Limiter| {
        let (public, permit) = (public.clone(), permits[key - 1]);
        async move {
            let c = P::connect(&public, true, limiter).await.map_err(|e| e.to_string())?;
            c.send_message(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await.map_err(|e| e.to_string())?;
            match c.recv_message().await {
                Ok(Message::AuthenticateResponse(a)) if a.permit == 1 => {}
                x => return Err(format!("the broker's answer: {x:?}")),
            }
            c.send_message(Message::Subscribe(vec![])).await.map_err(|e| e.to_string())?;
            Ok::<Connection, String>(c)
        }
    };
    // (A reader of one message at a time, which is then never taken.)
    let lazy = || Limiter::new(None, Some(1));
    let victim = async {
        if !to_peer {
            return user(1, lazy()).await;
        }
        let c = P::connect(&private, true, lazy()).await.map_err(|e| e.to_string())?;
        let a = auth_with_key(Namespace::BrokerBrokerAuth.as_str(), crate::world::BROKER_KEY, now_secs());
        c.send_message(a).await.map_err(|e| e.to_string())?;
        match (c.recv_message().await, c.recv_message().await) {
            (Ok(Message::AuthenticateResponse(a)), Ok(Message::AuthenticateWithKey(_))) if a.permit == 1 => {}
            x => return Err(format!("the broker's answer to a peer: {x:?}")),
        }
        let me = BrokerIdentifier { public_advertise_endpoint: "127.0.0.1:1".into(), private_advertise_endpoint: "127.0.0.1:1".into() };
        c.send_message(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: me.to_string() })).await.map_err(|e| e.to_string())?;
        let mut a = crate::announce::Announcer::new(me);
        a.join(&pk(1));
        c.send_message(a.users_full()).await.map_err(|e| e.to_string())?;
        Ok(c)
    };
    let limit = Duration::from_secs(10);
    let all = async { Ok::<_, String>((victim.await?, user(2, Limiter::none()).await?, user(3, Limiter::none()).await?)) };
    let (victim, sender, honest) = match tokio::time::timeout(limit, all).await {
        Ok(Ok(x)) => x,
        x => return s.inconclusive(format!("a connection: {:?}", x.map(|x| x.err()))),
    };
    tokio::time::sleep(Duration::from_millis(300)).await;
    let echo = |n: u8| {
        let h = honest.clone();
        async move {
            let t = std::time::Instant::now();
            let m = vec![n; 100];
            h.send_message(Message::Direct(Direct { recipient: pk(3), message: m.clone() })).await.map_err(|e| e.to_string())?;
            match tokio::time::timeout(Duration::from_secs(45), h.recv_message()).await {
                Ok(Ok(Message::Direct(d))) if d.message == m => Ok(t.elapsed()),
                x => Err(format!("{x:?} after {:?}", t.elapsed())),
            }
        }
    };
    if let Err(e) = echo(1).await {
        return s.fail("an honest user was not served", format!("before there was anything else: {e}"));
    }
    // More than sockets and pool hold together.
    let total = 30_000_000;
    let mut sent = 0;
    while sent < total {
        let m = Message::Direct(Direct { recipient: pk(1), message: vec![7; size] });
        if sender.send_message(m).await.is_err() {
            break;
        }
        sent += size + 64;
    }
    let mut worst = Duration::ZERO;
    for n in 0..4u8 {
        match echo(10 + n).await {
            Ok(d) => worst = worst.max(d),
            Err(e) => {
                s.fail("an honest user is not served any more", format!("messages of {size} bytes for {} that does not read: {e}", if to_peer { "a broker" } else { "a user" }));
                break;
            }
        }
        tokio::time::sleep(Duration::from_secs(2)).await;
    }
    // (5 s for one write, and a machine that is busy.)
    s.check(worst < Duration::from_secs(45), "one that does not read holds up the others", || format!("{worst:?} for an echo, messages of {size} bytes"));
    // It was given up: its end of the connection says so.
    let gone = tokio::time::timeout(Duration::from_secs(20), async { while victim.recv_message().await.is_ok() {} }).await.is_ok();
    s.check(gone, "one that did not read is kept", || format!("messages of {size} bytes, to a broker: {to_peer}"));
    s.ev("unread_bytes", sent as u64);
    s.ev(format!("unread_{name}_ms").as_str(), worst.as_millis() as u64);
    s.state((name, size, to_peer));
    s.log(format!("{name}, {size} bytes, to a broker: {to_peer}: {worst:?}"));
    drop(sender);
}
