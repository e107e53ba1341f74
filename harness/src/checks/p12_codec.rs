//! P12: encoding and decoding are inverse for every message, and decoding or applying whatever arrives is total:
//! an answer or an error, within memory and time in proportion to the input.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

use cdn_broker::verif::{DirectMap, TopicSyncMap};
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::{
    Broadcast, Direct, Message,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

use super::util::faults;
use crate::alloc;
use crate::codecgen::*;
use crate::announce::{key, read_user_sync, topic_sync, user_sync};
use crate::group;
use crate::net::Faults;
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, settle, World, INVALID, VALID};

pub fn groups() -> Vec<Group> {
    vec![
        group!("codec-faithful", faithful, Rt::Virtual, 500, 20_000),
        group!("codec-hostile", hostile, Rt::Virtual, 1_000, 60_000),
        group!("announcements-hostile", announcements, Rt::Virtual, 700, 40_000),
        group!("views-agree", views, Rt::Virtual, 150, 6_000),
        group!("hostile-peer", hostile_peer, Rt::Virtual, 500, 12_000),
    ]
}


async fn faithful(s: &mut Scn) {
    let mut rng = s.rng.clone();
    for _ in 0..200 {
        let m = message(&mut rng);
        let copy = m.clone();
        let Ok(enc) = catch_unwind(AssertUnwindSafe(|| m.serialize())) else {
            s.fail("encoding panics", brief(&copy));
            return;
        };
        let Ok(enc) = enc else {
            s.fail("encoding refuses a message", brief(&copy));
            return;
        };
        s.ev("messages_encoded", 1);
        s.state((kind(&m), enc.len().min(4096)));
        s.check(m == copy, "encoding changes the message", || brief(&copy));
        // Wherever in memory the bytes happen to lie.
        let at = rng.gen_range(0..9);
        let mut buf = vec![0xAA; at];
        buf.extend_from_slice(&enc);
        let dec = catch_unwind(AssertUnwindSafe(|| Message::deserialize(&buf[at..])));
        match dec {
            Ok(Ok(d)) => {
                s.check(d == m, "a message does not decode to itself", || format!("{} became {}", brief(&m), brief(&d)));
                s.check(d.serialize().ok().as_deref() == Some(&enc[..]), "encoding is not a function of the message", || brief(&m));
            }
            Ok(Err(e)) => s.fail("an encoded message does not decode", format!("{e}: {}", brief(&m))),
            Err(_) => s.fail("decoding panics", brief(&m)),
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- hostile bytes

const PER_BYTE: u64 = 64;
const FLAT: u64 = 64 << 10;

/// Run `f` and judge what it took.  `None`: it panicked.
fn judged<T>(s: &mut Scn, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    alloc::reset();
    let t = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(f));
    let (took, used) = (t.elapsed(), alloc::total());
    let hex = |b: &[u8]| b.iter().take(160).map(|x| format!("{x:02x}")).collect::<String>();
    s.check(used <= PER_BYTE * input.len() as u64 + FLAT, &format!("{what} allocates out of proportion"), || {
        format!("{used} bytes for {} bytes of input: {}", input.len(), hex(input))
    });
    s.check(took < Duration::from_secs(5), &format!("{what} takes out of proportion"), || {
        format!("{took:?} for {} bytes of input: {}", input.len(), hex(input))
    });
    match r {
        Ok(r) => Some(r),
        Err(_) => {
            s.fail(&format!("{what} panics"), format!("on {} bytes: {}", input.len(), hex(input)));
            None
        }
    }
}

async fn hostile(s: &mut Scn) {
    let mut rng = s.rng.clone();
    for i in 0..400 {
        let mut input = match rng.gen_range(0..10) {
            0 => {
                let n = rng.gen_range(0..200);
                (0..n).map(|_| rng.gen()).collect()
            }
            1..=4 => soup(&mut rng),
            _ => {
                let mut v = message(&mut rng).serialize().expect("serializes");
                mutate(&mut rng, &mut v);
                v
            }
        };
        if i % 50 == 49 {
            // Nothing but lists of lists of nothing, large.
            let n = rng.gen_range(1000..60_000);
            input = vec![];
            input.extend_from_slice(&0u32.to_le_bytes());
            input.extend_from_slice(&(n as u32).to_le_bytes());
            for w in 0..n {
                input.extend_from_slice(&word(&mut rng, (n - w) as u32).to_le_bytes());
            }
            if input.len() > 16 {
                input[8..16].copy_from_slice(&((1u64 << 32) | (1u64 << 48)).to_le_bytes());
                input[16..24].copy_from_slice(&rng.gen_range(0..10u64).to_le_bytes());
            }
        }
        tame(&mut input);
        s.ev("hostile_inputs", 1);
        let Some(r) = judged(s, "decoding", &input, || Message::deserialize(&input)) else { return };
        match r {
            Ok(m) => {
                s.ev("hostile_inputs_decoded", 1);
                s.state((kind(&m), input.len().min(2048)));
                // What was understood can be passed on.
                let again = m.serialize().ok().and_then(|e| Message::deserialize(&e).ok());
                s.check(again.as_ref() == Some(&m), "a decoded message does not survive re-encoding", || brief(&m));
            }
            Err(e) => {
                s.ev("hostile_inputs_refused", 1);
                s.state(("refused", e.to_string().len(), input.len().min(2048)));
            }
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- announcements

/// The version number of an entry as it appears in an archive of `m`, made as large as it gets.
fn with_great_version(rng: &mut StdRng, k: &[u8], at: &BrokerIdentifier, v: u64) -> Option<DirectMap> {
    // Found by comparing the archives of two maps that differ in the version only.
    let mut a = DirectMap::new(at.clone());
    a.insert(key(k), at.clone());
    let first = payload(&user_sync(&a));
    a.diff();
    a.insert(key(k), at.clone());
    let second = payload(&user_sync(&a));
    let mut out = first.clone();
    let at = (0..first.len().min(second.len())).find(|i| first[*i] != second[*i])?;
    out.get_mut(at..at + 8)?.copy_from_slice(&v.to_le_bytes());
    let _ = rng;
    read_user_sync(&out)
}

async fn announcements(s: &mut Scn) {
    let mut rng = s.rng.clone();
    for _ in 0..120 {
        let me = ident(&mut rng);
        let users = rng.gen_bool(0.6);
        let mut input = if users { payload(&user_sync(&user_map(&mut rng, &me))) } else { payload(&topic_sync(&topic_map(&mut rng))) };
        match rng.gen_range(0..5) {
            0 => {}
            1 => {
                let n = rng.gen_range(0..300);
                input = (0..n).map(|_| rng.gen()).collect();
            }
            2 => {
                // The end is where the archive's root is.
                let n = input.len();
                let lo = n.saturating_sub(96);
                for _ in 0..rng.gen_range(1..6) {
                    if n > 0 {
                        let at = rng.gen_range(lo..n);
                        input[at] = if rng.gen() { rng.gen() } else { *[0, 1, 0x7f, 0x80, 0xff].choose(&mut rng).expect("non-empty") };
                    }
                }
            }
            3 => {
                let from = rng.gen_range(0..=input.len());
                input.drain(..from);
            }
            _ => mutate(&mut rng, &mut input),
        }
        // As the handler has it: in a vector of its own.
        let input: Vec<u8> = input.clone();
        s.ev("announcements", 1);
        if users {
            let Some(r) = judged(s, "reading a user announcement", &input, || rkyv::from_bytes::<DirectMap>(&input).ok()) else { return };
            let Some(map) = r else {
                s.ev("announcements_refused", 1);
                continue;
            };
            s.ev("announcements_read", 1);
            s.state(("u", map.underlying_map.len(), input.len()));
            let own: BrokerIdentifier = "own/own".to_string().try_into().expect("parses");
            let mut u = DirectMap::new(own.clone());
            let (a, b) = (map.get_full(), map);
            judged(s, "merging a user announcement", &input, || {
                for (k, _) in u.merge(a) {
                    u.remove_if_equals(k, own.clone());
                }
                u.merge(b);
                u.diff();
            });
        } else {
            let Some(r) = judged(s, "reading a topic announcement", &input, || rkyv::from_bytes::<TopicSyncMap>(&input).ok()) else { return };
            let Some(map) = r else {
                s.ev("announcements_refused", 1);
                continue;
            };
            s.ev("announcements_read", 1);
            s.state(("t", map.underlying_map.len(), input.len()));
            let mut t = TopicSyncMap::new(0);
            judged(s, "merging a topic announcement", &input, || {
                t.merge(map.get_full());
                t.merge(map);
                t.diff();
            });
        }
        if s.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- in a deployment

/// What recipients see of a forwarded message is what its sender sent, whatever it contains.
async fn views(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let w = World::new(s.seed, faults(&mut rng));
    // The name of the later one is the greater one: it dials the other.
    let b1 = w.broker("b2").await;
    secs(1.0).await;
    let b2 = w.broker("b1").await;
    secs(25.0).await;
    let names: Vec<Vec<u8>> = (0..2).map(|i| pk(40 + i)).collect();
    let (Ok(mut a), Ok(mut near), Ok(mut far)) = (
        w.user(&b1.id, 39, &[]).await,
        w.user(&b1.id, 40, &VALID).await,
        w.user(&b2.id, 41, &VALID).await,
    ) else {
        return s.inconclusive("users cannot connect");
    };
    secs(12.0).await;
    let mut sent = [vec![], vec![]];
    for _ in 0..12 {
        let p = bytes(&mut rng);
        if rng.gen() {
            let mut ts: Vec<u8> = (0..rng.gen_range(0..6)).map(|_| rng.gen()).collect();
            ts.push(*VALID.choose(&mut rng).expect("non-empty"));
            ts.shuffle(&mut rng);
            let m = Message::Broadcast(Broadcast { topics: ts, message: p });
            a.send(&m).await;
            sent[0].push(m.clone());
            sent[1].push(m);
        } else {
            let i = rng.gen_range(0..2);
            let m = Message::Direct(Direct { recipient: names[i].clone(), message: p });
            a.send(&m).await;
            sent[i].push(m);
        }
    }
    secs(5.0).await;
    for (i, u) in [&mut near, &mut far].into_iter().enumerate() {
        let got = u.drain();
        s.ev("forwarded_messages_compared", got.len() as u64);
        s.state((i, got.len()));
        let same = |m: &Message, n: &Message| match (m, n) {
            (Message::Broadcast(m), Message::Broadcast(n)) => {
                // Which of the topics named are passed on is not a matter of faithfulness.
                m.message == n.message
            }
            _ => m == n,
        };
        s.check(
            got.len() == sent[i].len() && got.iter().zip(&sent[i]).all(|(m, n)| same(m, n)),
            "a forwarded message differs from the one sent",
            || format!("{} sent, {} arrived; {:?}", sent[i].len(), got.len(), got.iter().zip(&sent[i]).find(|(m, n)| !same(m, n)).map(|(m, n)| (brief(m), brief(n)))),
        );
    }
}

/// Announcements from a peer, garbled or merely extreme, while users come and go.
async fn hostile_peer(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let w = World::new(s.seed, Faults::default());
    let b = w.broker("b1").await;
    settle().await;
    let (Ok(mut a), Ok(mut c)) = (w.user(&b.id, 1, &[]).await, w.user(&b.id, 2, &[VALID[0]]).await) else {
        return s.inconclusive("users cannot connect");
    };
    let Ok(mut peer) = w.peer(&b.id, "p").await else { return s.inconclusive("the peer cannot connect") };
    let me = w.broker_id("p");
    let pool: Vec<Vec<u8>> = (10..14).map(pk).collect();
    let mut guests = vec![];
    let mut n = 0u64;
    for _ in 0..rng.gen_range(4..14) {
        if peer.closed() {
            settle().await;
            let Ok(p) = w.peer(&b.id, "p").await else {
                s.fail("a peer that was put out cannot connect again", "after sending garbled announcements");
                return;
            };
            peer = p;
            s.ev("peer_reconnections", 1);
        }
        match rng.gen_range(0..8) {
            0 => {
                let v = soup(&mut rng);
                peer.send_frame(&v).await;
            }
            1 => {
                let mut v = message(&mut rng).serialize().expect("serializes");
                mutate(&mut rng, &mut v);
                peer.send_frame(&v).await;
            }
            2 => {
                let mut v = payload(&user_sync(&user_map(&mut rng, &me)));
                mutate(&mut rng, &mut v);
                peer.send(&Message::UserSync(v)).await;
            }
            3 => {
                let mut v = payload(&topic_sync(&topic_map(&mut rng)));
                mutate(&mut rng, &mut v);
                peer.send(&Message::TopicSync(v)).await;
            }
            4 => {
                let m = user_sync(&user_map(&mut rng, &me));
                peer.send(&m).await;
            }
            5 => {
                let m = topic_sync(&topic_map(&mut rng));
                peer.send(&m).await;
            }
            6 => {
                let k = pool.choose(&mut rng).expect("non-empty");
                let v = *[u64::MAX, u64::MAX - 1, 1 << 63].choose(&mut rng).expect("non-empty");
                if let Some(m) = with_great_version(&mut rng, k, &me, v) {
                    peer.send(&user_sync(&m)).await;
                    s.ev("greatest_versions_announced", 1);
                }
            }
            _ => {
                let k = rng.gen_range(10..14);
                let ts = if rng.gen() { vec![VALID[1]] } else { vec![INVALID[0]] };
                if let Ok(u) = w.user(&b.id, k, &ts).await {
                    guests.push(u);
                }
                if guests.len() > 2 {
                    guests.remove(0);
                }
            }
        }
        s.ev("peer_messages", 1);
        settle().await;
        // Everyone else is served as before.
        n += 1;
        a.broadcast(&[VALID[0]], &n.to_le_bytes()).await;
        a.direct(&pk(2), &n.to_le_bytes()).await;
        settle().await;
        // (The peer's nonsense may contain messages of its own.)
        let mine = |m: &Message| match m {
            Message::Broadcast(b) => b.message == n.to_le_bytes(),
            Message::Direct(d) => d.message == n.to_le_bytes(),
            _ => false,
        };
        let got = c.drain().iter().filter(|m| mine(m)).count();
        if !s.check(got == 2 && !a.closed() && !c.closed() && !b.exited(), "a peer's announcement harms others", || {
            format!("{got} of 2 messages arrived; closed: {} {}, broker ended: {}", a.closed(), c.closed(), b.exited())
        }) {
            return;
        }
        s.state((peer.closed(), guests.len(), n));
    }
    secs(25.0).await;
    s.check(!b.exited(), "a peer's announcement ends the broker", String::new);
}

