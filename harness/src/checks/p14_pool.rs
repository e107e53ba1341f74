//! P14: the memory pool bounds what is held, and gets everything back; bounded queues stay bounded.
use std::collections::VecDeque;
use std::time::Duration;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::Connection;
use cdn_proto::connection::Bytes;
use cdn_proto::message::Message;
use rand::{seq::SliceRandom, Rng};
use tokio::time::{sleep, timeout};

use super::util::payload_id;
use crate::group;
use crate::net::{Faults, Net};
use crate::run::{Group, Rt, Scn};
use crate::world::{connection_pair, connection_pair2, pk, secs, settle, BrokerOpts, Raw, World};

pub fn groups() -> Vec<Group> {
    vec![
        group!("pool-model", model, Rt::Virtual, 12000, 60_000),
        group!("pool-broker", broker, Rt::Virtual, 2000, 15_000),
        group!("pool-oversize", oversize, Rt::Virtual, 100, 1000),
        group!("queue-bound", queue, Rt::Virtual, 1000, 20_000),
        group!("pool-threads", threads, Rt::Multi(4), 20, 500),
    ]
}

struct Conn {
    c: Option<Connection>,
    raw: Raw,
    /// Sizes of the frames written so far, in order (the last may be incomplete).
    frames: Vec<u64>,
    /// How many the consumer received.
    received: usize,
    dead: bool,
}

impl Conn {
    /// Bytes of messages that were taken off the stream (whole, as soon as a byte of the body was) but not received.
    fn in_flight(&self, taken: u64) -> u64 {
        let mut at = 0;
        let mut sum = 0;
        for (i, n) in self.frames.iter().enumerate() {
            if taken > at + 4 && i >= self.received {
                sum += n;
            }
            at += 4 + n;
        }
        sum
    }
}

async fn model(s: &mut Scn) {
    let f = Faults {
        capacity: s.rng.gen_range(50..20_000),
        chunk: (1, s.rng.gen_range(1..3000)),
        latency_us: (0, s.rng.gen_range(0..500)),
        ..Faults::default()
    };
    let net = Net::new(s.seed, f);
    let pool = *[1u64, 64, 1000, 5000, 50_000].choose(&mut s.rng).expect("some");
    let queue = *[None, None, Some(1), Some(4)].choose(&mut s.rng).expect("some");
    let lim = Limiter::new(Some(pool as usize), queue);
    let k = s.rng.gen_range(1..=7);
    let mut conns: Vec<Conn> = vec![];
    for i in 0..k {
        let (c, raw) = connection_pair(&net, &format!("c{i}"), lim.clone()).await;
        conns.push(Conn { c: Some(c), raw, frames: vec![], received: 0, dead: false });
    }
    // Everything the raw side wants to write goes through unbounded buffering tasks, so that it never blocks us.
    let mut writers: Vec<tokio::sync::mpsc::UnboundedSender<Vec<u8>>> = vec![];
    for c in &mut conns {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
        let mut w = c.raw.take_writer().expect("has one");
        tokio::spawn(async move {
            use tokio::io::AsyncWriteExt;
            while let Some(b) = rx.recv().await {
                if w.write_all(&b).await.is_err() {
                    return;
                }
            }
        });
        writers.push(tx);
    }
    let mut held: Vec<(Bytes, u64, bool)> = vec![];
    let mut partial: Vec<bool> = vec![false; k];
    for step in 0..s.rng.gen_range(10..80) {
        let i = s.rng.gen_range(0..k);
        match s.rng.gen_range(0..20) {
            0..=8 if !conns[i].dead && !partial[i] => {
                for _ in 0..s.rng.gen_range(1..4) {
                    let n = match s.rng.gen_range(0..6) {
                        0 => pool,
                        1 => 0,
                        2 => pool.div_ceil(2),
                        _ => s.rng.gen_range(0..=pool),
                    };
                    let mut b = (n as u32).to_be_bytes().to_vec();
                    b.resize(4 + n as usize, 7);
                    conns[i].frames.push(n);
                    if s.rng.gen_bool(0.05) && n > 0 {
                        // A frame that never ends.
                        let cut = s.rng.gen_range(1..b.len());
                        b.truncate(cut);
                        partial[i] = true;
                        let _ = writers[i].send(b);
                        s.ev("partial_frames", 1);
                        break;
                    }
                    let _ = writers[i].send(b);
                    s.ev("frames", 1);
                }
            }
            9..=13 => {
                if let Some(c) = &conns[i].c {
                    if let Ok(r) = timeout(Duration::from_millis(1), c.recv_message_raw()).await {
                        match r {
                            Ok(b) => {
                                let n = b.len() as u64;
                                let want = conns[i].frames.get(conns[i].received).copied();
                                s.check(want == Some(n), "wrong message", || format!("{want:?} expected, got {n} bytes"));
                                conns[i].received += 1;
                                let extra = s.rng.gen_bool(0.3);
                                if extra {
                                    // Handles to one message count once.
                                    held.push((b.clone(), 0, true));
                                }
                                held.push((b, n, extra));
                                s.ev("messages_held", 1);
                            }
                            Err(_) => conns[i].dead = true,
                        }
                    }
                }
            }
            14 | 15 if !held.is_empty() => {
                let n = s.rng.gen_range(1..=held.len());
                if s.rng.gen() {
                    held.drain(..n);
                } else {
                    held.truncate(held.len() - n);
                }
                // A handle whose sibling stays keeps the bytes: count conservatively from what is left.
                let mut sum_left = 0;
                for h in &mut held {
                    h.1 = if h.2 { 0 } else { h.0.len() as u64 };
                    sum_left += h.1;
                }
                let _ = sum_left;
            }
            16 if s.rng.gen_bool(0.4) => {
                conns[i].c = None;
                conns[i].dead = true;
                s.ev("connections_dropped", 1);
            }
            17 if s.rng.gen_bool(0.4) => {
                let l = conns[i].raw.link.clone().expect("set");
                if s.rng.gen() {
                    l.reset();
                    conns[i].dead = true;
                } else {
                    l.eof();
                }
                partial[i] = true;
                s.ev("connections_cut", 1);
            }
            18 => {
                let d = s.rng.gen_range(0.0..7.0);
                secs(d).await;
            }
            _ => {}
        }
        sleep(Duration::from_millis(5)).await;
        // What must be in memory now, at least.
        let mut sum: u64 = held.iter().map(|h| h.1).sum();
        for c in &conns {
            let l = c.raw.link.as_ref().expect("set");
            if c.dead || c.c.is_none() || !l.is_open() {
                continue;
            }
            let taken = l.b2a.total() - l.b2a.queued() as u64;
            sum += c.in_flight(taken);
        }
        s.check(sum <= pool, "more than the pool is held", || {
            format!("step {step}: {sum} bytes of messages in memory, the pool has {pool}")
        });
        s.state((pool, queue, sum * 20 / pool, k));
        if s.failed() {
            return;
        }
    }
    // Everything ends, in some order.
    let keep = s.rng.gen::<bool>();
    let mut order: Vec<usize> = (0..k).collect();
    order.shuffle(&mut s.rng);
    for i in order {
        match s.rng.gen_range(0..3) {
            0 => conns[i].c = None,
            1 => conns[i].raw.link.as_ref().expect("set").reset(),
            _ => conns[i].raw.link.as_ref().expect("set").eof(),
        }
    }
    held.clear();
    secs(1.0).await;
    if keep {
        // Connections whose stream ended: whatever is still queued is handed out, and then it is over.
        for c in conns.iter_mut() {
            if let Some(x) = &c.c {
                while let Ok(Ok(_)) = timeout(Duration::from_secs(7), x.recv_message_raw()).await {}
            }
        }
        secs(7.0).await;
    }
    conns.clear();
    secs(1.0).await;
    let all = timeout(Duration::from_secs(1), lim.allocate_message_bytes(pool as u32)).await;
    s.check(all.is_ok(), "pool not given back", || format!("not all {pool} bytes are available after the end of everything"));
    let more = timeout(Duration::from_millis(10), lim.allocate_message_bytes(1)).await;
    s.check(all.is_err() || more.is_err(), "pool grew", || format!("more than {pool} bytes are available in the end"));
    s.ev("pools", 1);
}

/// The same with several threads, so that ends race with transfers.
async fn threads(s: &mut Scn) {
    let net = Net::new(s.seed, Faults { capacity: 3000, ..Faults::default() });
    let pool = 10_000;
    let lim = Limiter::new(Some(pool), None);
    for _ in 0..30 {
        let mut tasks = vec![];
        for i in 0..4 {
            let (a, b, link) = connection_pair2(&net, &format!("t{i}"), Limiter::none(), lim.clone()).await;
            let us = s.rng.gen_range(0..3000);
            let how = s.rng.gen_range(0..4);
            tasks.push(tokio::spawn(async move {
                let w = tokio::spawn(async move {
                    for n in 0..40 {
                        if a.send_message_raw(Bytes::from_unchecked(vec![1; 100 * (n % 20)])).await.is_err() {
                            break;
                        }
                    }
                    a
                });
                let b2 = b.clone();
                let r = tokio::spawn(async move {
                    let mut keep = VecDeque::new();
                    while let Ok(m) = b2.recv_message_raw().await {
                        keep.push_back(m);
                        if keep.len() > 3 {
                            keep.pop_front();
                        }
                    }
                });
                sleep(Duration::from_micros(us)).await;
                match how {
                    0 => link.reset(),
                    1 => link.eof(),
                    2 => r.abort(),
                    _ => {}
                }
                drop(b);
                r.abort();
                let _ = r.await;
                link.reset();
                let _ = w.await;
            }));
        }
        for t in tasks {
            let _ = t.await;
        }
        let all = timeout(Duration::from_secs(20), lim.allocate_message_bytes(pool as u32)).await;
        s.check(all.is_ok(), "pool not given back", || "after connections ended, on several threads".to_string());
        let more = timeout(Duration::from_millis(1), lim.allocate_message_bytes(1)).await;
        s.check(all.is_err() || more.is_err(), "pool grew", || "after connections ended, on several threads".to_string());
        if s.failed() {
            return;
        }
        s.ev("pools", 1);
    }
}

/// A broker with a small pool serves on after any history, and a message of nearly the whole pool passes.
async fn broker(s: &mut Scn) {
    let pool = *[3000usize, 20_000, 100_000].choose(&mut s.rng).expect("some");
    let f = Faults { capacity: s.rng.gen_range(100..10_000), chunk: (1, s.rng.gen_range(50..3000)), ..Faults::default() };
    let w = World::new(s.seed, f);
    let b = w.broker_with("m", BrokerOpts { pool: Some(pool), ..BrokerOpts::default() }).await;
    settle().await;
    let n = s.rng.gen_range(2..=5u64);
    let mut users: Vec<Raw> = vec![];
    for i in 0..n {
        match w.user(&b.id, i, &[1]).await {
            Ok(u) => users.push(u),
            Err(e) => return s.fail("user not admitted", e),
        }
    }
    settle().await;
    let mut stalled = false;
    for _ in 0..s.rng.gen_range(5..40) {
        let i = s.rng.gen_range(0..users.len());
        let l = users[i].link.clone().expect("set");
        match s.rng.gen_range(0..12) {
            0..=6 => {
                let size = s.rng.gen_range(8..=pool / 2);
                let m = vec![3; size];
                let lim = Duration::from_millis(200);
                if s.rng.gen() {
                    let _ = timeout(lim, users[i].broadcast(&[1], &m)).await;
                } else {
                    let to = s.rng.gen_range(0..n + 1);
                    let _ = timeout(lim, users[i].direct(&pk(to), &m)).await;
                }
                s.ev("messages", 1);
            }
            7 => {
                l.b2a.stall(true);
                stalled = true;
                s.ev("stalled_readers", 1);
            }
            8 => {
                // A frame that never ends.
                let mut v = (s.rng.gen_range(1..pool as u32)).to_be_bytes().to_vec();
                v.push(1);
                let _ = timeout(Duration::from_millis(50), users[i].send_bytes(&v)).await;
                s.ev("partial_frames", 1);
            }
            9 => {
                l.reset();
                s.ev("resets", 1);
            }
            10 => users[i].hang_up(),
            _ => {
                let d = s.rng.gen_range(0.0..4.0);
                secs(d).await;
            }
        }
    }
    // Without anybody's help the broker has to get over it: those that do not read or do not finish are dropped.
    secs(30.0).await;
    let leave = !stalled || s.rng.gen();
    if leave {
        for u in &mut users {
            u.hang_up();
        }
        users.clear();
        secs(12.0).await;
    }
    s.state((pool, stalled, leave, n));
    let (mut x, mut y) = match (w.user(&b.id, 100, &[]).await, w.user(&b.id, 101, &[]).await) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => {
            return s.fail("broker stuck", format!(
                "nobody gets in, pool {pool}, stalled readers {stalled}, they {}: {:?} {:?}",
                if leave { "left" } else { "are still there" }, x.err(), y.err()));
        }
    };
    settle().await;
    // Everything must be available once those connections ended; while some are still there, at least service goes on.
    let size = if leave { pool - 200 } else { 100 };
    let mut m = 424_242u64.to_le_bytes().to_vec();
    m.resize(size, 9);
    let sent = timeout(Duration::from_secs(10), x.direct(&pk(101), &m)).await;
    let mut ok = false;
    while let Some(g) = y.next(Duration::from_secs(5)).await {
        if let Message::Direct(d) = g {
            if payload_id(&d.message) == 424_242 {
                ok = d.message == m;
                break;
            }
        }
    }
    s.check(ok, "pool not given back", || {
        format!("a message of {size} bytes does not pass the broker with a pool of {pool} (sent: {sent:?}, left: {leave})")
    });
    s.ev("pools", 1);
}

/// A frame larger than the pool can ever hold: its connection fails, the others go on.
async fn oversize(s: &mut Scn) {
    let net = Net::new(s.seed, Faults::default());
    let pool = s.rng.gen_range(10..50_000u32);
    let lim = Limiter::new(Some(pool as usize), None);
    let (a, mut ra) = connection_pair(&net, "a", lim.clone()).await;
    let (b, mut rb) = connection_pair(&net, "b", lim.clone()).await;
    let over = *[pool + 1, pool * 2, 100_000_000].choose(&mut s.rng).expect("some");
    let mut v = over.to_be_bytes().to_vec();
    v.extend([1; 100]);
    ra.send_bytes(&v).await;
    settle().await;
    let sized = pool as usize / 2;
    rb.send_frame(&vec![1; sized]).await;
    let r = timeout(Duration::from_secs(6), b.recv_message_raw()).await;
    s.check(matches!(&r, Ok(Ok(m)) if m.len() == sized), "oversized message blocks others", || {
        format!("pool {pool}: a frame of {over} bytes on another connection blocks one of {sized}")
    });
    let e = timeout(Duration::from_secs(12), a.recv_message_raw()).await;
    s.check(matches!(e, Ok(Err(_))), "oversized message not refused", || {
        format!("pool {pool}, frame {over}: {:?}", e.map(|r| r.map(|m| m.len())))
    });
    s.ev("oversized", 1);
    s.state((over / pool.max(1)).min(5));
}

/// Bounded queues, in both directions.
async fn queue(s: &mut Scn) {
    let net = Net::new(s.seed, Faults::default());
    let q = s.rng.gen_range(1..=5usize);
    let (c, mut raw) = connection_pair(&net, "q", Limiter::new(None, Some(q))).await;
    let size = s.rng.gen_range(0..300usize);
    let total = q + s.rng.gen_range(2..30usize);
    for i in 0..total {
        raw.send_frame(&vec![i as u8; size]).await;
    }
    // Note that the connection's roles are mirrored here: it made the connection, we accepted it.
    settle().await;
    let l = raw.link.clone().expect("set");
    let received = s.rng.gen_range(0..=total.min(6));
    for i in 0..received {
        let r = timeout(Duration::from_secs(1), c.recv_message_raw()).await;
        s.check(matches!(&r, Ok(Ok(m)) if m.len() == size && m.iter().all(|b| *b == i as u8)), "wrong message", || format!("message {i}"));
    }
    settle().await;
    let taken = l.b2a.total() - l.b2a.queued() as u64;
    let frames = taken / (4 + size as u64);
    let stuck = frames as usize - received.min(frames as usize);
    // In the queue, and one on its way into it.
    s.check(stuck <= q + 1, "queue limit exceeded", || format!("{stuck} messages taken off the stream, the limit is {q}"));
    s.check(stuck >= q.min(total - received), "queue limit not used", || {
        format!("{stuck} messages taken off the stream though {q} fit and {} are there", total - received)
    });
    // The other direction: nobody reads.
    l.a2b.stall(true);
    l.a2b.set_capacity(0);
    let mut done = 0;
    for i in 0..q + 8 {
        let m = Bytes::from_unchecked(vec![i as u8; size]);
        if timeout(Duration::from_millis(20), c.send_message_raw(m)).await.is_err() {
            break;
        }
        done += 1;
    }
    s.check(done <= q + 1, "queue limit exceeded", || format!("{done} messages accepted for sending, the limit is {q}"));
    s.ev("queues", 2);
    s.state((q, stuck, done, received));
}
