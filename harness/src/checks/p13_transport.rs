//! P13: framing, bounds and endings, on the raw connection code and on every transport.
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::memory::Memory;
use cdn_proto::connection::protocols::quic::Quic;
use cdn_proto::connection::protocols::tcp::Tcp;
use cdn_proto::connection::protocols::tcp_tls::TcpTls;
use cdn_proto::connection::protocols::{Connection, Listener, Protocol, UnfinalizedConnection};
use cdn_proto::connection::Bytes;
use cdn_proto::crypto::tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY};
use cdn_proto::MAX_MESSAGE_SIZE;
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::time::{sleep, timeout, Instant};

use crate::group;
use crate::net::{Faults, Net};
use crate::real::free_addr;
use crate::run::{Group, Rt, Scn};
use crate::world::{connection_pair, settle};

pub fn groups() -> Vec<Group> {
    let mut v = vec![
        group!("frames-hostile", frames, Rt::Virtual, 4000, 100_000),
        group!("frames-soft-close", soft_close, Rt::Virtual, 3000, 60_000),
        group!("frames-endings", endings, Rt::Virtual, 2000, 40_000),
        group!("transport-memory", memory, Rt::Multi(4), 120, 3000),
        group!("transport-tcp", tcp, Rt::Multi(4), 60, 1000),
        group!("transport-tls", tls, Rt::Multi(4), 48, 600),
        group!("transport-quic", quic, Rt::Multi(4), 16, 600),
        group!("transport-tcp-hostile", tcp_hostile, Rt::Multi(2), 16, 300),
        group!("transport-certificates", certificates, Rt::Multi(2), 4, 20),
        group!("transport-idle", idle, Rt::Real, 80, 2000),
    ];
    for g in &mut v[3..] {
        g.par = 4;
    }
    v[6].par = 8; // (mostly waiting for a connection attempt to nobody to time out)
    v
}

/// A body that can be recognised: who sent it, in which direction, which one it is, then derived noise.
fn body(conn: u32, dir: u8, seq: u32, size: usize) -> Vec<u8> {
    let mut v = conn.to_le_bytes().to_vec();
    v.push(dir);
    v.extend(seq.to_le_bytes());
    v.extend((size as u32).to_le_bytes());
    let at = v.len();
    v.resize(at + size, 0);
    StdRng::seed_from_u64(u64::from(conn) << 33 | u64::from(dir) << 32 | u64::from(seq)).fill(&mut v[at..]);
    v
}
fn parse(b: &[u8]) -> Option<(u32, u8, u32)> {
    let conn = u32::from_le_bytes(b.get(..4)?.try_into().ok()?);
    let dir = *b.get(4)?;
    let seq = u32::from_le_bytes(b.get(5..9)?.try_into().ok()?);
    let size = u32::from_le_bytes(b.get(9..13)?.try_into().ok()?) as usize;
    (b.len() == size + 13 && body(conn, dir, seq, size) == b).then_some((conn, dir, seq))
}

fn size(rng: &mut StdRng, big: usize) -> usize {
    match rng.gen_range(0..12) {
        0 => 0,
        1 => rng.gen_range(8170..8200),
        2 => rng.gen_range(65_500..65_600),
        3 => rng.gen_range(0..big.max(1)),
        4..=6 => rng.gen_range(0..5000),
        _ => rng.gen_range(0..200),
    }
}

// --- The connection code over a simulated stream ---

async fn frames(s: &mut Scn) {
    let f = Faults { chunk: (1, s.rng.gen_range(1..200)), latency_us: (0, s.rng.gen_range(0..2000)), ..Faults::default() };
    let net = Net::new(s.seed, f);
    let pool = *[None, None, Some(300usize), Some(100_000)].choose(&mut s.rng).expect("some");
    let lim = Limiter::new(pool, None);
    let (c, mut raw) = connection_pair(&net, "c", lim).await;
    let n = s.rng.gen_range(0..12);
    let mut sent: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let top = pool.map_or(9000, |p| p.min(9000)).saturating_sub(13);
        let b = if s.rng.gen_bool(0.15) { vec![] } else { body(1, 0, i, s.rng.gen_range(0..=top)) };
        sent.push(b);
    }
    let max = u64::from(MAX_MESSAGE_SIZE);
    let kind = s.rng.gen_range(0..9u32);
    let mut bad: Vec<(u64, Vec<u8>)> = vec![]; // pieces: (delay in ms before it, bytes)
    let frame = |b: &[u8]| {
        let mut v = (b.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(b);
        v
    };
    let mut expect_extra: Option<Vec<u8>> = None;
    let mut bound_ms = 100u64; // until the receiver must have learnt that the stream is no good
    let mut announce = 0u64;
    let mut ends = true;
    match kind {
        0 | 1 => {
            // More than the limit (or than the whole pool).
            announce = match (pool, s.rng.gen_range(0..4)) {
                (Some(p), 0) => p as u64 + 1,
                (_, 1) => max + 1,
                (_, 2) => u64::from(u32::MAX),
                _ => s.rng.gen_range(max + 1..=u64::from(u32::MAX)),
            };
            let mut v = (announce as u32).to_be_bytes().to_vec();
            v.extend((0..s.rng.gen_range(0..200)).map(|_| s.rng.gen::<u8>()));
            bad.push((0, v));
            ends = false;
        }
        2 => {
            // A whole frame that takes long, but not too long.
            let b = body(1, 0, n, 200);
            let v = frame(&b);
            let (x, y) = v.split_at(s.rng.gen_range(5..v.len()));
            bad.push((0, x.to_vec()));
            bad.push((s.rng.gen_range(0..4500), y.to_vec()));
            expect_extra = Some(b);
        }
        3 => {
            // A body that trickles in for longer than a body may take: an error, whatever still comes.
            let v = frame(&body(1, 0, n, 200));
            bad.push((0, v[..10].to_vec()));
            for x in v[10..].chunks(40) {
                bad.push((1500, x.to_vec()));
            }
            bound_ms = 1500 * 6 + 500;
            ends = false;
        }
        4 => {
            // A header that trickles (before a message there is no limit of time).
            let b = body(1, 0, n, 20);
            let v = frame(&b);
            for x in v[..4].iter() {
                bad.push((s.rng.gen_range(0..20_000), vec![*x]));
            }
            bad.push((0, v[4..].to_vec()));
            expect_extra = Some(b);
        }
        5 | 6 => {
            // Truncated at a random place: in the header or in the body.
            let v = frame(&body(1, 0, n, 200));
            bad.push((0, v[..s.rng.gen_range(0..v.len())].to_vec()));
        }
        7 => {
            // The rest of the body never comes and the connection stays open.
            let v = frame(&body(1, 0, n, 200));
            bad.push((0, v[..s.rng.gen_range(4..v.len())].to_vec()));
            bound_ms = 5500;
            ends = false;
        }
        _ => {
            // Exactly the limit is not too large: nothing may be refused before the body had its time.
            let top = pool.map_or(max, |p| max.min(p as u64));
            bad.push((0, (top as u32).to_be_bytes().to_vec()));
            bound_ms = 5500;
            announce = top;
            ends = false;
        }
    }
    s.log(format!("{n} frames, kind {kind}, announces {announce}, pool {pool:?}"));
    s.ev(["oversize", "oversize", "slow_body", "overlong_body", "slow_header", "truncated", "truncated", "stalled_body", "at_limit"][kind as usize], 1);
    crate::alloc::reset();
    let consumer = {
        let c = c.clone();
        tokio::spawn(async move {
            let mut got = vec![];
            let mut held = 0;
            loop {
                match c.recv_message_raw().await {
                    Ok(b) => {
                        held += b.len();
                        got.push(b.to_vec());
                    }
                    Err(_) => return (got, held, Instant::now()),
                }
            }
        })
    };
    let glue = s.rng.gen_bool(0.5);
    let mut all = vec![];
    for b in &sent {
        let v = frame(b);
        if glue {
            all.extend(v);
        } else {
            raw.send_bytes(&v).await;
        }
    }
    if glue {
        raw.send_bytes(&all).await;
    }
    settle().await;
    let t_bad = Instant::now();
    for (delay, b) in &bad {
        sleep(Duration::from_millis(*delay)).await;
        raw.send_bytes(b).await;
    }
    if kind == 8 && announce > 0 {
        settle().await;
        s.check(!consumer.is_finished(), "a frame of the allowed size refused", || format!("announcing {announce}"));
    }
    let reset = s.rng.gen_bool(0.3);
    if ends {
        if expect_extra.is_some() {
            settle().await;
        }
        if reset {
            settle().await;
            raw.link.as_ref().expect("has one").reset();
        } else {
            raw.close_write();
        }
    }
    let t_end = if ends || expect_extra.is_some() { Instant::now() } else { t_bad };
    let Ok(Ok((got, _, at))) = timeout(Duration::from_secs(200), consumer).await else {
        s.fail("a receiver hangs", format!("kind {kind}: a receive call did not end though the stream is no good"));
        return;
    };
    let took = at.saturating_duration_since(t_end).as_millis() as u64;
    s.check(took <= bound_ms + 100, "a receiver hangs", || format!("kind {kind}: learnt of the end after {took} ms"));
    let mut want = sent;
    if let Some(b) = expect_extra {
        want.push(b);
    }
    s.check(got == want, "frames altered", || {
        let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        format!("kind {kind}: {} messages delivered, {} due; first difference at {d}: {:?} due {:?}", got.len(), want.len(), got.get(d).map(Vec::len), want.get(d).map(Vec::len))
    });
    s.ev("frames_delivered", got.len() as u64);
    if kind <= 1 {
        let largest = crate::alloc::largest();
        s.check(largest < 2 << 20, "a refused frame was allocated", || format!("an allocation of {largest} bytes for a frame announcing {announce}"));
    }
    s.state((kind, n.min(3), pool, reset, glue));
    let r = timeout(Duration::from_secs(1), c.recv_message_raw()).await;
    s.check(matches!(r, Ok(Err(_))), "a receive on an ended stream does not fail", || format!("{:?}", r.is_ok()));
}

async fn soft_close(s: &mut Scn) {
    let f = Faults {
        capacity: s.rng.gen_range(20..3000),
        chunk: (1, s.rng.gen_range(1..2000)),
        latency_us: (0, s.rng.gen_range(0..3000)),
        buffer: [0, 0, 10, 1000, 65_536][s.rng.gen_range(0..5)],
        ..Faults::default()
    };
    let net = Net::new(s.seed, f);
    let queue = *[None, Some(1), Some(3)].choose(&mut s.rng).expect("some");
    let (c, mut raw) = connection_pair(&net, "c", Limiter::new(None, queue)).await;
    let link = raw.link.clone().expect("has one");
    let n = s.rng.gen_range(0..20u32);
    let mut total = 0u64;
    let mut msgs = vec![];
    for i in 0..n {
        let b = body(1, 0, i, size(&mut s.rng, 20_000).min(20_000));
        total += 4 + b.len() as u64;
        msgs.push(b);
    }
    let kind = s.rng.gen_range(0..7u32);
    let cut_at = s.rng.gen_range(0..total.max(1));
    match kind {
        3 => link.a2b.cut_after(cut_at, true),
        4 => link.a2b.cut_after(cut_at, false),
        _ => {}
    }
    if kind == 2 || kind == 6 {
        link.a2b.stall(true);
    }
    let closers = s.rng.gen_range(1..=3usize);
    let sender = {
        let (c, msgs) = (c.clone(), msgs.clone());
        tokio::spawn(async move {
            for m in msgs {
                if c.send_message_raw(Bytes::from_unchecked(m)).await.is_err() {
                    return false;
                }
            }
            true
        })
    };
    // A soft close waits for what was sent before it; on a bounded queue sending itself takes time.
    let all_queued = queue.is_none();
    let sent_ok = if all_queued { sender.await.expect("no panic") } else { timeout(Duration::from_secs(100), sender).await.is_ok_and(|r| r.expect("no panic")) };
    let results = Arc::new(Mutex::new(vec![]));
    let t0 = Instant::now();
    let mut tasks = vec![];
    for _ in 0..closers {
        let (c, link, results) = (c.clone(), link.clone(), results.clone());
        tasks.push(tokio::spawn(async move {
            let r = c.soft_close().await;
            results.lock().push((r.is_ok(), link.a2b.accepted(), Instant::now()));
        }));
    }
    match kind {
        2 => {
            sleep(Duration::from_millis(s.rng.gen_range(0..4000))).await;
            let premature = results.lock().iter().any(|r| r.0 && r.1 < total);
            s.check(!premature, "a soft close succeeded too early", || format!("{:?} of {total} bytes written", results.lock()));
            link.a2b.stall(false);
        }
        5 => {
            sleep(Duration::from_micros(s.rng.gen_range(0..20_000))).await;
            link.reset();
        }
        1 => {
            sleep(Duration::from_micros(s.rng.gen_range(0..20_000))).await;
            c.close();
        }
        _ => {}
    }
    let limit = 15.0;
    let mut hung = 0;
    for t in tasks {
        let left = Duration::from_secs_f64(limit).saturating_sub(t0.elapsed());
        if timeout(left + Duration::from_millis(1), t).await.is_err() {
            hung += 1;
        }
    }
    s.check(hung == 0, "a soft close hangs", || format!("{hung} of {closers} after {limit} s, kind {kind}, {} of {total} bytes written", link.a2b.accepted()));
    let results = results.lock().clone();
    s.log(format!("kind {kind} {n} messages of {total} bytes, queue {queue:?}: {results:?}"));
    for (ok, at, _) in &results {
        s.check(!ok || *at >= total || (!sent_ok && !all_queued), "a soft close succeeded too early", || format!("{at} of {total} bytes written when it returned success (kind {kind})"));
        s.ev(if *ok { "soft_closes_ok" } else { "soft_closes_failed" }, 1);
        s.state((kind, *ok, *at >= total, n.min(2)));
    }
    if kind == 0 {
        s.check(results.iter().all(|r| r.0), "a soft close failed on a working connection", || format!("{results:?}"));
        settle().await;
        let got: Vec<_> = std::iter::from_fn(|| {
            let i = raw.inbox.lock();
            let f = i.frames.get(raw.cursor).map(|f| f.1.clone());
            raw.cursor += 1;
            f
        })
        .collect();
        s.check(got == msgs, "frames altered", || format!("{} frames arrived of {}", got.len(), msgs.len()));
        s.ev("frames_written", got.len() as u64);
    }
}

/// One end goes away: whatever the other end waits for or tries later fails, within bounded time.
async fn endings(s: &mut Scn) {
    let f = Faults { capacity: s.rng.gen_range(20..5000), chunk: (1, s.rng.gen_range(1..2000)), latency_us: (0, s.rng.gen_range(0..3000)), ..Faults::default() };
    let net = Net::new(s.seed, f);
    let queue = *[None, Some(1), Some(2)].choose(&mut s.rng).expect("some");
    let (c, mut raw) = connection_pair(&net, "c", Limiter::new(None, queue)).await;
    let link = raw.link.clone().expect("has one");
    let kind = s.rng.gen_range(0..6u32);
    // What is under way when it happens: receives, sends that wait for room, a soft close.
    let recvs = s.rng.gen_range(0..3usize);
    let sends = s.rng.gen_range(0..6usize);
    let closes = s.rng.gen_range(0..2usize);
    let inbound = s.rng.gen_range(0..4u32);
    for i in 0..inbound {
        raw.send_frame(&body(1, 1, i, 50)).await;
        let r = timeout(Duration::from_secs(1), c.recv_message_raw()).await;
        s.check(r.as_ref().is_ok_and(|r| r.as_ref().is_ok_and(|b| parse(b) == Some((1, 1, i)))), "frames altered", || format!("message {i}"));
    }
    if kind >= 4 {
        link.a2b.stall(true); // nobody reads; sends and soft closes get stuck
    }
    let waits = Arc::new(Mutex::new(vec![]));
    let mut tasks = vec![];
    for k in 0..recvs + sends + closes {
        let (c, waits) = (c.clone(), waits.clone());
        tasks.push(tokio::spawn(async move {
            let (what, r) = if k < recvs {
                ("receive", c.recv_message_raw().await.is_err())
            } else if k < recvs + sends {
                ("send", c.send_message_raw(Bytes::from_unchecked(vec![7; 9000])).await.is_err())
            } else {
                ("soft close", c.soft_close().await.is_err())
            };
            waits.lock().push((what, r, Instant::now()));
        }));
    }
    sleep(Duration::from_micros(s.rng.gen_range(0..30_000))).await;
    let t0 = Instant::now();
    let mut recv_must_end = true;
    match kind {
        0 => link.reset(),
        1 => raw.hang_up(),
        2 => c.close(),
        3 => {
            // The other end only stops sending: receiving ends, sending goes on.
            raw.close_write();
        }
        4 => recv_must_end = false, // a reader that never reads: writing gives up
        _ => link.reset(),
    }
    // Keep trying to send: it must fail at some point unless the other end still reads.
    let mut send_failed = None;
    for _ in 0..150 {
        match timeout(Duration::from_millis(100), c.send_message_raw(Bytes::from_unchecked(vec![8; 300]))).await {
            Ok(Err(_)) => {
                send_failed = Some(t0.elapsed());
                break;
            }
            Ok(Ok(())) => sleep(Duration::from_millis(100)).await,
            Err(_) => {}
        }
    }
    s.check((kind == 3) == send_failed.is_none(), "sending on a dead connection does not fail", || format!("kind {kind}: sends fail: {send_failed:?}"));
    let late = timeout(Duration::from_secs(2), async {
        for t in &mut tasks[recvs..] {
            let _ = t.await;
        }
        if recv_must_end {
            for t in &mut tasks[..recvs] {
                let _ = t.await;
            }
        }
    })
    .await;
    s.check(late.is_ok(), "a pending operation hangs", || format!("kind {kind}: finished: {:?} of {recvs} receives, {sends} sends, {closes} soft closes", waits.lock()));
    let w = waits.lock().clone();
    for (what, failed, _) in &w {
        s.check(*what != "receive" || *failed, "a receive succeeds with nothing sent", || format!("kind {kind}"));
        s.ev("pending_operations", 1);
        s.state((kind, *what, *failed, queue));
    }
    if recv_must_end {
        let r = timeout(Duration::from_secs(1), c.recv_message_raw()).await;
        s.check(matches!(r, Ok(Err(_))), "a receive on an ended stream does not fail", || format!("kind {kind}"));
    }
    if kind != 3 {
        let r = timeout(Duration::from_secs(1), c.soft_close()).await;
        s.check(matches!(r, Ok(Err(_))), "a soft close on a dead connection does not fail", || format!("kind {kind}: {r:?}"));
    }
    s.ev("endings", 1);
}

// --- The transports ---

async fn tcp(s: &mut Scn) {
    transport::<Tcp>(s, "tcp").await
}
async fn tls(s: &mut Scn) {
    transport::<TcpTls>(s, "tls").await
}
async fn quic(s: &mut Scn) {
    transport::<Quic>(s, "quic").await
}
async fn memory(s: &mut Scn) {
    transport::<Memory>(s, "memory").await
}

/// Everything arrived so far is checked by the receiver itself: the n-th message must be the n-th one of that connection.
async fn expect(c: &Connection, conn: u32, dir: u8, n: u32, slow_us: u64) -> Result<(), String> {
    for i in 0..n {
        if slow_us > 0 && i % 3 == 0 {
            sleep(Duration::from_micros(slow_us)).await;
        }
        let b = timeout(Duration::from_secs(20), c.recv_message_raw())
            .await
            .map_err(|_| format!("message {i} of {n} does not arrive"))?
            .map_err(|e| format!("message {i} of {n}: {e}"))?;
        let got = parse(&b);
        if got != Some((conn, dir, i)) {
            return Err(format!("message {i} of {n} of connection {conn} direction {dir}: got {got:?} ({} bytes)", b.len()));
        }
    }
    Ok(())
}

/// Operations of an end whose other end went away fail in bounded time.
async fn dead(c: &Connection) -> Result<(), String> {
    let t0 = std::time::Instant::now();
    // What was under way before may still arrive.
    loop {
        match timeout(Duration::from_secs(20), c.recv_message_raw()).await {
            Err(_) => return Err("a pending receive hangs".into()),
            Ok(Err(_)) => break,
            Ok(Ok(_)) => {}
        }
    }
    loop {
        match timeout(Duration::from_secs(12), c.send_message_raw(Bytes::from_unchecked(vec![9; 100]))).await {
            Err(_) => return Err("a send hangs".into()),
            Ok(Err(_)) => return Ok(()),
            Ok(Ok(())) => sleep(Duration::from_millis(20)).await,
        }
        if t0.elapsed() > Duration::from_secs(40) {
            return Err("sends never fail".into());
        }
    }
}

async fn transport<P: Protocol>(s: &mut Scn, name: &'static str) {
    let addr = free_addr();
    let (cert, key) = match generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY) {
        Ok(x) => x,
        Err(e) => return s.fail("no certificate", format!("{e}")),
    };
    let listener = match P::bind(&addr, cert, key).await {
        Ok(l) => l,
        Err(e) => return s.inconclusive(format!("bind {addr}: {e}")),
    };
    let n = s.rng.gen_range(1..=6u32);
    let big = if s.thorough { 4_000_000 } else { 400_000 };
    // The plan of each connection.
    #[derive(Clone)]
    struct Plan {
        up: Vec<usize>,
        down: Vec<usize>,
        ending: u32,
        slow: u64,
        pause_ms: u64,
        bound: Option<usize>,
        pool: Option<usize>,
    }
    let plans: Vec<Plan> = (0..n)
        .map(|_| {
            let r = &mut s.rng;
            let k = r.gen_range(1..30);
            let up = (0..k).map(|_| size(r, big)).collect();
            // (A TLS server writes once by itself after the handshake; a client that is gone by then resets the stream,
            // whatever the server has not read yet. Having received something, the client is past that.)
            let k = r.gen_range(u32::from(name == "tls")..30);
            let down = (0..k).map(|_| size(r, big)).collect();
            Plan {
                up,
                down,
                ending: r.gen_range(0..5),
                slow: *[0, 0, 300, 3000].choose(r).expect("some"),
                pause_ms: r.gen_range(0..3),
                bound: *[None, None, Some(1), Some(4)].choose(r).expect("some"),
                pool: *[None, Some(8 << 20)].choose(r).expect("some"),
            }
        })
        .collect();
    let (tx, mut verdicts) = tokio::sync::mpsc::unbounded_channel::<(u32, &'static str, Result<(), String>)>();
    // The accepting side, as the components use it: finalize in a task of its own.
    let plans2 = plans.clone();
    let tx2 = tx.clone();
    let server = tokio::spawn(async move {
        loop {
            let Ok(u) = listener.accept().await else { return };
            let (plans, tx) = (plans2.clone(), tx2.clone());
            tokio::spawn(async move {
                // (the bounds are symmetric enough for this purpose)
                let bound = plans[0].bound;
                let Ok(c) = u.finalize(Limiter::new(plans[0].pool, bound)).await else { return };
                // The first message tells which one this is.
                let Ok(Ok(first)) = timeout(Duration::from_secs(20), c.recv_message_raw()).await else { return };
                let Some((id, 0, 0)) = parse(&first) else {
                    let _ = tx.send((u32::MAX, "server", Err(format!("first message unrecognisable ({} bytes)", first.len()))));
                    return;
                };
                let Some(p) = plans.get(id as usize).cloned() else { return };
                let writer = {
                    let (c, down) = (c.clone(), p.down.clone());
                    tokio::spawn(async move {
                        for (i, n) in down.iter().enumerate() {
                            let _ = c.send_message_raw(Bytes::from_unchecked(body(id, 1, i as u32, *n))).await;
                        }
                    })
                };
                // (the first is taken)
                let rest = async {
                    for i in 1..p.up.len() as u32 {
                        if p.slow > 0 && i % 3 == 0 {
                            sleep(Duration::from_micros(p.slow)).await;
                        }
                        let b = match timeout(Duration::from_secs(20), c.recv_message_raw()).await {
                            Err(_) => return Err(format!("message {i} of {} does not arrive", p.up.len())),
                            Ok(Err(e)) if p.ending == 1 => {
                                // The client may go away at any point: a prefix is fine.
                                let _ = e;
                                return Ok(());
                            }
                            Ok(Err(e)) => return Err(format!("message {i} of {}: {e}", p.up.len())),
                            Ok(Ok(b)) => b,
                        };
                        let got = parse(&b);
                        if got != Some((id, 0, i)) {
                            return Err(format!("message {i} of connection {id}: got {got:?} ({} bytes)", b.len()));
                        }
                    }
                    Ok(())
                }
                .await;
                let _ = writer.await;
                let bad = rest.is_err();
                let _ = tx.send((id, "server", rest));
                if bad {
                    return;
                }
                match p.ending {
                    2 => {
                        // We go away first, having handed everything over.
                        let _ = timeout(Duration::from_secs(10), c.soft_close()).await;
                        sleep(Duration::from_millis(5)).await;
                        drop(c);
                        let _ = tx.send((id, "server-end", Ok(())));
                    }
                    _ => {
                        let r = dead(&c).await;
                        let _ = tx.send((id, "server-end", r));
                    }
                }
            });
        }
    });
    // Connections that never say anything must not keep others out.
    let mut silent = vec![];
    if name == "tcp" || name == "tls" {
        for _ in 0..s.rng.gen_range(0..3) {
            if let Ok(c) = tokio::net::TcpStream::connect(&addr).await {
                silent.push(c);
            }
        }
    } else if name == "quic" {
        for _ in 0..s.rng.gen_range(0..3) {
            if let Ok(u) = tokio::net::UdpSocket::bind("127.0.0.1:0").await {
                let junk: Vec<u8> = (0..1300).map(|_| s.rng.gen()).collect();
                let _ = u.send_to(&junk, &addr).await;
            }
        }
    }
    s.ev("silent_connections", silent.len() as u64);
    let mut clients = vec![];
    for id in 0..n {
        let (p, addr, tx) = (plans[id as usize].clone(), addr.clone(), tx.clone());
        clients.push(tokio::spawn(async move {
            sleep(Duration::from_millis(p.pause_ms)).await;
            let t0 = std::time::Instant::now();
            let c = match P::connect(&addr, true, Limiter::new(p.pool, p.bound)).await {
                Ok(c) => c,
                Err(e) => {
                    let _ = tx.send((id, "connect", Err(format!("after {:?}: {e}", t0.elapsed()))));
                    return;
                }
            };
            let writer = {
                // Handles are interchangeable, and dropping one of them ends nothing.
                let (c, up, abrupt) = (c.clone(), p.up.clone(), p.ending == 1);
                tokio::spawn(async move {
                    for (i, n) in up.iter().enumerate() {
                        if c.send_message_raw(Bytes::from_unchecked(body(id, 0, i as u32, *n))).await.is_err() {
                            break;
                        }
                    }
                    abrupt
                })
            };
            let r = if p.ending == 1 { Ok(()) } else { expect(&c, id, 1, p.down.len() as u32, p.slow).await };
            let _ = writer.await;
            let bad = r.is_err();
            let _ = tx.send((id, "client", r));
            if bad {
                return;
            }
            match p.ending {
                0 | 4 => {
                    // Everything sent before must come out, then the other end sees the end.
                    let r = match timeout(Duration::from_secs(12), c.soft_close()).await {
                        Err(_) => Err("a soft close hangs".to_string()),
                        Ok(Err(e)) => Err(format!("a soft close failed: {e}")),
                        Ok(Ok(())) => Ok(()),
                    };
                    drop(c);
                    let _ = tx.send((id, "client-end", r));
                }
                1 => {
                    drop(c);
                    let _ = tx.send((id, "client-end", Ok(())));
                }
                2 => {
                    let r = dead(&c).await;
                    let _ = tx.send((id, "client-end", r));
                }
                _ => {
                    // A pending receive on the end that is closed.
                    let c2 = c.clone();
                    let pending = tokio::spawn(async move {
                        // (the other end may be sending)
                        while c2.recv_message_raw().await.is_ok() {}
                        true
                    });
                    let r = match timeout(Duration::from_secs(12), c.soft_close()).await {
                        Ok(Ok(())) => Ok(()),
                        _ => Err("a soft close failed or hangs".to_string()),
                    };
                    c.close();
                    let p = timeout(Duration::from_secs(5), pending).await;
                    let later = timeout(Duration::from_secs(5), c.send_message_raw(Bytes::from_unchecked(vec![1]))).await;
                    let r = r.and(match (p, later) {
                        (Ok(Ok(true)), Ok(Err(_))) => Ok(()),
                        x => Err(format!("after closing: pending receive {:?}, later send {:?}", x.0.is_ok(), x.1.is_ok())),
                    });
                    let _ = tx.send((id, "client-end", r));
                }
            }
        }));
    }
    drop(tx);
    // Each connection owes four verdicts; the one whose client goes away abruptly may never have been recognised.
    let owed: usize = plans.iter().map(|p| if p.ending == 1 { 2 } else { 4 }).sum();
    let mut seen = 0;
    let t0 = std::time::Instant::now();
    while seen < owed {
        let Ok(Some((id, what, r))) = timeout(Duration::from_secs(60), verdicts.recv()).await else { break };
        let Some(p) = plans.get(id as usize) else {
            s.fail("connections mixed", format!("{name}: {r:?}"));
            continue;
        };
        s.log(format!("{id} {what} {r:?}"));
        if p.ending != 1 || what.starts_with("client") || what == "connect" {
            seen += 1;
        }
        if what == "connect" {
            if let Err(e) = r {
                let slow = e.contains("timed out");
                if slow {
                    s.inconclusive(format!("{name}: {e}"));
                } else {
                    s.fail("cannot connect", format!("{name}: {e}"));
                }
            }
            break;
        }
        let sig = if what.ends_with("end") { "an ended connection does not end" } else { "messages lost, altered or mixed" };
        s.check(r.is_ok(), sig, || format!("{name}: connection {id}, {what}, ending {}, {} up, {} down: {:?}", p.ending, p.up.len(), p.down.len(), r));
        if r.is_err() {
            break;
        }
        s.ev("connections_judged", 1);
        s.state((name, what, p.ending, p.slow, p.bound, n));
    }
    if seen < owed && !s.failed() && s.inconclusive.is_empty() {
        s.fail("connections hang", format!("{name}: {seen} of {owed} verdicts after {:?}", t0.elapsed()));
    }
    for p in &plans {
        s.ev("messages", (p.up.len() + p.down.len()) as u64);
        s.ev(&format!("connections_{name}"), 1);
    }
    for c in clients {
        c.abort();
    }
    server.abort();
    let _ = server.await;
    drop(silent);
    if s.failed() {
        return;
    }
    // Nobody listens any more: connecting is refused in bounded time, and the address can be used again.
    let r = timeout(Duration::from_secs(12), P::connect(&addr, true, Limiter::none())).await;
    let refused = matches!(&r, Ok(Err(_)));
    s.check(refused, "connecting to nobody", || format!("{name}: {}", if r.is_ok() { "succeeded" } else { "hangs" }));
}

/// Connections on which nothing is said for a long while (of tokio's time, which is made to pass quickly) are still there.
async fn idle(s: &mut Scn) {
    match s.rng.gen_range(0..7) {
        0 => idle_on::<Memory>(s, "memory").await,
        1 => idle_on::<Tcp>(s, "tcp").await,
        2 | 3 => idle_on::<TcpTls>(s, "tls").await,
        _ => idle_on::<Quic>(s, "quic").await,
    }
}
async fn idle_on<P: Protocol>(s: &mut Scn, name: &'static str) {
    let addr = free_addr();
    let (cert, key) = match generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY) {
        Ok(x) => x,
        Err(e) => return s.fail("no certificate", format!("{e}")),
    };
    let listener = match P::bind(&addr, cert, key).await {
        Ok(l) => l,
        Err(e) => return s.inconclusive(format!("bind {addr}: {e}")),
    };
    let accept = tokio::spawn(async move {
        let u = listener.accept().await.map_err(|e| e.to_string())?;
        let c = u.finalize(Limiter::new(None, None)).await.map_err(|e| e.to_string())?;
        Ok::<_, String>((listener, c))
    });
    let client = P::connect(&addr, true, Limiter::new(None, Some(1))).await;
    let (Ok(a), Ok(Ok(Ok((_listener, b))))) = (client, timeout(Duration::from_secs(10), accept).await) else {
        return s.fail("cannot connect", name.to_string());
    };
    let rounds = s.rng.gen_range(1..4);
    for round in 0..rounds {
        for (dir, from, to) in [(0u8, &a, &b), (1, &b, &a)] {
            if round > 0 && s.rng.gen_bool(0.3) {
                continue;
            }
            let m = body(7, dir, round, s.rng.gen_range(12..3000));
            let sent = from.send_message_raw(Bytes::from_unchecked(m.clone())).await;
            let got = timeout(Duration::from_secs(10), to.recv_message_raw()).await;
            s.check(sent.is_ok() && matches!(&got, Ok(Ok(x)) if x[..] == m[..]), "an idle connection is gone", || {
                format!("{name}: after idle period {round}, direction {dir}: {sent:?}, {:?}", got.map(|r| r.map(|x| x.len())))
            });
        }
        if s.failed() {
            return;
        }
        let quiet = s.rng.gen_range(5..400u64);
        tokio::time::pause();
        for _ in 0..quiet * 10 {
            sleep(Duration::from_millis(100)).await;
        }
        tokio::time::resume();
        s.ev(&format!("idle_seconds_{name}"), quiet);
        s.state((name, round, quiet / 40));
    }
    for (dir, from, to) in [(0u8, &a, &b), (1, &b, &a)] {
        let m = body(7, dir, 99, 500);
        let sent = from.send_message_raw(Bytes::from_unchecked(m.clone())).await;
        let got = timeout(Duration::from_secs(10), to.recv_message_raw()).await;
        s.check(sent.is_ok() && matches!(&got, Ok(Ok(x)) if x[..] == m[..]), "an idle connection is gone", || {
            format!("{name}: at the end, direction {dir}: {sent:?}, {:?}", got.map(|r| r.map(|x| x.len())))
        });
    }
}

async fn tcp_hostile(s: &mut Scn) {
    let addr = free_addr();
    let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).expect("local certificate");
    let Ok(l) = Tcp::bind(&addr, cert, key).await else { return s.inconclusive("bind") };
    let Ok(mut raw) = tokio::net::TcpStream::connect(&addr).await else { return s.inconclusive("connect") };
    let Ok(u) = l.accept().await else { return s.fail("cannot accept", "a plain TCP connection") };
    let Ok(c) = u.finalize(Limiter::none()).await else { return s.fail("cannot finalize", "a plain TCP connection") };
    let good: Vec<Vec<u8>> = (0..s.rng.gen_range(0..5)).map(|i| body(3, 0, i, s.rng.gen_range(0..30_000))).collect();
    let mut bytes = vec![];
    for b in &good {
        bytes.extend((b.len() as u32).to_be_bytes());
        bytes.extend(b);
    }
    let kind = s.rng.gen_range(0..3);
    match kind {
        0 => bytes.extend((MAX_MESSAGE_SIZE + 1 + s.rng.gen_range(0..1000)).to_be_bytes()),
        1 => bytes.extend([0, 0, 1, 0, 1, 2, 3]),
        _ => bytes.extend(&[0, 0, 0, 9][..s.rng.gen_range(0..4)]),
    }
    let mut at = 0;
    while at < bytes.len() {
        let n = s.rng.gen_range(1..5000).min(bytes.len() - at);
        if raw.write_all(&bytes[at..at + n]).await.is_err() {
            break;
        }
        if s.rng.gen_bool(0.3) {
            let _ = raw.flush().await;
            sleep(Duration::from_micros(200)).await;
        }
        at += n;
    }
    if kind != 0 {
        let _ = raw.shutdown().await;
    }
    for (i, b) in good.iter().enumerate() {
        let r = timeout(Duration::from_secs(10), c.recv_message_raw()).await;
        let ok = matches!(&r, Ok(Ok(x)) if x.to_vec() == *b);
        s.check(ok, "frames altered", || format!("message {i} over TCP"));
    }
    let t0 = std::time::Instant::now();
    let r = timeout(Duration::from_secs(15), c.recv_message_raw()).await;
    s.check(matches!(r, Ok(Err(_))), "a bad frame is no error", || format!("kind {kind}: after {:?}: {}", t0.elapsed(), if r.is_ok() { "a message" } else { "nothing" }));
    drop(c);
    // The other side learns of it.
    let mut rest = vec![];
    let r = timeout(Duration::from_secs(10), raw.read_to_end(&mut rest)).await;
    s.check(r.is_ok(), "an ended connection does not end", || "the raw side sees no end".into());
    s.ev("hostile_tcp", 1);
    s.state(("hostile", kind, good.len()));
}

/// The encrypted transports talk only to whom the chosen authority vouches for.
async fn certificates(s: &mut Scn) {
    let other = (include_str!("../../assets/ca.pem"), include_str!("../../assets/ca.key"));
    for (name, local, signed_by_local) in [("tls", true, false), ("tls", false, true), ("quic", true, false), ("quic", false, true), ("tls", true, true), ("quic", true, true)] {
        let addr = free_addr();
        let (ca, ca_key) = if signed_by_local { (LOCAL_CA_CERT, LOCAL_CA_KEY) } else { other };
        let (cert, key) = match generate_cert_from_ca(ca, ca_key) {
            Ok(x) => x,
            Err(e) => return s.fail("no certificate", format!("{e}")),
        };
        async fn go<P: Protocol>(addr: &str, cert: rustls::pki_types::CertificateDer<'static>, key: rustls::pki_types::PrivateKeyDer<'static>, local: bool) -> Result<bool, String> {
            let l = P::bind(addr, cert, key).await.map_err(|e| e.to_string())?;
            let t = tokio::spawn(async move {
                let mut keep = vec![];
                while let Ok(u) = l.accept().await {
                    keep.push(tokio::spawn(async move {
                        let c = u.finalize(Limiter::none()).await;
                        sleep(Duration::from_secs(30)).await;
                        drop(c);
                    }));
                }
            });
            let r = timeout(Duration::from_secs(15), P::connect(addr, local, Limiter::none())).await;
            t.abort();
            r.map(|r| r.is_ok()).map_err(|_| "connecting hangs".to_string())
        }
        let r = if name == "tls" { go::<TcpTls>(&addr, cert, key, local).await } else { go::<Quic>(&addr, cert, key, local).await };
        let good = local && signed_by_local;
        match r {
            Ok(ok) => {
                s.check(ok == good, "certificate", || format!("{name}: trusting the {} authority, a server with a certificate of {}: connected: {ok}", if local { "local" } else { "production" }, if signed_by_local { "the local one" } else { "another" }));
                s.ev("certificates", 1);
            }
            Err(e) => s.inconclusive(format!("{name}: {e}")),
        }
        s.state((name, local, signed_by_local));
    }
}
