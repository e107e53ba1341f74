//! P18 / P19: a real client against a scripted marshal and broker.
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

use cdn_client::{Client, Config};
use cdn_proto::message::{Direct, Message};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use tokio::time::{sleep, timeout, Instant};

use super::util::{faults, topic_list, valid};
use crate::group;
use crate::net::Net;
use crate::run::{Group, Rt, Scn};
use crate::sig::keypair;
use crate::station::{Station, B, BAD_B, BAD_M, M};
use crate::world::{secs, UserSide, INVALID, VALID};

pub fn p18() -> Vec<Group> {
    vec![
        group!("client-outages", outages, Rt::Virtual, 1500, 40_000),
        group!("client-late-errors", late_errors, Rt::Virtual, 300, 5000),
        group!("client-initialized", initialized, Rt::Multi(4), 24, 600),
        group!("client-busy-tasks", busy_tasks, Rt::Virtual, 300, 8000),
    ]
}
pub fn p19() -> Vec<Group> {
    let mut v = vec![
        group!("client-close", close, Rt::Virtual, 1500, 40_000),
        group!("client-idempotent", idempotent, Rt::Virtual, 500, 10_000),
        group!("client-close-threads", close_threads, Rt::Multi(4), 60, 2000),
        group!("client-close-busy", close_busy, Rt::Virtual, 300, 8000),
    ];
    v[2].par = 4;
    v
}

fn client(st: &Station, topics: Vec<u8>) -> Client<UserSide> {
    Client::new(Config {
        endpoint: st.marshal_ep.clone(),
        use_local_authority: true,
        keypair: keypair(1),
        subscribed_topics: topics,
    })
}

fn direct(n: u64) -> Message {
    Message::Direct(Direct { recipient: vec![1], message: n.to_le_bytes().to_vec() })
}

/// Keeps receiving, as an application would.
fn receiver(c: &Client<UserSide>) -> (Arc<Mutex<Vec<u64>>>, tokio::task::JoinHandle<()>) {
    let got = Arc::new(Mutex::new(vec![]));
    let (c, g) = (c.clone(), got.clone());
    let t = tokio::spawn(async move {
        loop {
            match c.receive_message().await {
                Ok(Message::Direct(d)) => g.lock().push(d.message.try_into().map_or(0, u64::from_le_bytes)),
                Ok(_) => {}
                Err(_) => sleep(Duration::from_millis(50)).await,
            }
        }
    });
    (got, t)
}

/// Two seconds between attempts (less the harness's own rounding).
const GAP: f64 = 1.9;
/// An attempt under way may take its 10 s, the pause 2 s, the next attempt some round trips.
const BOUND: f64 = 14.0;

async fn outages(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let net = Net::new(s.seed, f);
    let st = Station::new(&net);
    let init = if s.rng.gen_bool(0.3) { vec![] } else { topic_list(&mut s.rng, &VALID, false) };
    // A client may also start during an outage.
    if s.rng.gen_bool(0.4) {
        let k = s.rng.gen_range(1..=3);
        for _ in 0..k {
            st.log.lock().plan_m.push_back(*BAD_M.choose(&mut s.rng).expect("some"));
        }
    }
    let c = client(&st, init.clone());
    let (got, recv) = receiver(&c);
    // An application that keeps changing its subscriptions and sending; what succeeded is what counts.
    let model = Arc::new(Mutex::new(init.iter().copied().collect::<BTreeSet<u8>>()));
    let stop = Arc::new(AtomicBool::new(false));
    let ok_ops = Arc::new(Mutex::new((0u64, 0u64, Vec::<String>::new())));
    let app = {
        let (c, model, stop, ops, seed) = (c.clone(), model.clone(), stop.clone(), ok_ops.clone(), s.rng.gen());
        tokio::spawn(async move {
            let mut r = StdRng::seed_from_u64(seed);
            let mut n = 0u64;
            while !stop.load(Ordering::SeqCst) {
                sleep(Duration::from_millis(r.gen_range(0..1500))).await;
                let ts: Vec<u8> = valid(&topic_list(&mut r, &VALID[..5], true)).into_iter().collect();
                let start = Instant::now();
                let res = match r.gen_range(0..10) {
                    0..=3 => {
                        // Never what is subscribed already as a whole: that is P19's matter.
                        if ts.iter().all(|t| model.lock().contains(t)) {
                            continue;
                        }
                        let x = c.subscribe(ts.clone()).await;
                        if x.is_ok() {
                            model.lock().extend(ts);
                        }
                        x
                    }
                    4..=7 => {
                        if ts.iter().all(|t| !model.lock().contains(t)) {
                            continue;
                        }
                        let x = c.unsubscribe(ts.clone()).await;
                        if x.is_ok() {
                            let mut m = model.lock();
                            for t in ts {
                                m.remove(&t);
                            }
                        }
                        x
                    }
                    8 => {
                        n += 1;
                        c.send_message(direct(n)).await
                    }
                    _ => timeout(Duration::from_secs(30), c.ensure_initialized()).await.unwrap_or(Ok(())),
                };
                let mut o = ops.lock();
                if res.is_ok() {
                    o.0 += 1;
                } else {
                    o.1 += 1;
                }
                if start.elapsed() > Duration::from_secs(40) {
                    o.2.push(format!("a call took {:?}", start.elapsed()));
                }
            }
        })
    };
    let episodes = s.rng.gen_range(1..=4);
    for e in 0..episodes {
        let d = s.rng.gen_range(0.0..12.0);
        secs(d).await;
        // Trouble.
        let kind = s.rng.gen_range(0..7);
        let how_long = s.rng.gen_range(0.0..25.0);
        let refuse = match kind {
            0 => vec![st.marshal_ep.clone()],
            1 => vec![st.broker_ep.clone()],
            2 => vec![st.marshal_ep.clone(), st.broker_ep.clone()],
            _ => vec![],
        };
        {
            let mut l = st.log.lock();
            match kind {
                3 => l.default_m = BAD_M.choose(&mut s.rng).copied(),
                4 => l.default_b = BAD_B.choose(&mut s.rng).copied(),
                5 => {
                    for _ in 0..s.rng.gen_range(1..4) {
                        l.plan_m.push_back(*[M::Good, *BAD_M.choose(&mut s.rng).expect("some")].choose(&mut s.rng).expect("some"));
                        l.plan_b.push_back(*BAD_B.choose(&mut s.rng).expect("some"));
                    }
                }
                _ => {}
            }
        }
        if s.rng.gen() {
            *net.refuse.lock() = refuse;
        } else {
            *net.hang.lock() = refuse;
        }
        // The session breaks, in some way, at some point.
        if let Some(i) = st.open_sessions().pop() {
            let link = st.log.lock().sessions[i].link.clone();
            let how = s.rng.gen_range(0..5);
            match how {
                0 => link.reset(),
                1 => link.eof(),
                2 => link.b2a.cut(s.rng.gen()),
                3 => {
                    link.a2b.cut_after(s.rng.gen_range(0..50), true);
                    let d = s.rng.gen_range(0.0..2.0);
                    secs(d).await;
                    link.reset();
                }
                _ => {
                    // Also while the client is connecting again.
                    link.reset();
                    let d = s.rng.gen_range(0.0..0.05);
                    secs(d).await;
                    for l in net.open_links() {
                        l.reset();
                    }
                }
            }
            s.state((kind, how));
            s.ev("sessions_broken", 1);
        }
        s.log(format!("episode {e}: trouble {kind} for {how_long:.1} s"));
        secs(how_long).await;
        net.refuse.lock().clear();
        net.hang.lock().clear();
        {
            let mut l = st.log.lock();
            l.default_m = None;
            l.default_b = None;
            l.plan_m.clear();
            l.plan_b.clear();
        }
        let well = Instant::now();
        if e + 1 == episodes {
            stop.store(true, Ordering::SeqCst);
        }
        let mut up = None;
        while well.elapsed().as_secs_f64() < BOUND {
            sleep(Duration::from_millis(100)).await;
            if !st.open_sessions().is_empty() {
                up = Some(well.elapsed());
                break;
            }
        }
        s.check(up.is_some(), "not reconnected in time", || {
            format!("episode {e}: trouble {kind} ended {BOUND} s ago; attempts since: {}",
                net.attempts.lock().iter().filter(|a| a.0 >= well).count())
        });
        if s.failed() {
            return;
        }
        s.ev("reconnections", 1);
    }
    if timeout(Duration::from_secs(60), app).await.is_err() {
        return s.fail("call hangs", "an application call did not return within a minute of good weather".to_string());
    }
    for slow in &ok_ops.lock().2 {
        s.fail("call hangs", slow.clone());
    }
    secs(4.0).await;
    let open = st.open_sessions();
    s.check(open.len() == 1, "not exactly one session", || format!("open sessions: {open:?} of {}", st.n_sessions()));
    let n0 = st.n_attempts();
    if let Some(&i) = open.last() {
        let want = model.lock().clone();
        let have = st.log.lock().sessions[i].subs.clone();
        s.check(have == want, "subscriptions lost or made up", || {
            format!("the broker has {have:?}, the successful calls add up to {want:?}")
        });
        // It works, both ways.
        st.log.lock().sessions[i].push(direct(777));
        let sent = c.send_message(direct(778)).await;
        secs(1.0).await;
        s.check(got.lock().contains(&777), "does not receive on its new connection", String::new);
        let arrived = st.log.lock().sessions[i].msgs.iter().any(|m| m.1 == 778u64.to_le_bytes());
        s.check(sent.is_ok() && arrived, "does not send on its new connection", || format!("{sent:?}"));
    }
    secs(10.0).await;
    s.check(st.n_attempts() == n0, "connects though connected", || {
        format!("{} attempts in 11 s on a healthy connection", st.n_attempts() - n0)
    });
    // Pace: between two attempts at the marshal there is a pause, or a session in between.
    let attempts: Vec<Instant> =
        net.attempts.lock().iter().filter(|a| a.1 == st.marshal_ep).map(|a| a.0).collect();
    let opened: Vec<Instant> = st.log.lock().sessions.iter().map(|x| x.opened).collect();
    let almost: Vec<Instant> =
        st.log.lock().broker.iter().filter(|b| matches!(b.1, B::CloseAfterAnswer | B::Good)).map(|b| b.0).collect();
    for p in attempts.windows(2) {
        let connected = opened.iter().chain(&almost).any(|o| *o >= p[0] && *o <= p[1]);
        s.check(connected || (p[1] - p[0]).as_secs_f64() >= GAP, "attempts in a tight loop", || {
            format!("two attempts {:?} apart with no session in between", p[1] - p[0])
        });
    }
    s.ev("attempts", attempts.len() as u64);
    let o = ok_ops.lock();
    s.ev("calls_ok", o.0);
    s.ev("calls_failed", o.1);
    s.ev("sessions", opened.len() as u64);
    recv.abort();
    c.close().await;
}

/// A connection fails in one direction; the client makes a new one; then the old one's other direction fails as well.
/// That must not cost the new one.
async fn late_errors(s: &mut Scn) {
    let mut f = faults(&mut s.rng);
    f.capacity = s.rng.gen_range(100..2000);
    f.latency_us = (0, 1000);
    let net = Net::new(s.seed, f);
    let st = Station::new(&net);
    let c = client(&st, vec![1]);
    let (got, recv) = receiver(&c);
    if timeout(Duration::from_secs(20), c.ensure_initialized()).await.is_err() {
        return s.fail("client not connected", "no trouble at all".to_string());
    }
    secs(0.5).await;
    let Some(&first) = st.open_sessions().last() else {
        return s.inconclusive("no session");
    };
    let link = st.log.lock().sessions[first].link.clone();
    link.a2b.stall(true);
    // Sending fails after a while (the receiver is still waiting on the old connection).
    let mut failed = false;
    for _ in 0..40 {
        let r = timeout(Duration::from_secs(8), c.send_message(Message::Direct(Direct { recipient: vec![], message: vec![0; 1500] }))).await;
        if matches!(r, Ok(Err(_))) {
            failed = true;
            break;
        }
        secs(0.3).await;
    }
    if !failed {
        return s.inconclusive("sending did not fail");
    }
    let start = Instant::now();
    while st.n_sessions() < 2 && start.elapsed() < Duration::from_secs(20) {
        let _ = c.ensure_initialized().await;
        secs(0.2).await;
    }
    if st.n_sessions() < 2 {
        return s.fail("not reconnected in time", "after a failed send".to_string());
    }
    let d = s.rng.gen_range(0.2..10.0);
    secs(d).await;
    // The application must be able to receive on the connection there is now.
    let second = st.n_sessions() - 1;
    st.log.lock().sessions[second].push(direct(555));
    secs(1.0).await;
    s.check(got.lock().contains(&555), "does not receive on its new connection", || {
        "a receive call that started on the old connection keeps waiting there".into()
    });
    match s.rng.gen_range(0..3) {
        0 => link.reset(),
        1 => link.eof(),
        _ => link.b2a.cut(true),
    }
    secs(3.0).await;
    let n = st.n_sessions();
    s.check(n == second + 1, "working connection given up", || {
        format!("{n} sessions: the old connection's end cost the client its new one")
    });
    s.ev("late_errors", 1);
    s.state((d as u64, n));
    recv.abort();
    c.close().await;
}

/// A call made from a task that is busy with other things as well, as with `select!` or `join!` beside a busy channel: every
/// now and then the runtime makes such a call stop where it would otherwise go on (tokio's cooperative budget).
struct Busy<F> {
    call: std::pin::Pin<Box<F>>,
    rng: StdRng,
    budget: Arc<tokio::sync::Semaphore>,
}
impl<F: std::future::Future> std::future::Future for Busy<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        let me = &mut *self;
        if me.rng.gen_bool(0.7) {
            for _ in 0..128 - me.rng.gen_range(0..6) {
                let mut x = std::pin::pin!(me.budget.acquire());
                if x.as_mut().poll(cx).is_pending() {
                    break;
                }
            }
        }
        me.call.as_mut().poll(cx)
    }
}

/// Connections that fail while several busy tasks of the application are in the middle of calls: whatever the order in which
/// they find out, the client connects again, and the calls return.
async fn busy_tasks(s: &mut Scn) {
    busy(s, false).await;
}
/// The client is closed in the middle of the same.
async fn close_busy(s: &mut Scn) {
    busy(s, true).await;
}
async fn busy(s: &mut Scn, closing: bool) {
    let mut f = faults(&mut s.rng);
    f.capacity = s.rng.gen_range(40..400);
    let net = Net::new(s.seed, f);
    let st = Station::new(&net);
    let c = client(&st, vec![1]);
    let budget = Arc::new(tokio::sync::Semaphore::new(1));
    let stop = Arc::new(AtomicBool::new(false));
    let calls = Arc::new(Mutex::new((0u64, 0u64)));
    let mut tasks = vec![];
    let n = s.rng.gen_range(2..5);
    for i in 0..n {
        let (c, mut r, stop, calls, budget) = (c.clone(), StdRng::seed_from_u64(s.rng.gen()), stop.clone(), calls.clone(), budget.clone());
        tasks.push(tokio::spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                let kind = if i == 0 { 0 } else { r.gen_range(1..4) };
                let seed = r.gen();
                let t = r.gen_range(0..3u8);
                let c = c.clone();
                let call = async move {
                    match kind {
                        0 => c.receive_message().await.map(|_| ()),
                        1 => c.subscribe(vec![t]).await,
                        2 => c.unsubscribe(vec![t]).await,
                        _ => c.send_message(Message::Direct(Direct { recipient: vec![], message: vec![0; 200] })).await,
                    }
                };
                let ok = Busy { call: Box::pin(call), rng: StdRng::seed_from_u64(seed), budget: budget.clone() }.await.is_ok();
                {
                    let mut n = calls.lock();
                    if ok {
                        n.0 += 1;
                    } else {
                        n.1 += 1;
                    }
                }
                match kind {
                    // Someone who receives asks again at once.
                    0 if r.gen_bool(0.8) => tokio::task::yield_now().await,
                    _ => sleep(Duration::from_millis(r.gen_range(0..40))).await,
                }
            }
        }));
    }
    for e in 0..s.rng.gen_range(2..7) {
        let start = Instant::now();
        while st.open_sessions().is_empty() && start.elapsed().as_secs_f64() < BOUND {
            sleep(Duration::from_millis(100)).await;
        }
        let Some(&i) = st.open_sessions().last() else {
            return s.fail("not reconnected in time", format!("episode {e}: no session {BOUND} s after the last one broke, no trouble at all"));
        };
        s.ev("reconnections", 1);
        let d = s.rng.gen_range(0.1..1.0);
        secs(d).await;
        let link = st.log.lock().sessions[i].link.clone();
        let stall = s.rng.gen_bool(0.8);
        if stall {
            // So that calls wait for it.
            link.a2b.stall(true);
            let d = s.rng.gen_range(0.0..2.0);
            secs(d).await;
        }
        match s.rng.gen_range(0..3) {
            0 => link.eof(),
            1 => link.a2b.cut(true),
            _ => link.reset(),
        }
        s.state((stall, e));
        s.ev("busy_breaks", 1);
        if closing && s.rng.gen_bool(0.4) {
            break;
        }
        secs(0.5).await;
    }
    if closing {
        let d = s.rng.gen_range(0.0..0.3);
        if s.rng.gen_bool(0.7) {
            secs(d).await;
        }
        let closer = Busy { call: Box::pin(c.close()), rng: StdRng::seed_from_u64(s.rng.gen()), budget: budget.clone() };
        s.check(timeout(Duration::from_secs(3), closer).await.is_ok(), "close hangs", || "in the middle of calls of busy tasks".into());
        stop.store(true, Ordering::SeqCst);
        let n0 = st.n_attempts();
        for (i, t) in tasks.into_iter().enumerate() {
            let r = timeout(Duration::from_secs(5), t).await;
            s.check(r.is_ok(), "waiting call not released by close", || format!("a {} call did not return", if i == 0 { "receiving" } else { "subscribing or sending" }));
        }
        secs(15.0).await;
        s.check(st.n_attempts() == n0, "connects after close", || format!("{} attempts", st.n_attempts() - n0));
        let kept: Vec<u64> = net.links().iter().filter(|l| !l.a2b.writer_gone() || !l.b2a.reader_gone()).map(|l| l.id).collect();
        s.check(kept.is_empty(), "a connection is kept after close", || format!("{kept:?}"));
        s.ev("busy_closes", 1);
        return;
    }
    stop.store(true, Ordering::SeqCst);
    let start = Instant::now();
    while st.open_sessions().is_empty() && start.elapsed().as_secs_f64() < BOUND {
        sleep(Duration::from_millis(100)).await;
    }
    s.check(!st.open_sessions().is_empty(), "not reconnected in time", || format!("no session {BOUND} s after the last one broke, no trouble at all"));
    // A receiver waits as long as nothing comes.
    for &i in &st.open_sessions() {
        st.log.lock().sessions[i].push(direct(1));
    }
    for (i, t) in tasks.into_iter().enumerate() {
        let r = timeout(Duration::from_secs(30), t).await;
        s.check(r.is_ok(), "call hangs", || format!("a {} call did not return", if i == 0 { "receiving" } else { "subscribing or sending" }));
    }
    let n = *calls.lock();
    s.ev("busy_calls_ok", n.0);
    s.ev("busy_calls_failed", n.1);
    c.close().await;
}

/// Close, at any point of anything.
async fn close(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let net = Net::new(s.seed, f);
    let st = Station::new(&net);
    let phase = s.rng.gen_range(0..8);
    {
        let mut l = st.log.lock();
        match phase {
            0 => {
                let m = BAD_M.choose(&mut s.rng).copied();
                l.default_m = m;
            }
            1 => {
                let b = BAD_B.choose(&mut s.rng).copied();
                l.default_b = b;
            }
            _ => {}
        }
    }
    if phase == 2 {
        net.hang.lock().push(if s.rng.gen() { st.marshal_ep.clone() } else { st.broker_ep.clone() });
    }
    if phase == 3 {
        net.refuse.lock().push(if s.rng.gen() { st.marshal_ep.clone() } else { st.broker_ep.clone() });
    }
    let c = client(&st, vec![1, 2]);
    let clones: Vec<Client<UserSide>> = (0..4).map(|_| c.clone()).collect();
    let first_call = s.rng.gen_bool(0.9);
    // Callers that will be waiting when it happens.
    let mut waiting = vec![];
    for (i, k) in clones.iter().enumerate() {
        let k = k.clone();
        let which = (i + s.rng.gen_range(0..3)) % 4;
        if !first_call {
            break;
        }
        waiting.push((
            which,
            tokio::spawn(async move {
                // Until it says that it is closed.
                loop {
                    let r = match which {
                        0 | 1 => k.receive_message().await.map(|_| ()),
                        2 => k.ensure_initialized().await,
                        _ => k.send_message(Message::Direct(Direct { recipient: vec![], message: vec![0; 5000] })).await,
                    };
                    if k.is_closed() {
                        return (Instant::now(), r.is_err());
                    }
                    sleep(Duration::from_millis(30)).await;
                }
            }),
        ));
    }
    let d = *[0.0, s.rng.gen_range(0.0..0.05), s.rng.gen_range(0.0..1.0), s.rng.gen_range(0.0..30.0)].choose(&mut s.rng).expect("some");
    if d > 0.0 {
        secs(d).await;
    }
    if phase == 4 {
        if let Some(l) = net.open_links().last() {
            l.reset();
        }
        if s.rng.gen() {
            let d = s.rng.gen_range(0.0..3.0);
            secs(d).await;
        }
    }
    if phase == 5 {
        for l in net.open_links() {
            l.a2b.stall(true);
        }
        let d = s.rng.gen_range(0.0..8.0);
        secs(d).await;
    }
    let connected = !st.open_sessions().is_empty();
    let closing = Instant::now();
    if timeout(Duration::from_secs(4), clones[s.rng.gen_range(0..4)].close()).await.is_err() {
        return s.fail("close hangs", format!("phase {phase}, after {d:.3} s"));
    }
    let n0 = st.n_attempts();
    let closed_at = Instant::now();
    s.state((phase, connected, (d * 10.0) as u64 / 5));
    s.ev("closes", 1);
    s.ev("closes_while_connected", u64::from(connected));
    s.check(closed_at - closing <= Duration::from_secs(3), "close takes long", || format!("{:?}", closed_at - closing));
    // Every call on every clone fails promptly.
    for (i, k) in clones.iter().chain([&c]).enumerate() {
        let mut res: Vec<(&str, Result<bool, ()>)> = vec![];
        let lim = Duration::from_millis(500);
        res.push(("send_message", timeout(lim, k.send_message(direct(1))).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("receive_message", timeout(lim, k.receive_message()).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("ensure_initialized", timeout(lim, k.ensure_initialized()).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("subscribe", timeout(lim, k.subscribe(vec![7])).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("subscribe again", timeout(lim, k.subscribe(vec![1])).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("unsubscribe", timeout(lim, k.unsubscribe(vec![1])).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("unsubscribe again", timeout(lim, k.unsubscribe(vec![42])).await.map(|r| r.is_err()).map_err(|_| ())));
        res.push(("soft_close", timeout(lim, k.soft_close()).await.map(|r| r.is_err()).map_err(|_| ())));
        for (what, r) in res {
            s.check(r == Ok(true), if r.is_err() { "call hangs after close" } else { "call succeeds after close" }, || {
                format!("{what} on clone {i}, phase {phase}")
            });
        }
    }
    // Those that were waiting are released.
    secs(0.5).await;
    for (which, t) in waiting {
        let what = ["receive_message", "receive_message", "ensure_initialized", "send_message"][which];
        match timeout(Duration::from_secs(3), t).await {
            Ok(Ok((_, is_err))) => {
                s.check(is_err, "waiting call succeeds after close", || format!("{what}, phase {phase}"));
            }
            _ => s.fail("waiting call not released by close", format!("{what}, phase {phase}, after {d:.3} s")),
        }
        s.ev("waiting_calls", 1);
    }
    // The weather clears: nothing happens.
    net.hang.lock().clear();
    net.refuse.lock().clear();
    {
        let mut l = st.log.lock();
        l.default_m = None;
        l.default_b = None;
    }
    secs(1.0).await;
    let open: Vec<u64> = net.open_links().iter().filter(|l| !l.a2b.stalled()).map(|l| l.id).collect();
    s.check(open.is_empty(), "connection kept after close", || format!("{} connections still open, phase {phase}", open.len()));
    secs(40.0).await;
    s.check(st.n_attempts() == n0, "connects after close", || {
        format!("{} attempts after close returned, phase {phase}", st.n_attempts() - n0)
    });
    s.check(c.is_closed() && clones.iter().all(|k| k.is_closed()), "closed client says it is not", String::new);
}

async fn idempotent(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let net = Net::new(s.seed, f);
    let st = Station::new(&net);
    let init: Vec<u8> = valid(&topic_list(&mut s.rng, &VALID, false)).into_iter().collect();
    let c = client(&st, init.clone());
    let (_got, recv) = receiver(&c);
    if timeout(Duration::from_secs(20), c.ensure_initialized()).await.is_err() {
        return s.fail("client not connected", "no trouble at all".to_string());
    }
    secs(0.5).await;
    let mut model: BTreeSet<u8> = init.into_iter().collect();
    let n0 = st.n_attempts();
    for i in 0..s.rng.gen_range(3..25) {
        let ts = match s.rng.gen_range(0..4) {
            0 => vec![],
            1 => model.iter().copied().collect(),
            2 => VALID.iter().copied().filter(|t| !model.contains(t)).collect(),
            _ => topic_list(&mut s.rng, &VALID, true),
        };
        let mut ts: Vec<u8> = ts.into_iter().filter(|t| VALID.contains(t)).collect();
        let on = s.rng.gen::<bool>();
        let noop = ts.iter().all(|t| model.contains(t) == on);
        if noop && !on && s.rng.gen_range(0..2) == 0 {
            // Not subscribed to either.
            ts.extend(topic_list(&mut s.rng, &INVALID, false));
        }
        let r = timeout(Duration::from_secs(10), if on {
            futures_either(c.subscribe(ts.clone()))
        } else {
            futures_either(c.unsubscribe(ts.clone()))
        })
        .await;
        s.check(matches!(r, Ok(Ok(()))), "repeated subscription call fails", || {
            format!("call {i}: {} {ts:?} with {model:?} subscribed: {r:?}", if on { "subscribe" } else { "unsubscribe" })
        });
        for t in &ts {
            if on {
                model.insert(*t);
            } else {
                model.remove(t);
            }
        }
        secs(0.3).await;
        let have = st.log.lock().sessions.last().map(|x| x.subs.clone());
        s.check(st.n_attempts() == n0 && st.open_sessions().len() == 1, "subscription call costs the connection", || {
            format!("call {i}: {} {ts:?} with {have:?} at the broker", if on { "subscribe" } else { "unsubscribe" })
        });
        s.check(have.as_ref() == Some(&model), "wrong subscriptions at the broker", || format!("{have:?}, should be {model:?}"));
        s.state((on, noop, ts.len(), model.len()));
        s.ev(if noop { "calls_without_effect" } else { "calls_with_effect" }, 1);
        if s.failed() {
            return;
        }
    }
    recv.abort();
    c.close().await;
}

fn futures_either<'a, T>(f: impl std::future::Future<Output = T> + Send + 'a) -> std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send + 'a>> {
    Box::pin(f)
}

/// Who was told that the client is connected can use it, on several threads.
async fn initialized(s: &mut Scn) {
    let net = Net::new(s.seed, crate::net::Faults::default());
    let st = Station::new(&net);
    // (The broker knows of a connection before the client can be told that it is up.)
    let met = |st: &Station| st.log.lock().broker.len();
    for round in 0..60u64 {
        let c = client(&st, vec![1]);
        let mut before = met(&st);
        for again in 0..2 {
            let n = s.rng.gen_range(1..6);
            let jobs: Vec<_> = (0..n)
                .map(|i| {
                    let (c, st) = (c.clone(), st.log.clone());
                    let pause = s.rng.gen_range(0..300);
                    tokio::spawn(async move {
                        for _ in 0..pause {
                            std::hint::spin_loop();
                        }
                        let told = timeout(Duration::from_secs(60), c.ensure_initialized()).await;
                        let now = st.lock().broker.len();
                        let mut used = vec![];
                        for _ in 0..3 {
                            used.push(c.send_message(direct(i)).await.map_err(|e| e.to_string()));
                        }
                        (told, now, used)
                    })
                })
                .collect();
            for j in jobs {
                let (told, now, used) = match j.await {
                    Ok(x) => x,
                    Err(e) => return s.inconclusive(e.to_string()),
                };
                match told {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return s.fail("initialization fails", format!("round {round}: {e}")),
                    Err(_) => return s.fail("does not connect", format!("round {round}: not within 60 s")),
                }
                s.check(now > before, "said to be connected when it is not", || {
                    format!("round {round}, time {again}: the broker had met it {now} times by then, {before} before")
                });
                s.check(used.iter().all(Result::is_ok), "said to be connected, but cannot be used", || {
                    format!("round {round}, time {again}, {n} callers: {used:?}")
                });
                s.ev("initializations", 1);
            }
            s.state((round % 2, n, again));
            if s.failed() {
                return;
            }
            if again == 1 {
                break;
            }
            // The connection breaks, and those who receive find out, one of them first.
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
            let jobs: Vec<_> = (0..n)
                .map(|_| {
                    let (c, tx) = (c.clone(), tx.clone());
                    tokio::spawn(async move {
                        let _ = tx.send(c.receive_message().await.is_err());
                    })
                })
                .collect();
            sleep(Duration::from_micros(s.rng.gen_range(0..500))).await;
            before = met(&st);
            for l in net.links_to(&st.broker_ep) {
                l.reset();
            }
            if timeout(Duration::from_secs(60), rx.recv()).await.ok().flatten() != Some(true) {
                return s.fail("waiting call not released by a failure", format!("round {round}"));
            }
            // (With the others still finding out.)
            let told = timeout(Duration::from_secs(60), c.ensure_initialized()).await;
            s.check(matches!(told, Ok(Ok(()))), "does not connect", || format!("round {round}: {told:?}"));
            s.check(met(&st) > before, "said to be connected when it is not", || format!("round {round}, after a failure"));
            s.ev("initializations", 1);
            // (One that began to receive only after the failure waits for a message.)
            let _ = timeout(Duration::from_millis(100), async { for _ in 1..n { rx.recv().await; } }).await;
            for j in jobs {
                j.abort();
                let _ = j.await;
            }
        }
    }
}

/// Close racing with everything else, on several threads.
async fn close_threads(s: &mut Scn) {
    let net = Net::new(s.seed, crate::net::Faults::default());
    let st = Station::new(&net);
    for round in 0..20 {
        let mode = s.rng.gen_range(0..3);
        {
            let mut l = st.log.lock();
            l.default_m = (mode == 1).then_some(M::Refuse);
            l.default_b = (mode == 2).then_some(B::CloseAfterAnswer);
        }
        let c = client(&st, vec![1]);
        let mut tasks = vec![];
        let returned = Arc::new(AtomicBool::new(false));
        for _ in 0..4 {
            let (c, returned) = (c.clone(), returned.clone());
            tasks.push(tokio::spawn(async move {
                let mut n = 0u64;
                while !returned.load(Ordering::SeqCst) {
                    n += 1;
                    let _ = c.send_message(direct(n)).await;
                    if n % 64 == 0 {
                        tokio::task::yield_now().await;
                    }
                }
                // Promptly, and with an error.
                let a = timeout(Duration::from_secs(10), c.send_message(direct(n))).await;
                let b = timeout(Duration::from_secs(10), c.receive_message()).await.map(|r| r.is_err());
                (a.is_ok_and(|r| r.is_err()), b)
            }));
        }
        let us = s.rng.gen_range(0..3000);
        sleep(Duration::from_micros(us)).await;
        if timeout(Duration::from_secs(20), c.close()).await.is_err() {
            return s.fail("close hangs", format!("round {round}, mode {mode}"));
        }
        returned.store(true, Ordering::SeqCst);
        let n0 = st.n_attempts();
        for t in tasks {
            match timeout(Duration::from_secs(60), t).await {
                Ok(Ok((a, b))) => {
                    s.check(a, "call succeeds after close", || format!("send, round {round}, mode {mode}"));
                    s.check(b.is_ok(), "call hangs after close", || format!("receive, round {round}, mode {mode}"));
                    s.check(b != Ok(false), "call succeeds after close", || format!("receive, round {round}, mode {mode}"));
                }
                _ => return s.fail("waiting call not released by close", format!("round {round}, mode {mode}")),
            }
        }
        sleep(Duration::from_millis(20)).await;
        s.check(st.n_attempts() == n0, "connects after close", || format!("round {round}, mode {mode}"));
        s.ev("closes", 1);
        s.state((mode, us / 100));
        if s.failed() {
            return;
        }
    }
}
