//! P23: what is left in a broker, a marshal and clients after connections came and went: tasks, streams, memory.
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Protocol};
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithPermit, Message};
use rand::{rngs::StdRng, Rng, SeedableRng};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpStream, UdpSocket};
use tokio::runtime::Handle;
use tokio::time::{sleep, timeout};

use super::p15_isolation::{newcomer, offender, Place};
use super::util::faults;
use crate::alloc::live_bytes;
use crate::group;
use crate::real::{free_addr, RealWorld};
use crate::run::{Group, Rt, Scn};
use crate::sig::keypair;
use crate::world::{auth_with_key, now_secs, pk, secs, settle, BrokerH, Raw, World};

pub fn groups() -> Vec<Group> {
    let mut v = vec![
        group!("churn", churn, Rt::Virtual, 80, 2_000),
        group!("stayers", stayers, Rt::Virtual, 60, 2_000),
        group!("silent-peers", silent_peers, Rt::Virtual, 20, 400),
        group!("silent-hosts", silent_hosts, Rt::Virtual, 30, 600),
        group!("sockets-tcp", sockets::<Tcp>, Rt::Real, 1, 15),
        group!("sockets-tls", sockets::<TcpTls>, Rt::Real, 1, 15),
        group!("sockets-quic", sockets::<Quic>, Rt::Real, 1, 15),
    ];
    // (The open files are the process's.)
    for g in &mut v[4..] {
        g.par = 1;
    }
    v
}

fn tasks() -> usize {
    Handle::current().metrics().num_alive_tasks()
}

async fn churn(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let n_brokers = s.rng.gen_range(1..=2);
    let mut brokers: Vec<BrokerH> = vec![];
    for i in 0..n_brokers {
        brokers.push(w.broker(&format!("b{i}")).await);
    }
    let (marshal, _mt) = w.marshal("marshal", None).await;
    secs(25.0).await;
    let place = Arc::new(Place { brokers: brokers.iter().map(|b| b.id.clone()).collect(), marshal, w });
    let (tasks0, links0) = (tasks(), place.w.net.open_links().len());
    let n = s.rng.gen_range(40..80u64);
    let mut live = vec![];
    for cycle in 0..8u64 {
        let jobs: Vec<_> = (0..n)
            .map(|i| {
                let (p, rng) = (place.clone(), StdRng::seed_from_u64(s.rng.gen()));
                let key = 1000 + cycle * 1000 + i;
                tokio::spawn(async move {
                    match i % 4 {
                        0 => drop(newcomer(p, key).await),
                        1 => client(p, rng, key).await,
                        2 => successors(p, rng, key).await,
                        _ => drop(offender(p, rng, key).await),
                    }
                })
            })
            .collect();
        for j in jobs {
            let _ = j.await;
        }
        s.ev("sessions", n);
        secs(45.0).await;
        place.w.forget();
        live.push(live_bytes());
        let t = tasks();
        s.check(t == tasks0, "tasks are left over", || format!("{t} tasks, {tasks0} before {} sessions", n * (cycle + 1)));
        let l = place.w.net.links().len();
        s.check(l == links0, "streams are left over", || format!("{l} connections with an end in use, {links0} before"));
    }
    let grown: Vec<i64> = live.windows(2).map(|w| w[1] - w[0]).collect();
    // (Tables and channels grow and shrink in steps of one or two KB; the first cycle fills what is kept for reuse.)
    let (total, least) = (grown[1..].iter().sum::<i64>(), *grown[2..].iter().min().expect("some"));
    s.log(format!("{n} sessions each time; memory grew by {grown:?}"));
    s.state((n, n_brokers, total / 1000));
    s.ev("bytes_kept", total.max(0) as u64);
    s.check(total < 25_000 && least < 800, "memory is left over", || format!("growth in bytes over {n} sessions each time: {grown:?}"));
}

/// A real client, given up in one way or another, at one point or another.
async fn client(p: Arc<Place>, mut rng: StdRng, key: u64) {
    secs(rng.gen_range(0.0..5.0)).await;
    let to = match rng.gen_range(0..5) {
        0 => p.w.net.ep("nowhere"),
        // (A broker where a marshal should be.)
        1 => p.brokers[0].public_advertise_endpoint.clone(),
        _ => p.marshal.clone(),
    };
    let c = p.w.client(&to, key, vec![0, 1]);
    let mut jobs = vec![];
    for _ in 0..rng.gen_range(0..3) {
        let c = c.clone();
        jobs.push(tokio::spawn(async move {
            while c.receive_message().await.is_ok() {}
        }));
    }
    match rng.gen_range(0..4) {
        0 => {}
        1 => {
            let _ = c.send_direct_message(&keypair(key).public_key, vec![]).await;
        }
        _ => {
            let limit = Duration::from_millis(rng.gen_range(0..3000));
            let _ = tokio::time::timeout(limit, c.ensure_initialized()).await;
            let _ = c.send_direct_message(&keypair(key).public_key, vec![1; 100]).await;
            let _ = c.subscribe(vec![2]).await;
        }
    }
    secs(rng.gen_range(0.0..2.0)).await;
    if rng.gen_bool(0.3) {
        // The connection breaks.
        if let Some(l) = p.w.net.open_links().iter().find(|l| l.permit_presented().and_then(|x| p.w.svc.issued.lock().get(&x).cloned()) == Some(pk(key))) {
            l.reset();
        }
        secs(rng.gen_range(0.0..2.0)).await;
    }
    if rng.gen() {
        c.close().await;
    }
    for j in jobs {
        j.abort();
    }
}

/// Several sessions of one key, each begun before the last one ended.
async fn successors(p: Arc<Place>, mut rng: StdRng, key: u64) {
    let mut kept = vec![];
    for _ in 0..rng.gen_range(2..5) {
        secs(rng.gen_range(0.0..1.0)).await;
        let b = &p.brokers[rng.gen_range(0..p.brokers.len())];
        if let Ok(mut r) = p.w.user(b, key, &[0, 3]).await {
            r.direct(&pk(key), &[1; 50]).await;
            kept.push(r);
        }
    }
    secs(rng.gen_range(0.0..2.0)).await;
}

/// How long a connection that has no business being there may stay.
const STAY_S: f64 = 20.0;

/// Visitors that keep their own end open, whatever they are told: the component must be the one to end it.
async fn stayers(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("b0").await;
    let (marshal, _mt) = w.marshal("marshal", None).await;
    secs(15.0).await;
    let tasks0 = tasks();
    let n = s.rng.gen_range(20..60u64);
    let mut held = vec![];
    for i in 0..n {
        let key = 100 + i;
        match stay(&w, &b, &marshal, &mut s.rng, key).await {
            Ok((what, mut rs)) => held.extend(rs.drain(..).map(|r| (what, r))),
            Err(e) => return s.fail("a visitor could not even begin", e),
        }
        if s.rng.gen_bool(0.3) {
            let d = s.rng.gen_range(0.0..3.0);
            secs(d).await;
        }
    }
    secs(STAY_S).await;
    for (what, r) in &held {
        let l = r.link.as_ref().expect("linked");
        s.ev("stayers", 1);
        s.state(*what);
        s.check(l.b2a.writer_gone() && l.a2b.reader_gone(), "a connection that is over is kept for as long as the visitor likes", || {
            format!("{what}: still held after {STAY_S} s")
        });
    }
    // (Those that looked away see the end of it.)
    for (_, r) in &held {
        r.link.as_ref().expect("linked").stall(false);
    }
    settle().await;
    let t = tasks();
    s.check(t <= tasks0, "tasks are left over", || format!("{t} tasks, {tasks0} before {n} visitors that keep their end"));
    drop(held);
}

/// One visitor: what it does, and the connections it keeps.
async fn stay(w: &World, b: &BrokerH, marshal: &str, rng: &mut StdRng, key: u64) -> Result<(&'static str, Vec<Raw>), String> {
    let places = [marshal, &b.id.public_advertise_endpoint, &b.id.private_advertise_endpoint];
    let place = places[rng.gen_range(0..3)];
    let half = |rng: &mut StdRng| [0, 0, 1, 0, 5, 5, 5][..rng.gen_range(1..7)].to_vec();
    let answered = Duration::from_secs(10);
    Ok(match rng.gen_range(0..16) {
        0 => ("no handshake", vec![w.mute(place).await?]),
        1 => ("not a word", vec![w.raw(place).await?]),
        2 => {
            let mut r = w.raw(place).await?;
            r.send_bytes(&half(rng)).await;
            ("part of a first message", vec![r])
        }
        3 => {
            let mut r = w.raw(place).await?;
            r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen_range(2..900) })).await;
            ("invalid credentials", vec![r])
        }
        4 | 5 => {
            // Told where to go; doesn't.
            let mut r = w.raw(marshal).await?;
            r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
            if rng.gen() {
                match r.next(answered).await {
                    Some(Message::AuthenticateResponse(a)) if a.permit > 1 => {}
                    x => return Err(format!("the marshal's answer: {x:?}")),
                }
            }
            ("has the marshal's answer", vec![r])
        }
        6 => {
            // Does not even read it; has more to say.
            let mut r = w.raw(marshal).await?;
            r.link.as_ref().expect("linked").b2a.stall(true);
            r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
            if rng.gen() {
                r.send_bytes(&half(rng)).await;
            }
            ("does not read the marshal's answer", vec![r])
        }
        7 => {
            let mut r = w.raw(marshal).await?;
            for _ in 0..rng.gen_range(2..5) {
                r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())).await;
            }
            ("asks the marshal again and again", vec![r])
        }
        8 => {
            let mut r = w.raw(&b.id.public_advertise_endpoint).await?;
            let permit = w.svc.permit(&b.id, pk(key));
            r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
            if rng.gen() {
                r.next(answered).await;
                r.send_bytes(&half(rng)).await;
            }
            ("let in and subscribes to nothing", vec![r])
        }
        9 => {
            // One of ours that breaks the rules.
            let mut r = w.user(&b.id, key, &[0]).await?;
            match rng.gen_range(0..4) {
                0 => drop(r.send(&Message::UserSync(vec![1])).await),
                1 => drop(r.broadcast(&[], b"x").await),
                2 => drop(r.send_frame(&[1, 2, 3]).await),
                _ => drop(r.send_bytes(&[0, 0, 1, 0, 5, 5, 5]).await),
            }
            ("a user that broke the rules", vec![r])
        }
        10 => {
            let old = w.user(&b.id, key, &[0]).await?;
            // (What makes it a session is still on its way.)
            secs(3.0).await;
            if rng.gen() {
                old.link.as_ref().expect("linked").stall(true);
            }
            let mut new = w.user(&b.id, key, &[0]).await?;
            secs(3.0).await;
            new.hang_up();
            ("a session with a successor", vec![old])
        }
        11 => {
            // Reads nothing of what it is sent.
            let mut r = w.user(&b.id, key, &[0]).await?;
            secs(0.1).await;
            let l = r.link.clone().expect("linked");
            l.b2a.stall(true);
            l.b2a.set_capacity(2_000);
            for _ in 0..3 {
                r.direct(&pk(key), &[7; 1500]).await;
            }
            // (It is found out with the next message for it after the one that could not be written in time.)
            secs(6.0).await;
            r.direct(&pk(key), &[7; 1500]).await;
            ("a user that does not read", vec![r])
        }
        12 => {
            // Has proved itself, and does not look at the proof it asked for.
            let mut r = w.raw(&b.id.private_advertise_endpoint).await?;
            r.send(&auth_with_key(Namespace::BrokerBrokerAuth.as_str(), crate::world::BROKER_KEY, now_secs())).await;
            if rng.gen() {
                r.next(answered).await;
            }
            ("a broker that answers nothing", vec![r])
        }
        13 => {
            let mut r = w.peer(&b.id, &format!("p{key}")).await?;
            match rng.gen_range(0..3) {
                0 => drop(r.send_frame(&[1, 2, 3]).await),
                1 => drop(r.send(&Message::UserSync(vec![1, 2, 3])).await),
                _ => drop(r.send(&Message::TopicSync(vec![0; 40])).await),
            }
            ("a broker that broke the rules", vec![r])
        }
        14 => {
            let old = w.peer(&b.id, &format!("q{key}")).await?;
            secs(3.0).await;
            let mut new = w.peer(&b.id, &format!("q{key}")).await?;
            secs(3.0).await;
            new.hang_up();
            ("a broker's connection with a successor", vec![old])
        }
        _ => {
            let r = w.peer(&b.id, &format!("r{key}")).await?;
            let l = r.link.clone().expect("linked");
            l.b2a.stall(true);
            l.b2a.set_capacity(10);
            // (A user's coming is told at once; that one could not be written in time is found out with the next.)
            let mut u = w.user(&b.id, 5000 + key, &[3]).await?;
            secs(6.0).await;
            u.hang_up();
            w.user(&b.id, 6000 + key, &[3]).await?.hang_up();
            ("a broker that does not read", vec![r])
        }
    })
}

/// Brokers that are registered, accept connections and answer nothing, not enough or the wrong thing: each is dialled
/// every ten seconds, and must not be left with ever more connections.
async fn silent_peers(s: &mut Scn) {
    let w = World::new(s.seed, faults(&mut s.rng));
    let _b = w.broker("b0").await;
    secs(12.0).await;
    let tasks0 = tasks();
    let held = Arc::new(parking_lot::Mutex::new(vec![]));
    let n = s.rng.gen_range(1..4);
    let mut ids = vec![];
    for i in 0..n {
        let id = w.broker_id(&format!("z{i}"));
        let l = w.net.listen(&id.private_advertise_endpoint);
        let (net, ep, h) = (w.net.clone(), id.private_advertise_endpoint.clone(), held.clone());
        let (how, own) = (s.rng.gen_range(0..5), w.broker_id("z").to_string());
        ids.push((id, how));
        tokio::spawn(async move {
            while let Some((r, wr)) = l.accept_raw().await {
                let mut raw = Raw::new(r, wr, net.links_to(&ep).pop());
                let no = Message::AuthenticateResponse(AuthenticateResponse { permit: 0, context: "no".into() });
                let yes = Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: own.clone() });
                match how {
                    0 => {}
                    1 => drop(raw.send_bytes(&[0, 0, 1]).await),
                    2 => drop(raw.send(&no).await),
                    3 => drop(raw.send(&yes).await),
                    _ => {
                        raw.send(&yes).await;
                        raw.send(&auth_with_key("elsewhere", crate::world::BROKER_KEY, now_secs())).await;
                    }
                }
                h.lock().push(raw);
            }
        });
    }
    for (id, _) in &ids {
        w.svc.st.lock().brokers.insert(id.to_string(), (0, tokio::time::Instant::now() + Duration::from_secs(100_000)));
    }
    let t = s.rng.gen_range(100..200);
    secs(f64::from(t)).await;
    let calls = held.lock().len();
    for (id, how) in &ids {
        let links = w.net.links_to(&id.private_advertise_endpoint);
        // (A call lasts 5 s at most; they are 10 s apart.)
        let open = links.iter().filter(|l| !l.a2b.writer_gone() || !l.b2a.reader_gone()).count();
        s.state((how, open.min(3)));
        s.check(open <= 2, "connections to a broker that does not answer are kept", || format!("way {how}: {open} of {} after {t} s", links.len()));
    }
    s.ev("silent_calls", calls as u64);
    // The brokers are gone; nothing of them is left.
    w.svc.st.lock().brokers.retain(|k, _| !ids.iter().any(|(id, _)| id.to_string() == *k));
    secs(15.0).await;
    held.lock().clear();
    settle().await;
    let (now, own) = (tasks(), ids.len());
    s.check(now <= tasks0 + own, "tasks are left over", || format!("{now} tasks, {tasks0} and {own} of the visitors' before {calls} calls"));
}

/// A real client, with a marshal and a broker that keep their end of every connection.
async fn silent_hosts(s: &mut Scn) {
    let w = World::new(s.seed, faults(&mut s.rng));
    let marshal = w.net.ep("held-marshal");
    let broker = w.net.ep("held-broker");
    let (how_m, how_b) = (s.rng.gen_range(0..5), s.rng.gen_range(0..5));
    let held = Arc::new(parking_lot::Mutex::new(vec![]));
    for (ep, at_marshal) in [(&marshal, true), (&broker, false)] {
        let l = w.net.listen(ep);
        let (net, ep, to, h) = (w.net.clone(), ep.clone(), broker.clone(), held.clone());
        let how = if at_marshal { how_m } else { how_b };
        tokio::spawn(async move {
            let mut n = 0;
            while let Some((r, wr)) = l.accept_raw().await {
                let mut raw = Raw::new(r, wr, net.links_to(&ep).pop());
                n += 1;
                let response = |permit, context: &str| Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.into() });
                match how {
                    0 => {}
                    1 => drop(raw.send(&response(0, "no")).await),
                    2 => drop(raw.send_frame(&[1, 2, 3]).await),
                    _ if at_marshal => drop(raw.send(&response(1 + n, &to)).await),
                    // Let in, and then broken off by something that the client cannot read, or left as it is.
                    _ => {
                        raw.send(&response(1, "")).await;
                        if how == 3 {
                            raw.next(Duration::from_secs(5)).await;
                            raw.next(Duration::from_secs(5)).await;
                            raw.send_frame(&[9, 9, 9]).await;
                        }
                    }
                }
                h.lock().push(raw);
            }
        });
    }
    settle().await;
    let tasks0 = tasks();
    let c = w.client(&marshal, 1, vec![0]);
    let user = {
        let c = c.clone();
        tokio::spawn(async move {
            loop {
                let _ = c.receive_message().await;
                sleep(Duration::from_millis(50)).await;
            }
        })
    };
    let t = s.rng.gen_range(60..200);
    for _ in 0..t / 10 {
        secs(10.0).await;
        let open = w.net.links().iter().filter(|l| !l.a2b.writer_gone()).count();
        s.check(open <= 2, "a client keeps connections that are over", || format!("marshal way {how_m}, broker way {how_b}: {open} connections open"));
    }
    s.ev("held_hosts", held.lock().len() as u64);
    s.state((how_m, how_b));
    // Given up: nothing is left.
    if s.rng.gen() {
        c.close().await;
    }
    user.abort();
    drop(c);
    secs(STAY_S).await;
    let open = w.net.links().iter().filter(|l| !l.a2b.writer_gone() || !l.b2a.reader_gone()).count();
    s.check(open == 0, "a client that is gone keeps connections", || format!("marshal way {how_m}, broker way {how_b}: {open} connections open"));
    held.lock().clear();
    settle().await;
    let now = tasks();
    s.check(now <= tasks0, "tasks are left over", || format!("{now} tasks, {tasks0} before"));
}

fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, Iterator::count)
}

/// The same on a real transport: open files and tasks after connections that were used, given up half-way or never made.
async fn sockets<P: Protocol>(s: &mut Scn) {
    let mut w = RealWorld::<P, P>::new();
    let (public, private) = (free_addr(), free_addr());
    if let Err(e) = w.broker((public.clone(), private.clone()), None).await {
        return s.inconclusive(e);
    }
    let marshal = match w.marshal().await {
        Ok(m) => m,
        Err(e) => return s.inconclusive(e),
    };
    if !w.wait_brokers(1).await {
        return s.inconclusive("the broker does not register");
    }
    abandoned::<P>(s, &[&marshal, &public, &private]).await;
    // (What is made once and kept.)
    one::<P>(&w, &marshal, &public, &private, StdRng::seed_from_u64(1), 1).await;
    sleep(Duration::from_secs(1)).await;
    let (files0, tasks0) = (files(), tasks());
    let rounds = if s.thorough { 3 } else { 1 };
    for round in 0..rounds {
        let n = s.rng.gen_range(60..100u64);
        let mut jobs = vec![];
        for i in 0..n {
            jobs.push(one::<P>(&w, &marshal, &public, &private, StdRng::seed_from_u64(s.rng.gen()), 10 + i));
        }
        let all = async {
            // A few at a time.
            let mut open = tokio::task::JoinSet::new();
            for j in jobs {
                open.spawn(j);
                if open.len() >= 12 {
                    open.join_next().await;
                }
            }
            while open.join_next().await.is_some() {}
        };
        if timeout(Duration::from_secs(90), all).await.is_err() {
            return s.inconclusive("the connections take for ever");
        }
        let most = files();
        s.ev("connections", n);
        // Handshakes, proofs and goodbyes that never come are waited for, for 5 s each.
        let mut now = (files(), tasks());
        for _ in 0..120 {
            if now.0 <= files0 && now.1 <= tasks0 {
                break;
            }
            sleep(Duration::from_millis(250)).await;
            now = (files(), tasks());
        }
        s.log(format!("round {round}: {n} connections; {files0} files before, {most} at the end of them, {} later; {tasks0} tasks, then {}", now.0, now.1));
        s.check(now.0 <= files0, "open files are left over", || format!("{} files, {files0} before {n} connections", now.0));
        s.check(now.1 <= tasks0, "tasks are left over", || format!("{} tasks, {tasks0} before {n} connections", now.1));
        s.state((round, n, most));
        if s.failed() {
            return;
        }
    }
}

/// Connections whose visitor stays, having begun the handshake or not: the component must be the one to end them.
async fn abandoned<P: Protocol>(s: &mut Scn, places: &[&str]) {
    let began = std::time::Instant::now();
    let mut sockets = vec![];
    let mut conns = vec![];
    for place in places {
        for n in [0, 3, 100] {
            // (A datagram transport has no such thing.)
            if let Ok(mut c) = TcpStream::connect(place).await {
                // (The beginning of a TLS ClientHello that says it goes on.)
                let mut junk = vec![0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3];
                junk.resize(n, 7);
                let _ = c.write_all(&junk).await;
                sockets.push((n, c));
            }
        }
        for half in [false, true] {
            if let Ok(Ok(c)) = timeout(Duration::from_secs(10), P::connect(place, true, Limiter::none())).await {
                if half {
                    let _ = c.send_message(Message::Subscribe(vec![1])).await;
                }
                conns.push((half, c));
            }
        }
    }
    // (5 s for the handshake, 5 s for the credentials, 5 s to say goodbye, and a machine that is busy.)
    let limit = || Duration::from_secs(30).saturating_sub(began.elapsed());
    for (n, mut c) in sockets {
        let mut b = [0; 1000];
        let ended = timeout(limit(), async { while matches!(c.read(&mut b).await, Ok(1..)) {} }).await.is_ok();
        s.ev("abandoned", 1);
        s.check(ended, "a connection whose handshake never ends is kept", || format!("{n} bytes of it, then nothing for 30 s"));
    }
    for (half, c) in conns {
        let ended = timeout(limit(), async { while c.recv_message().await.is_ok() {} }).await.is_ok();
        s.ev("abandoned", 1);
        s.check(ended, "a connection without credentials is kept", || format!("a wrong first message: {half}; nothing for 30 s"));
    }
}

/// One connection, used or not.
fn one<P: Protocol>(w: &RealWorld<P, P>, marshal: &str, public: &str, private: &str, mut rng: StdRng, key: u64) -> impl std::future::Future<Output = ()> + Send + 'static {
    let c = w.client(marshal, key, vec![0]);
    let place = [marshal, public, private][rng.gen_range(0..3)].to_string();
    let what = if key == 1 { 0 } else { rng.gen_range(0..7) };
    async move {
        let short = Duration::from_millis(rng.gen_range(0..200));
        match what {
            // A client, that is closed or dropped, connected or not.
            0 | 1 => {
                let _ = timeout(if what == 0 { Duration::from_secs(20) } else { short / 10 }, c.ensure_initialized()).await;
                let _ = c.send_direct_message(&keypair(key).public_key, vec![1; 1000]).await;
                if rng.gen() {
                    let _ = timeout(short, c.receive_message()).await;
                }
                if rng.gen() {
                    c.close().await;
                }
            }
            // A connection without a word, or with a wrong one.
            2 | 3 => {
                let Ok(Ok(c)) = timeout(Duration::from_secs(10), P::connect(&place, true, Limiter::none())).await else { return };
                let m = match rng.gen_range(0..4) {
                    0 => None,
                    1 => Some(auth_with_key(Namespace::UserMarshalAuth.as_str(), key, now_secs())),
                    2 => Some(auth_with_key(Namespace::BrokerBrokerAuth.as_str(), crate::world::BROKER_KEY, now_secs())),
                    _ => Some(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen() })),
                };
                if let Some(m) = m {
                    let _ = c.send_message(m).await;
                    let _ = timeout(short, c.recv_message()).await;
                }
                if rng.gen() {
                    let _ = timeout(Duration::from_secs(10), c.soft_close()).await;
                }
            }
            // A handshake broken off.
            4 => {
                let _ = timeout(short / 50, P::connect(&place, true, Limiter::none())).await;
            }
            // Junk to begin with.
            _ => {
                let junk: Vec<u8> = (0..rng.gen_range(0..1300)).map(|_| rng.gen()).collect();
                if let Ok(mut c) = TcpStream::connect(&place).await {
                    let _ = c.write_all(&junk).await;
                    sleep(short).await;
                } else if let Ok(u) = UdpSocket::bind("127.0.0.1:0").await {
                    let _ = u.send_to(&junk, &place).await;
                    sleep(short).await;
                }
            }
        }
    }
}
