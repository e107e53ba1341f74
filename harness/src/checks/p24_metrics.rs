//! P24: the metrics against what the harness saw happen.  (They are the process's: one scenario at a time.)
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

use cdn_proto::connection::metrics::LATENCY;
use cdn_proto::connection::protocols::tcp::Tcp;
use rand::seq::SliceRandom;
use rand::Rng;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::{sleep, timeout};

use super::util::{faults, payload, topic_list};
use crate::announce::Announcer;
use crate::group;
use crate::net::Faults;
use crate::real::{free_addr, RealWorld};
use crate::run::{Group, Rt, Scn};
use crate::world::{pk, secs, settle, BrokerOpts, Raw, World, VALID};

pub fn groups() -> Vec<Group> {
    let one = |mut g: Group| {
        g.par = 1;
        g
    };
    vec![
        one(group!("counters", counters, Rt::Virtual, 60, 2_000)),
        one(group!("running-latency", running, Rt::Virtual, 40, 1_000)),
        one(group!("latency", latency, Rt::Real, 3, 60)),
        one(group!("endpoint", endpoint, Rt::Multi(2), 4, 60)),
    ]
}

/// What is in the metrics: the value of each gauge, and the count and sum of each histogram.
fn read() -> BTreeMap<String, f64> {
    let mut m = BTreeMap::new();
    for f in prometheus::gather() {
        let x = &f.get_metric()[0];
        if f.get_field_type() == prometheus::proto::MetricType::HISTOGRAM {
            let h = x.get_histogram();
            m.insert(format!("{}_count", f.get_name()), h.get_sample_count() as f64);
            m.insert(format!("{}_sum", f.get_name()), h.get_sample_sum());
        } else {
            m.insert(f.get_name().to_string(), x.get_gauge().get_value());
        }
    }
    m
}
fn at(m: &BTreeMap<String, f64>, k: &str) -> f64 {
    m.get(k).copied().unwrap_or(0.0)
}

#[derive(Default)]
struct Book {
    conns: Vec<Raw>,
    users: BTreeMap<u64, usize>,
    peers: BTreeMap<usize, usize>,
}
impl Book {
    fn add(&mut self, r: Raw) -> usize {
        self.conns.push(r);
        self.conns.len() - 1
    }
    fn sent(&self) -> (u64, u64) {
        (self.conns.iter().map(|r| r.sent_bytes).sum(), self.conns.iter().map(|r| r.sent).sum())
    }
    fn got(&self) -> u64 {
        self.conns.iter().map(|r| r.inbox.lock().frames.iter().map(|(_, f)| f.len() as u64).sum::<u64>()).sum()
    }
}

async fn counters(s: &mut Scn) {
    // (A message counts as sent when the transport has it.)
    let f = Faults { buffer: 0, ..faults(&mut s.rng) };
    let w = World::new(s.seed, f);
    let pool = s.rng.gen_bool(0.7).then(|| s.rng.gen_range(1_000_000..10_000_000));
    let base = read();
    let b = w.broker_with("m", BrokerOpts { pool, ..Default::default() }).await;
    settle().await;
    let mut k = Book::default();
    let mut id = 0;
    let steps = s.rng.gen_range(5..40);
    s.log(format!("pool {pool:?}"));
    for step in 0..steps {
        let key = s.rng.gen_range(0..5u64);
        let peer = s.rng.gen_range(0..3usize);
        let what = s.rng.gen_range(0..14);
        match what {
            0 | 1 => match w.user(&b.id, key, &topic_list(&mut s.rng, &VALID, true)).await {
                Ok(r) => {
                    let i = k.add(r);
                    k.users.insert(key, i);
                }
                Err(e) => return s.fail("user not admitted", e),
            },
            2 => match w.peer(&b.id, &format!("p{peer}")).await {
                Ok(mut r) => {
                    if s.rng.gen() {
                        let mut a = Announcer::new(w.broker_id(&format!("p{peer}")));
                        for j in 0..s.rng.gen_range(1..40u64) {
                            a.join(&pk(5000 + j));
                        }
                        r.send(&a.users_diff()).await;
                    }
                    let i = k.add(r);
                    k.peers.insert(peer, i);
                }
                Err(e) => return s.fail("peer not admitted", e),
            },
            // Somebody leaves.
            3 => {
                if let Some(i) = k.users.remove(&key) {
                    k.conns[i].hang_up();
                }
            }
            4 => {
                if let Some(i) = k.peers.remove(&peer) {
                    k.conns[i].hang_up();
                }
            }
            // ... in the middle of a frame, which is no message.
            5 => {
                if let Some(i) = k.users.remove(&key) {
                    let n = s.rng.gen_range(1..500u32);
                    let have = s.rng.gen_range(0..n) as usize;
                    let mut v = n.to_be_bytes().to_vec();
                    v.extend(vec![0; have]);
                    v.truncate(if s.rng.gen_bool(0.2) { s.rng.gen_range(0..4) } else { v.len() });
                    k.conns[i].send_bytes(&v).await;
                    k.conns[i].sent -= 1;
                    settle().await;
                    k.conns[i].hang_up();
                    s.ev("partial_frames", 1);
                    // (Room that was reserved for it is given back, which some may call a message's end.)
                    settle().await;
                }
            }
            // ... by saying what is not understood (or nothing at all).
            6 => {
                if let Some(i) = k.users.remove(&key) {
                    let n = s.rng.gen_range(0..30);
                    k.conns[i].send_frame(&vec![255; n]).await;
                }
            }
            _ => {
                // A burst of messages, by whom and to whom it may be.
                let from: Vec<usize> = k.users.values().chain(k.peers.values()).copied().collect();
                for _ in 0..s.rng.gen_range(1..10) {
                    let Some(&i) = from.choose(&mut s.rng) else { break };
                    let r = &mut k.conns[i];
                    id += 1;
                    let p = payload(&mut s.rng, id);
                    match s.rng.gen_range(0..5) {
                        0 | 1 => r.broadcast(&topic_list(&mut s.rng, &VALID, true), &p).await,
                        2 => r.direct(&pk(s.rng.gen_range(0..7)), &p).await,
                        3 if k.users.values().any(|x| *x == i) => r.subscribe(&topic_list(&mut s.rng, &VALID, true)).await,
                        _ => r.broadcast(&[0, 1, 2, 3], &p).await,
                    };
                    s.ev("messages", 1);
                }
            }
        }
        settle().await;
        let (mut now, mut got) = (read(), k.got());
        // (What the broker says of itself every ten seconds may just be on its way.)
        for _ in 0..3 {
            if at(&now, "total_bytes_sent") - at(&base, "total_bytes_sent") == got as f64 {
                break;
            }
            settle().await;
            (now, got) = (read(), k.got());
        }
        let d = |name: &str| at(&now, name) - at(&base, name);
        let (sent, n) = k.sent();
        s.log(format!("{step}: {what} key {key} peer {peer}; {n} messages of {sent} bytes to the broker, {got} bytes from it"));
        let mut judge = |name: &str, want: f64| {
            let is = d(name);
            s.check(is == want, &format!("{name} is not what happened"), || {
                format!("step {step} (action {what}): {name} went up by {is}, {want} were seen")
            });
        };
        judge("total_bytes_recv", sent as f64);
        judge("total_bytes_sent", got as f64);
        judge("num_users_connected", k.users.len() as f64);
        judge("num_brokers_connected", k.peers.len() as f64);
        // (Unfinished messages may be counted as well.)
        let partial = s.cov.get("partial_frames").copied().unwrap_or(0);
        let seen = d("latency_count");
        let (low, high) = if pool.is_some() { (n, n + partial) } else { (0, 0) };
        s.check((low as f64..=high as f64).contains(&seen), "latency is not of each message", || {
            format!("step {step} (action {what}): {seen} latencies, {low} to {high} messages, pool {pool:?}")
        });
        s.ev("readings", 5);
        s.state((what, k.users.len(), k.peers.len(), pool.is_some(), got.min(1)));
        if s.failed() {
            return;
        }
    }
    s.ev("bytes_received", k.sent().0);
    s.ev("bytes_sent", k.got());
}

/// The average of each half minute.
async fn running(s: &mut Scn) {
    let Some(lat) = LATENCY.as_ref() else { return s.inconclusive("no latency metric") };
    let t0 = tokio::time::Instant::now();
    let t = tokio::spawn(cdn_proto::metrics::running_latency_calculator());
    // (The first period includes what the process did before.)
    secs(30.5).await;
    let mut last = at(&read(), "running_latency");
    for period in 2..s.rng.gen_range(4..25u32) {
        let n = match s.rng.gen_range(0..4) {
            0 => 0,
            1 => 1,
            _ => s.rng.gen_range(1..200),
        };
        let scale = 10f64.powi(s.rng.gen_range(-5..3));
        let (mut sum, mut left) = (0.0, 25.0);
        for _ in 0..n {
            let x = s.rng.gen::<f64>() * scale;
            sum += x;
            lat.observe(x);
            if s.rng.gen_bool(0.1) {
                let pause = s.rng.gen_range(0.0..left / 3.0);
                left -= pause;
                secs(pause).await;
            }
        }
        // Not before the period is over.
        if s.rng.gen() {
            tokio::time::sleep_until(t0 + Duration::from_millis(30_000 * u64::from(period) - 500)).await;
            let early = at(&read(), "running_latency");
            s.check(early == last, "running latency changes within its period", || format!("period {period}: {last} became {early}"));
        }
        tokio::time::sleep_until(t0 + Duration::from_millis(30_000 * u64::from(period) + 500)).await;
        let now = at(&read(), "running_latency");
        let near = |want: f64| (now - want).abs() <= 1e-6 * want.abs() + 1e-9;
        // (Nothing is said about a period without messages, except that there is a number.)
        let ok = if n == 0 { now == last || now == 0.0 } else { near(sum / f64::from(n)) };
        s.check(ok, "running latency is not the last period's", || {
            format!("period {period}: {now}, before {last}, {n} messages that took {sum} s together")
        });
        s.ev("periods", 1);
        s.state((n.min(3), scale as i64));
        last = now;
        if s.failed() {
            break;
        }
    }
    t.abort();
}

/// A message takes as long as its slowest receiver; it is counted when it is delivered.
async fn latency(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let b = w.broker_with("m", BrokerOpts { pool: Some(5_000_000), ..Default::default() }).await;
    sleep(Duration::from_millis(100)).await;
    let made = async { Ok::<_, String>((w.user(&b.id, 1, &[1]).await?, w.user(&b.id, 2, &[1]).await?, w.user(&b.id, 3, &[1]).await?)) };
    let (mut a, slow, quick) = match made.await {
        Ok(x) => x,
        Err(e) => return s.inconclusive(e),
    };
    sleep(Duration::from_millis(300)).await;
    let l = slow.link.clone().expect("a link");
    l.b2a.set_capacity(4096);
    for round in 0..3 {
        l.b2a.stall(true);
        let d = s.rng.gen_range(0.3..1.2);
        let n = s.rng.gen_range(10_000..100_000usize);
        let alone = s.rng.gen();
        let (m0, t0) = (read(), Instant::now());
        if alone {
            a.direct(&pk(2), &vec![7; n]).await;
        } else {
            a.broadcast(&[1], &vec![7; n]).await;
        }
        sleep(Duration::from_secs_f64(d)).await;
        let m1 = read();
        l.b2a.stall(false);
        let got = || {
            let count = |r: &Raw| r.inbox.lock().frames.iter().filter(|(_, f)| f.len() > 10_000).count();
            (count(&a), count(&slow), count(&quick))
        };
        let until = Instant::now() + Duration::from_secs(10);
        let mut m2 = read();
        while Instant::now() < until && at(&m2, "latency_count") == at(&m0, "latency_count") {
            sleep(Duration::from_millis(5)).await;
            m2 = read();
        }
        let took = t0.elapsed().as_secs_f64();
        let (early, count, sum) = (
            at(&m1, "latency_count") - at(&m0, "latency_count"),
            at(&m2, "latency_count") - at(&m0, "latency_count"),
            at(&m2, "latency_sum") - at(&m0, "latency_sum"),
        );
        s.log(format!("round {round}: {n} bytes, alone {alone}, held {d:.3} s: {count} latencies, {sum:.3} s, within {took:.3} s; {:?}", got()));
        s.check(early == 0.0, "latency of a message not yet delivered", || format!("after {d:.3} s, with a receiver that takes nothing: {early}"));
        s.check(count == 1.0, "latency is not of each message", || format!("{count} after one message"));
        s.check(sum >= d - 0.1 && sum <= took + 0.01, "latency is not how long it took", || {
            format!("{sum:.3} s; it was held back for {d:.3} s, and all was over within {took:.3} s")
        });
        sleep(Duration::from_millis(100)).await;
        let m3 = read();
        let sent = at(&m3, "total_bytes_sent") - at(&m0, "total_bytes_sent");
        let receivers = if alone { 1.0 } else { 3.0 };
        s.check(sent >= receivers * n as f64 && sent < receivers * (n as f64 + 200.0), "total_bytes_sent is not what happened", || {
            format!("{sent} for {n} bytes to {receivers} users")
        });
        s.ev("timed_messages", 1);
        s.state((round, alone, (d * 10.0) as u64));
        if s.failed() {
            return;
        }
    }
}

/// The answer to a request: its status and its body.
async fn get(addr: &str, method: &str, path: &str, limit: f64) -> Result<(u16, String), String> {
    timeout(Duration::from_secs_f64(limit), async {
        let mut c = TcpStream::connect(addr).await.map_err(|e| format!("connect: {e}"))?;
        let r = format!("{method} {path} HTTP/1.1\r\nHost: {addr}\r\nConnection: close\r\n\r\n");
        c.write_all(r.as_bytes()).await.map_err(|e| format!("write: {e}"))?;
        let mut v = vec![];
        c.read_to_end(&mut v).await.map_err(|e| format!("read: {e}"))?;
        let text = String::from_utf8(v).map_err(|e| e.to_string())?;
        let (head, body) = text.split_once("\r\n\r\n").ok_or_else(|| format!("no header in {text:?}"))?;
        let status = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| format!("no status in {head:?}"))?;
        Ok((status, body.to_string()))
    })
    .await
    .map_err(|_| "no answer".to_string())?
}

/// The values in the text format, and complaints about it.
fn parse(body: &str) -> Result<BTreeMap<String, f64>, String> {
    let mut m = BTreeMap::new();
    let mut typed = BTreeMap::new();
    for line in body.lines() {
        if let Some(x) = line.strip_prefix("# TYPE ") {
            let (name, kind) = x.split_once(' ').ok_or_else(|| format!("bad line {line:?}"))?;
            typed.insert(name.to_string(), kind.to_string());
        } else if !line.starts_with("# HELP ") && !line.is_empty() {
            let (name, value) = line.rsplit_once(' ').ok_or_else(|| format!("bad line {line:?}"))?;
            let value: f64 = value.parse().map_err(|_| format!("bad value in {line:?}"))?;
            let family = name.split('{').next().unwrap_or(name);
            let known = |n: &str| typed.contains_key(n);
            if !known(family) && !["_bucket", "_sum", "_count"].iter().any(|x| family.strip_suffix(x).is_some_and(known)) {
                return Err(format!("no type for {line:?}"));
            }
            if m.insert(name.to_string(), value).is_some() {
                return Err(format!("{name} twice"));
            }
        }
    }
    Ok(m)
}

async fn endpoint(s: &mut Scn) {
    let mut w = RealWorld::<Tcp, Tcp>::new();
    let (of_broker, of_marshal) = (free_addr(), free_addr());
    w.metrics = Some(of_broker.clone());
    let pool = Some(10_000_000);
    if let Err(e) = w.brokers(1, pool).await {
        return s.inconclusive(e);
    }
    w.metrics = Some(of_marshal.clone());
    let marshal = match w.marshal().await {
        Ok(m) => m,
        Err(e) => return s.inconclusive(e),
    };
    let c = Arc::new(w.client(&marshal, s.seed, vec![1]));
    match timeout(Duration::from_secs(30), c.ensure_initialized()).await {
        Ok(Ok(())) => {}
        x => return s.inconclusive(format!("client does not connect: {x:?}")),
    }
    let mut kept = vec![];
    let mut last: BTreeMap<String, f64> = BTreeMap::new();
    let rounds = if s.thorough { 30 } else { 8 };
    for round in 0..rounds {
        // Traffic.
        let n = s.rng.gen_range(1..20);
        let traffic = timeout(Duration::from_secs(20), async {
            for _ in 0..n {
                c.send_broadcast_message(vec![1], vec![3; 1000]).await?;
                c.receive_message().await?;
            }
            Ok::<_, cdn_proto::error::Error>(())
        });
        match traffic.await {
            Ok(Ok(())) => {}
            x => return s.fail("messages do not arrive", format!("round {round}: {x:?}")),
        }
        s.ev("messages", n);
        // Whoever else comes to that port.
        for addr in [&of_broker, &of_marshal] {
            for _ in 0..s.rng.gen_range(0..6) {
                let Ok(mut t) = TcpStream::connect(addr).await else {
                    return s.fail("metrics are not served", format!("round {round}: nobody listens at {addr}"));
                };
                let what = s.rng.gen_range(0..7);
                let junk: Vec<u8> = (0..s.rng.gen_range(1..5000)).map(|_| s.rng.gen()).collect();
                let _ = match what {
                    0 => t.write_all(&junk).await,
                    1 => t.write_all(b"GET /metrics HTTP/1.1\r\nHos").await,
                    2 => t.write_all(b"GET /metrics HTTP/1.1\r\n\r\n").await,
                    3 => t.write_all(b"POST /metrics HTTP/1.1\r\nContent-Length: 1000000\r\n\r\nx").await,
                    4 => t.write_all(format!("GET /{} HTTP/1.1\r\n\r\n", "a".repeat(junk.len() * 20)).as_bytes()).await,
                    _ => Ok(()),
                };
                s.ev("odd_visitors", 1);
                s.state((what, addr == &of_broker));
                if s.rng.gen() {
                    kept.push(t);
                }
            }
        }
        // Those who are right, some of them together.
        let many = s.rng.gen_range(1..20);
        for addr in [&of_broker, &of_marshal] {
            let jobs: Vec<_> = (0..many).map(|_| tokio::spawn({
                let a = addr.clone();
                async move { get(&a, "GET", "/metrics", 15.0).await }
            })).collect();
            for j in jobs {
                let answer = j.await.unwrap_or_else(|e| Err(e.to_string()));
                match answer {
                    Ok((200, body)) => match parse(&body) {
                        Ok(_) => {}
                        Err(e) => s.fail("metrics that cannot be read", e),
                    },
                    x => s.fail("metrics are not served", format!("round {round}: {x:?}")),
                }
                s.ev("pages", 1);
                s.ev("oracle_evaluations", 1);
            }
            for path in ["/", "/metric", "/metricsx", "/../metrics", "/admin"] {
                match get(addr, "GET", path, 15.0).await {
                    Ok((status, body)) => {
                        s.check(!(status == 200 && body.contains("total_bytes")), "metrics under another name", || path.to_string());
                    }
                    Err(e) => s.fail("metrics are not served", format!("{path}: {e}")),
                }
            }
        }
        if s.failed() {
            return;
        }
        // What is served is what is counted.
        let mut compared = false;
        for _ in 0..10 {
            sleep(Duration::from_millis(20)).await;
            let before = read();
            let (x, y) = (get(&of_broker, "GET", "/metrics", 15.0).await, get(&of_marshal, "GET", "/metrics", 15.0).await);
            if read() != before {
                continue;
            }
            for p in [x, y] {
                let page = match p.and_then(|(_, b)| parse(&b)) {
                    Ok(m) => m,
                    Err(e) => return s.fail("metrics are not served", e),
                };
                for (name, v) in &before {
                    let is = page.get(name).copied();
                    s.check(is.is_some_and(|x| (x - v).abs() <= 1e-9 * v.abs()), "metrics are not those counted", || {
                        format!("round {round}: {name} is {is:?}, counted {v}")
                    });
                }
                for name in ["total_bytes_sent", "total_bytes_recv", "num_users_connected", "latency_count"] {
                    s.check(page.contains_key(name), "metrics without a family", || name.to_string());
                }
            }
            for name in ["total_bytes_sent", "total_bytes_recv", "latency_count"] {
                let grown = at(&before, name) - at(&last, name);
                let least = if name == "latency_count" { n as f64 } else { 1000.0 * n as f64 };
                s.check(last.is_empty() || grown >= least, "metrics that stand still", || format!("{name} grew by {grown} with {n} messages"));
            }
            s.ev("comparisons", 1);
            last = before;
            compared = true;
            break;
        }
        if !compared {
            s.ev("uncomparable", 1);
        }
    }
    s.check(w.tasks.iter().all(|t| !t.is_finished()), "component stopped", || "broker or marshal ended".to_string());
}
