//! A scripted marshal and broker for real clients to connect to, and the record of what the clients did.
use std::collections::{BTreeSet, VecDeque};
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::message::{AuthenticateResponse, Broadcast, Direct, Message};
use parking_lot::Mutex;
use tokio::task::JoinHandle;
use tokio::time::{sleep, Instant};

use crate::net::{Link, Net};
use crate::world::{Raw, VALID};

/// What the marshal does to the next connection.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Good,
    Refuse,
    Reserved,
    Junk,
    WrongKind,
    Silent,
    CloseAtOnce,
    CloseAfterRequest,
    HalfAnswer,
    DeadBroker,
    NonsenseBroker,
}
pub const BAD_M: [M; 10] = [
    M::Refuse, M::Reserved, M::Junk, M::WrongKind, M::Silent, M::CloseAtOnce, M::CloseAfterRequest, M::HalfAnswer,
    M::DeadBroker, M::NonsenseBroker,
];
/// What the broker does to the next connection.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Good,
    Refuse,
    Junk,
    WrongKind,
    Silent,
    CloseAtOnce,
    CloseAfterPermit,
    HalfAnswer,
    /// Accepts the permit and closes.
    CloseAfterAnswer,
}
pub const BAD_B: [B; 8] = [
    B::Refuse, B::Junk, B::WrongKind, B::Silent, B::CloseAtOnce, B::CloseAfterPermit, B::HalfAnswer, B::CloseAfterAnswer,
];

pub struct Session {
    pub opened: Instant,
    /// The client's side ended it (or the network did).
    pub ended: Option<Instant>,
    pub subs: BTreeSet<u8>,
    /// Subscribe / Unsubscribe messages after the initial one, as received.
    pub changes: Vec<Message>,
    pub msgs: Vec<(Instant, Vec<u8>)>,
    pub link: Arc<Link>,
    pub protocol_breaks: Vec<String>,
    to_client: tokio::sync::mpsc::UnboundedSender<Message>,
}
impl Session {
    pub fn push(&self, m: Message) {
        let _ = self.to_client.send(m);
    }
}

#[derive(Default)]
pub struct Log {
    /// Connections to the marshal: when, and what was done.
    pub marshal: Vec<(Instant, M)>,
    pub broker: Vec<(Instant, B)>,
    pub sessions: Vec<Session>,
    pub plan_m: VecDeque<M>,
    pub plan_b: VecDeque<B>,
    pub default_m: Option<M>,
    pub default_b: Option<B>,
    pub permits: BTreeSet<u64>,
    pub next_permit: u64,
}

pub struct Station {
    pub net: Arc<Net>,
    pub marshal_ep: String,
    pub broker_ep: String,
    pub log: Arc<Mutex<Log>>,
    tasks: Vec<JoinHandle<()>>,
}

impl Drop for Station {
    fn drop(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
}

fn answer(permit: u64, context: &str) -> Message {
    Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.to_string() })
}

const LONG: Duration = Duration::from_secs(1_000_000);

impl Station {
    pub fn new(net: &Arc<Net>) -> Self {
        let (marshal_ep, broker_ep) = (net.ep("marshal"), net.ep("broker.pub"));
        let log = Arc::new(Mutex::new(Log { next_permit: 2, ..Log::default() }));
        let ml = net.listen(&marshal_ep);
        let bl = net.listen(&broker_ep);
        let (l1, l2, n1, n2) = (log.clone(), log.clone(), net.clone(), net.clone());
        let (e1, e2, be) = (marshal_ep.clone(), broker_ep.clone(), broker_ep.clone());
        let t1 = tokio::spawn(async move {
            while let Some((r, w)) = ml.accept_raw().await {
                let link = n1.links_to(&e1).pop();
                let raw = Raw::new(r, w, link);
                let mode = {
                    let mut l = l1.lock();
                    let d = l.default_m.unwrap_or(M::Good);
                    let m = l.plan_m.pop_front().unwrap_or(d);
                    l.marshal.push((Instant::now(), m));
                    m
                };
                tokio::spawn(Self::marshal(raw, mode, be.clone(), l1.clone(), n1.ep("nobody")));
            }
        });
        let t2 = tokio::spawn(async move {
            while let Some((r, w)) = bl.accept_raw().await {
                let link = n2.links_to(&e2).pop().expect("just made");
                let raw = Raw::new(r, w, Some(link));
                let mode = {
                    let mut l = l2.lock();
                    let d = l.default_b.unwrap_or(B::Good);
                    let m = l.plan_b.pop_front().unwrap_or(d);
                    l.broker.push((Instant::now(), m));
                    m
                };
                tokio::spawn(Self::broker(raw, mode, l2.clone()));
            }
        });
        Self { net: net.clone(), marshal_ep, broker_ep, log, tasks: vec![t1, t2] }
    }

    async fn marshal(mut raw: Raw, mode: M, broker: String, log: Arc<Mutex<Log>>, nobody: String) {
        if mode == M::CloseAtOnce {
            return raw.hang_up();
        }
        let Some(Message::AuthenticateWithKey(_)) = raw.next(LONG).await else { return raw.hang_up() };
        match mode {
            M::CloseAfterRequest => return raw.hang_up(),
            M::Silent => {
                while raw.next(LONG).await.is_some() {}
            }
            M::Refuse => {
                raw.send(&answer(0, "no")).await;
            }
            M::Reserved => {
                raw.send(&answer(1, &broker)).await;
            }
            M::Junk => {
                raw.send_frame(b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff").await;
            }
            M::WrongKind => {
                raw.send(&Message::Subscribe(vec![1])).await;
            }
            M::HalfAnswer => {
                let b = answer(99, &broker).serialize().expect("serializes");
                let mut v = (b.len() as u32).to_be_bytes().to_vec();
                v.extend_from_slice(&b[..b.len() / 2]);
                raw.send_bytes(&v).await;
                sleep(Duration::from_millis(5)).await;
                return raw.hang_up();
            }
            M::DeadBroker => {
                raw.send(&answer(99, &nobody)).await;
            }
            M::NonsenseBroker => {
                raw.send(&answer(99, "")).await;
            }
            M::Good | M::CloseAtOnce => {
                let p = {
                    let mut l = log.lock();
                    l.next_permit += 1;
                    let p = l.next_permit;
                    l.permits.insert(p);
                    p
                };
                raw.send(&answer(p, &broker)).await;
            }
        }
        while raw.next(LONG).await.is_some() {}
    }

    async fn broker(mut raw: Raw, mode: B, log: Arc<Mutex<Log>>) {
        if mode == B::CloseAtOnce {
            return raw.hang_up();
        }
        let Some(Message::AuthenticateWithPermit(p)) = raw.next(LONG).await else { return raw.hang_up() };
        match mode {
            B::CloseAfterPermit => return raw.hang_up(),
            B::Silent => {
                while raw.next(LONG).await.is_some() {}
                return;
            }
            B::Refuse => {
                raw.send(&answer(0, "no")).await;
            }
            B::Junk => {
                raw.send_frame(&[7; 64]).await;
            }
            B::WrongKind => {
                raw.send(&Message::Direct(Direct { recipient: vec![], message: vec![] })).await;
            }
            B::HalfAnswer => {
                raw.send_bytes(&[0, 0, 0, 32, 0, 0]).await;
                sleep(Duration::from_millis(5)).await;
                return raw.hang_up();
            }
            B::CloseAfterAnswer => {
                raw.send(&answer(1, "")).await;
                return raw.hang_up();
            }
            B::Good | B::CloseAtOnce => {
                if !log.lock().permits.remove(&p.permit) {
                    raw.send(&answer(0, "unknown permit")).await;
                    return raw.hang_up();
                }
                raw.send(&answer(1, "")).await;
                return Self::session(raw, log).await;
            }
        }
        while raw.next(LONG).await.is_some() {}
    }

    async fn session(mut raw: Raw, log: Arc<Mutex<Log>>) {
        let Some(Message::Subscribe(t)) = raw.next(LONG).await else { return raw.hang_up() };
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let i = {
            let mut l = log.lock();
            l.sessions.push(Session {
                opened: Instant::now(),
                ended: None,
                subs: t.into_iter().collect(),
                changes: vec![],
                msgs: vec![],
                link: raw.link.clone().expect("set"),
                protocol_breaks: vec![],
                to_client: tx,
            });
            l.sessions.len() - 1
        };
        loop {
            tokio::select! {
                m = rx.recv() => {
                    if let Some(m) = m {
                        raw.send(&m).await;
                    }
                }
                m = raw.next(LONG) => {
                    let mut l = log.lock();
                    let x = &mut l.sessions[i];
                    match m {
                        None => {
                            x.ended = Some(Instant::now());
                            drop(l);
                            return raw.hang_up();
                        }
                        Some(Message::Subscribe(t)) => {
                            if !t.iter().any(|y| VALID.contains(y)) {
                                // What the real broker does.
                                x.protocol_breaks.push("subscription to nothing valid".into());
                                x.ended = Some(Instant::now());
                                drop(l);
                                return raw.hang_up();
                            }
                            x.subs.extend(t.iter().copied());
                            x.changes.push(Message::Subscribe(t));
                        }
                        Some(Message::Unsubscribe(t)) => {
                            if !t.iter().any(|y| VALID.contains(y)) {
                                x.protocol_breaks.push("unsubscription from nothing valid".into());
                                x.ended = Some(Instant::now());
                                drop(l);
                                return raw.hang_up();
                            }
                            for y in &t {
                                x.subs.remove(y);
                            }
                            x.changes.push(Message::Unsubscribe(t));
                        }
                        Some(Message::Broadcast(Broadcast { message, .. }) | Message::Direct(Direct { message, .. })) => {
                            x.msgs.push((Instant::now(), message));
                        }
                        Some(o) => x.protocol_breaks.push(format!("{o:?}")),
                    }
                }
            }
        }
    }

    pub fn open_sessions(&self) -> Vec<usize> {
        let l = self.log.lock();
        (0..l.sessions.len()).filter(|i| l.sessions[*i].ended.is_none()).collect()
    }
    pub fn n_sessions(&self) -> usize {
        self.log.lock().sessions.len()
    }
    pub fn n_attempts(&self) -> usize {
        self.net.attempts.lock().len()
    }
}
