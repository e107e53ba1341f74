//! The system under test on a `SimNet`, and the scripted users / peer brokers that talk to it.
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use anyhow::Result as AnyResult;
use cdn_broker::Broker;
use cdn_client::Client;
use cdn_marshal::Marshal;
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{Listener as _, UnfinalizedConnection as _, Protocol as _, Connection};
use cdn_proto::crypto::signature::{KeyPair, Namespace, Serializable as _};
use cdn_proto::def::{ConnectionDef, HookResult, MessageHookDef, RunDef, Topic as TopicTrait};
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::{
    AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message,
};
use parking_lot::Mutex;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::Notify;
use tokio::task::JoinHandle;
use tokio::time::{sleep, timeout, Instant};

use crate::disco::{MemDisco, Service};
use crate::net::{Faults, Link, Net, Sim, SimRead, SimWrite};
use crate::sig::{keypair, sign_raw, Ed};

/// The topics of the simulated deployment.
pub const VALID: [u8; 8] = [0, 1, 2, 3, 7, 42, 200, 255];
pub const INVALID: [u8; 5] = [4, 5, 43, 128, 254];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SimTopic(u8);
impl TryFrom<u8> for SimTopic {
    type Error = ();
    fn try_from(v: u8) -> Result<Self, ()> {
        if VALID.contains(&v) {
            Ok(Self(v))
        } else {
            Err(())
        }
    }
}
impl From<SimTopic> for u8 {
    fn from(t: SimTopic) -> u8 {
        t.0
    }
}
impl TopicTrait for SimTopic {}

type HookFn = dyn Fn(u64, &mut Message) -> AnyResult<HookResult> + Send + Sync;

/// What one call of a hook was.
#[derive(Clone, Debug)]
pub struct HookCall {
    pub instance: u64,
    pub identifier: u64,
    /// How many calls this instance had before.
    pub nth: u64,
}
type HookFn2 = dyn Fn(&HookCall, &mut Message) -> AnyResult<HookResult> + Send + Sync;

/// A scripted message hook; `clone` and `set_identifier` behave as a user's hook would.
#[derive(Default)]
pub struct Hook {
    pub f: Option<Arc<HookFn>>,
    pub g: Option<Arc<HookFn2>>,
    pub identifier: u64,
    calls: u64,
    instance: u64,
}
static INSTANCES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
impl Clone for Hook {
    fn clone(&self) -> Self {
        Self {
            f: self.f.clone(),
            g: self.g.clone(),
            identifier: self.identifier,
            calls: self.calls,
            instance: INSTANCES.fetch_add(1, std::sync::atomic::Ordering::SeqCst),
        }
    }
}
impl Hook {
    pub fn new(f: impl Fn(u64, &mut Message) -> AnyResult<HookResult> + Send + Sync + 'static) -> Self {
        Self { f: Some(Arc::new(f)), ..Self::default() }
    }
    pub fn watching(g: impl Fn(&HookCall, &mut Message) -> AnyResult<HookResult> + Send + Sync + 'static) -> Self {
        Self { g: Some(Arc::new(g)), ..Self::default() }
    }
}
impl MessageHookDef for Hook {
    fn on_message_received(&mut self, message: &mut Message) -> AnyResult<HookResult> {
        if let Some(g) = &self.g {
            let call = HookCall { instance: self.instance, identifier: self.identifier, nth: self.calls };
            self.calls += 1;
            return g(&call, message);
        }
        match &self.f {
            None => Ok(HookResult::ProcessMessage),
            Some(f) => f(self.identifier, message),
        }
    }
    fn set_identifier(&mut self, identifier: u64) {
        self.identifier = identifier;
    }
}

#[derive(Clone)]
pub struct UserSide;
impl ConnectionDef for UserSide {
    type Scheme = Ed;
    type Protocol = Sim;
    type MessageHook = Hook;
}
pub struct BrokerSide;
impl ConnectionDef for BrokerSide {
    type Scheme = Ed;
    type Protocol = Sim;
    type MessageHook = Hook;
}
pub struct Def;
impl RunDef for Def {
    type Broker = BrokerSide;
    type User = UserSide;
    type DiscoveryClientType = MemDisco;
    type Topic = SimTopic;
}

pub struct BrokerOpts {
    pub pool: Option<usize>,
    pub user_hook: Hook,
    pub broker_hook: Hook,
    pub key: u64,
}
impl Default for BrokerOpts {
    fn default() -> Self {
        Self { pool: None, user_hook: Hook::default(), broker_hook: Hook::default(), key: BROKER_KEY }
    }
}
/// The key pair all legitimate brokers of a deployment share.
pub const BROKER_KEY: u64 = 777_000;

pub struct BrokerH {
    pub name: String,
    pub id: BrokerIdentifier,
    pub task: JoinHandle<cdn_proto::error::Result<()>>,
}
impl BrokerH {
    pub fn exited(&self) -> bool {
        self.task.is_finished()
    }
}
impl Drop for BrokerH {
    fn drop(&mut self) {
        self.task.abort();
    }
}

pub struct World {
    pub net: Arc<Net>,
    pub svc: Arc<Service>,
    pub path: String,
}

impl World {
    pub fn new(seed: u64, faults: Faults) -> Self {
        let net = Net::new(seed, faults);
        let path = format!("disco{}", net.id);
        let svc = Service::new(&path);
        Self { net, svc, path }
    }

    pub fn broker_id(&self, name: &str) -> BrokerIdentifier {
        BrokerIdentifier {
            public_advertise_endpoint: self.net.ep(&format!("{name}.pub")),
            private_advertise_endpoint: self.net.ep(&format!("{name}.prv")),
        }
    }

    pub async fn broker(&self, name: &str) -> BrokerH {
        self.broker_with(name, BrokerOpts::default()).await
    }

    pub async fn broker_with(&self, name: &str, o: BrokerOpts) -> BrokerH {
        let id = self.broker_id(name);
        let broker = Broker::<Def>::new(cdn_broker::Config {
            public_advertise_endpoint: id.public_advertise_endpoint.clone(),
            public_bind_endpoint: format!("{}.bind", id.public_advertise_endpoint),
            private_advertise_endpoint: id.private_advertise_endpoint.clone(),
            private_bind_endpoint: format!("{}.bind", id.private_advertise_endpoint),
            metrics_bind_endpoint: None,
            discovery_endpoint: self.path.clone(),
            keypair: keypair(o.key),
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: o.pool,
            user_message_hook: o.user_hook,
            broker_message_hook: o.broker_hook,
        })
        .await
        .expect("broker starts");
        BrokerH { name: name.to_string(), id, task: tokio::spawn(broker.start()) }
    }

    /// Drop what the harness itself keeps of the past.
    pub fn forget(&self) {
        self.net.forget();
        let mut st = self.svc.st.lock();
        st.calls = vec![];
        st.permits = Default::default();
        drop(st);
        *self.svc.issued.lock() = Default::default();
    }

    /// The process of this broker is gone: its tasks stop, its sockets reset, nobody listens any more.
    pub async fn crash(&self, b: BrokerH) {
        b.task.abort();
        drop(b.task.abort_handle());
        let marks = [self.net.ep(&format!("{}.pub", b.name)), self.net.ep(&format!("{}.prv", b.name))];
        for l in self.net.links() {
            if marks.iter().any(|m| l.mentions(m)) {
                l.reset();
            }
        }
        drop(b);
        tokio::task::yield_now().await;
        sleep(Duration::from_millis(1)).await;
        for l in self.net.links() {
            if marks.iter().any(|m| l.mentions(m)) {
                l.reset();
            }
        }
    }

    pub async fn marshal(&self, name: &str, pool: Option<usize>) -> (String, JoinHandle<cdn_proto::error::Result<()>>) {
        let ep = self.net.ep(name);
        let m = Marshal::<Def>::new(cdn_marshal::Config {
            bind_endpoint: ep.clone(),
            discovery_endpoint: self.path.clone(),
            ca_cert_path: None,
            ca_key_path: None,
            metrics_bind_endpoint: None,
            global_memory_pool_size: pool,
        })
        .await
        .expect("marshal starts");
        (ep, tokio::spawn(m.start()))
    }

    pub fn client(&self, marshal: &str, key: u64, topics: Vec<u8>) -> Client<UserSide> {
        Client::new(cdn_client::Config {
            endpoint: marshal.to_string(),
            use_local_authority: true,
            keypair: keypair(key),
            subscribed_topics: topics,
        })
    }

    /// A user with key `key` on broker `b`, authenticated with a fresh permit.
    pub async fn user(&self, b: &BrokerIdentifier, key: u64, topics: &[u8]) -> Result<Raw, String> {
        self.user_with_key(b, pk(key), topics).await
    }
    pub async fn user_with_key(&self, b: &BrokerIdentifier, key: Vec<u8>, topics: &[u8]) -> Result<Raw, String> {
        let permit = self.svc.permit(b, key);
        let mut r = self.raw(&b.public_advertise_endpoint).await?;
        r.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
        match r.next(Duration::from_secs(20)).await {
            Some(Message::AuthenticateResponse(a)) if a.permit == 1 => {}
            x => return Err(format!("broker's answer to a valid permit: {x:?}")),
        }
        r.send(&Message::Subscribe(topics.to_vec())).await;
        Ok(r)
    }

    pub async fn raw(&self, endpoint: &str) -> Result<Raw, String> {
        let (r, w, link) = self.net.dial(endpoint).await.map_err(|e| format!("dial {endpoint}: {e}"))?;
        Ok(Raw::new(r, w, Some(link)))
    }

    /// A connection whose handshake never comes.
    pub async fn mute(&self, endpoint: &str) -> Result<Raw, String> {
        let (r, w, link) = self.net.dial_mute(endpoint).await.map_err(|e| format!("dial {endpoint}: {e}"))?;
        Ok(Raw::new(r, w, Some(link)))
    }

    /// A peer broker (scripted) that connects to broker `b`'s private endpoint.
    pub async fn peer(&self, b: &BrokerIdentifier, name: &str) -> Result<Raw, String> {
        let mut r = self.raw(&b.private_advertise_endpoint).await?;
        r.send(&auth_with_key(Namespace::BrokerBrokerAuth.as_str(), BROKER_KEY, now_secs())).await;
        match r.next(Duration::from_secs(20)).await {
            Some(Message::AuthenticateResponse(a)) if a.permit == 1 && a.context == b.to_string() => {}
            x => return Err(format!("broker's answer to a valid peer: {x:?}")),
        }
        match r.next(Duration::from_secs(20)).await {
            Some(Message::AuthenticateWithKey(_)) => {}
            x => return Err(format!("broker's own authentication: {x:?}")),
        }
        r.send(&Message::AuthenticateResponse(AuthenticateResponse {
            permit: 1,
            context: self.broker_id(name).to_string(),
        }))
        .await;
        Ok(r)
    }
}

pub fn pk(key: u64) -> Vec<u8> {
    keypair(key).public_key.serialize().expect("infallible")
}

pub fn now_secs() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).expect("after 1970").as_secs()
}

pub fn auth_with_key(namespace: &str, key: u64, timestamp: u64) -> Message {
    let KeyPair::<Ed> { public_key, private_key } = keypair(key);
    Message::AuthenticateWithKey(AuthenticateWithKey {
        public_key: public_key.serialize().expect("infallible"),
        timestamp,
        signature: sign_raw(&private_key, namespace, &timestamp.to_le_bytes()),
    })
}

/// Let everything in flight arrive (virtual time).
pub async fn settle() {
    sleep(Duration::from_millis(300)).await;
}
pub async fn secs(n: f64) {
    sleep(Duration::from_secs_f64(n)).await;
}

#[derive(Default)]
pub struct Inbox {
    pub frames: Vec<(Instant, Vec<u8>)>,
    pub closed: Option<Instant>,
}

/// The harness's end of a connection: its own framing over a raw stream.
pub struct Raw {
    w: Option<SimWrite>,
    pub link: Option<Arc<Link>>,
    pub inbox: Arc<Mutex<Inbox>>,
    notify: Arc<Notify>,
    reader: JoinHandle<()>,
    pub cursor: usize,
    /// Messages sent (for logs).
    pub sent: u64,
    /// Bytes of the frames sent, without their lengths.
    pub sent_bytes: u64,
}

impl Drop for Raw {
    fn drop(&mut self) {
        self.reader.abort();
    }
}

impl Raw {
    pub fn new(mut r: SimRead, w: SimWrite, link: Option<Arc<Link>>) -> Self {
        let inbox = Arc::new(Mutex::new(Inbox::default()));
        let notify = Arc::new(Notify::new());
        let (i2, n2) = (inbox.clone(), notify.clone());
        let reader = tokio::spawn(async move {
            loop {
                let frame = async {
                    let n = r.read_u32().await?;
                    let mut v = vec![0; n as usize];
                    r.read_exact(&mut v).await?;
                    Ok::<_, std::io::Error>(v)
                }
                .await;
                let stop = frame.is_err();
                {
                    let mut i = i2.lock();
                    match frame {
                        Ok(v) => i.frames.push((Instant::now(), v)),
                        Err(_) => i.closed = Some(Instant::now()),
                    }
                }
                n2.notify_waiters();
                n2.notify_one();
                if stop {
                    return;
                }
            }
        });
        Self { w: Some(w), link, inbox, notify, reader, cursor: 0, sent: 0, sent_bytes: 0 }
    }

    pub async fn send(&mut self, m: &Message) -> bool {
        let bytes = m.serialize().expect("serializes");
        self.send_frame(&bytes).await
    }
    pub async fn send_frame(&mut self, bytes: &[u8]) -> bool {
        let mut v = (bytes.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(bytes);
        let ok = self.send_bytes(&v).await;
        self.sent_bytes += bytes.len() as u64;
        ok
    }
    pub async fn send_bytes(&mut self, bytes: &[u8]) -> bool {
        self.sent += 1;
        match &mut self.w {
            Some(w) => w.write_all(bytes).await.is_ok(),
            None => false,
        }
    }
    pub async fn broadcast(&mut self, topics: &[u8], payload: &[u8]) -> bool {
        self.send(&Message::Broadcast(Broadcast { topics: topics.to_vec(), message: payload.to_vec() })).await
    }
    pub async fn direct(&mut self, to: &[u8], payload: &[u8]) -> bool {
        self.send(&Message::Direct(Direct { recipient: to.to_vec(), message: payload.to_vec() })).await
    }
    pub async fn subscribe(&mut self, topics: &[u8]) -> bool {
        self.send(&Message::Subscribe(topics.to_vec())).await
    }
    pub async fn unsubscribe(&mut self, topics: &[u8]) -> bool {
        self.send(&Message::Unsubscribe(topics.to_vec())).await
    }

    /// The next frame not yet taken.
    pub async fn next_frame(&mut self, limit: Duration) -> Option<Vec<u8>> {
        let until = Instant::now() + limit;
        loop {
            let wait = self.notify.notified();
            {
                let i = self.inbox.lock();
                if let Some((_, f)) = i.frames.get(self.cursor) {
                    self.cursor += 1;
                    return Some(f.clone());
                }
                if i.closed.is_some() {
                    return None;
                }
            }
            if Instant::now() >= until || timeout(until - Instant::now(), wait).await.is_err() {
                let i = self.inbox.lock();
                let f = i.frames.get(self.cursor).map(|f| f.1.clone());
                if f.is_some() {
                    self.cursor += 1;
                }
                return f;
            }
        }
    }
    pub async fn next(&mut self, limit: Duration) -> Option<Message> {
        let f = self.next_frame(limit).await?;
        Some(Message::deserialize(&f).unwrap_or_else(|e| {
            Message::AuthenticateResponse(AuthenticateResponse { permit: u64::MAX, context: format!("undecodable frame: {e}") })
        }))
    }
    /// Everything that has arrived and was not yet taken.
    pub fn drain(&mut self) -> Vec<Message> {
        self.drain_at().into_iter().map(|(_, m)| m).collect()
    }
    pub fn drain_at(&mut self) -> Vec<(Instant, Message)> {
        let i = self.inbox.lock();
        let out = i.frames[self.cursor..]
            .iter()
            .map(|(t, f)| {
                (
                    *t,
                    Message::deserialize(f).unwrap_or_else(|e| {
                        Message::AuthenticateResponse(AuthenticateResponse {
                            permit: u64::MAX,
                            context: format!("undecodable frame: {e}"),
                        })
                    }),
                )
            })
            .collect();
        self.cursor = i.frames.len();
        out
    }
    pub fn closed(&self) -> bool {
        self.inbox.lock().closed.is_some()
    }
    pub fn closed_at(&self) -> Option<Instant> {
        self.inbox.lock().closed
    }
    pub async fn wait_closed(&self, limit: Duration) -> bool {
        let until = Instant::now() + limit;
        while !self.closed() {
            if Instant::now() >= until {
                return false;
            }
            sleep(Duration::from_millis(10)).await;
        }
        true
    }
    pub fn take_writer(&mut self) -> Option<SimWrite> {
        self.w.take()
    }
    /// Close our writing half (the other side sees the end of the stream).
    pub fn close_write(&mut self) {
        self.w = None;
    }
    /// Go away altogether.
    pub fn hang_up(&mut self) {
        self.w = None;
        self.reader.abort();
        if let Some(l) = &self.link {
            l.eof();
        }
    }
}

/// A `Connection` of the code under test, over a `SimNet` link, with a raw other end.
pub async fn connection_pair(net: &Arc<Net>, name: &str, limiter: Limiter) -> (Connection, Raw) {
    let ep = net.ep(name);
    let l = net.listen(&ep);
    let c = Sim::connect(&ep, true, limiter).await.expect("connects");
    let (r, w) = l.accept_raw().await.expect("accepts");
    let link = net.links_to(&ep).pop();
    (c, Raw::new(r, w, link))
}
/// Two `Connection`s of the code under test joined by a link.
pub async fn connection_pair2(net: &Arc<Net>, name: &str, la: Limiter, lb: Limiter) -> (Connection, Connection, Arc<Link>) {
    let ep = net.ep(name);
    let l = net.listen(&ep);
    let c = Sim::connect(&ep, true, la).await.expect("connects");
    let u = l.accept().await.expect("accepts");
    let d = u.finalize(lb).await.expect("finalizes");
    (c, d, net.links_to(&ep).pop().expect("just made"))
}
