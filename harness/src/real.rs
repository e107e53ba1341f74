//! Deployments on the real transports (127.0.0.1), several threads, real time.
use std::marker::PhantomData;
use std::net::{TcpListener, UdpSocket};
use std::sync::atomic::{AtomicU16, Ordering};
use std::sync::Arc;
use std::time::Duration;

use cdn_broker::Broker;
use cdn_client::Client;
use cdn_marshal::Marshal;
use cdn_proto::connection::protocols::Protocol;
use cdn_proto::discovery::DiscoveryClient;
use cdn_proto::def::{ConnectionDef, RunDef};
use tokio::task::JoinHandle;

use crate::disco::{MemDisco, Service};
use crate::sig::{keypair, Ed};
use crate::world::{Hook, SimTopic, BROKER_KEY};

pub struct Side<P>(PhantomData<P>);
impl<P> Clone for Side<P> {
    fn clone(&self) -> Self {
        Self(PhantomData)
    }
}
impl<P: Protocol> ConnectionDef for Side<P> {
    type Scheme = Ed;
    type Protocol = P;
    type MessageHook = Hook;
}
pub struct RealDef<B, U, D = MemDisco>(PhantomData<(B, U, D)>);
impl<B: Protocol, U: Protocol, D: DiscoveryClient> RunDef for RealDef<B, U, D> {
    type Broker = Side<B>;
    type User = Side<U>;
    type DiscoveryClientType = D;
    type Topic = SimTopic;
}

static PORT: AtomicU16 = AtomicU16::new(0);

/// A local address nobody uses.
pub fn free_addr() -> String {
    loop {
        let mut p = PORT.fetch_add(1, Ordering::SeqCst);
        if p < 20_000 || p > 31_000 {
            let base = 20_000 + (std::process::id() % 100) as u16 * 100;
            let _ = PORT.compare_exchange(p + 1, base + 1, Ordering::SeqCst, Ordering::SeqCst);
            p = base;
        }
        let a = format!("127.0.0.1:{p}");
        if TcpListener::bind(&a).is_ok() && UdpSocket::bind(&a).is_ok() {
            return a;
        }
    }
}

pub struct RealWorld<B, U, D = MemDisco> {
    pub svc: Arc<Service>,
    pub path: String,
    pub tasks: Vec<JoinHandle<cdn_proto::error::Result<()>>>,
    /// Where the next broker or marshal serves its metrics.
    pub metrics: Option<String>,
    p: PhantomData<(B, U, D)>,
}

impl<B, U, D> Drop for RealWorld<B, U, D> {
    fn drop(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
}

static WORLDS: AtomicU16 = AtomicU16::new(0);

impl<B: Protocol, U: Protocol> RealWorld<B, U> {
    pub fn new() -> Self {
        let path = format!("real{}", WORLDS.fetch_add(1, Ordering::SeqCst));
        Self { svc: Service::new(&path), path, tasks: vec![], metrics: None, p: PhantomData }
    }
}
impl<B: Protocol, U: Protocol, D: DiscoveryClient> RealWorld<B, U, D> {
    /// With one of the real discovery clients (`svc` is then not used).
    pub fn over(path: String) -> Self {
        Self { svc: Service::new("unused"), path, tasks: vec![], metrics: None, p: PhantomData }
    }
    /// Start `n` brokers such that each finds and connects to its predecessors at once.  Returns the public endpoints.
    pub async fn brokers(&mut self, n: usize, pool: Option<usize>) -> Result<Vec<String>, String> {
        let mut addrs: Vec<(String, String)> = (0..n).map(|_| (free_addr(), free_addr())).collect();
        addrs.sort();
        addrs.reverse();
        for (i, a) in addrs.iter().enumerate() {
            self.broker(a.clone(), pool).await?;
            if !self.wait_brokers(i + 1).await {
                return Err("a broker does not register".into());
            }
        }
        Ok(addrs.into_iter().map(|a| a.0).collect())
    }
    pub async fn broker(&mut self, (public, private): (String, String), pool: Option<usize>) -> Result<(), String> {
        let b = Broker::<RealDef<B, U, D>>::new(cdn_broker::Config {
            public_advertise_endpoint: public.clone(),
            public_bind_endpoint: public,
            private_advertise_endpoint: private.clone(),
            private_bind_endpoint: private,
            metrics_bind_endpoint: self.metrics.take(),
            discovery_endpoint: self.path.clone(),
            keypair: keypair(BROKER_KEY),
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: pool,
            user_message_hook: Hook::default(),
            broker_message_hook: Hook::default(),
        })
        .await
        .map_err(|e| format!("broker: {e}"))?;
        self.tasks.push(tokio::spawn(b.start()));
        Ok(())
    }
    pub async fn marshal(&mut self) -> Result<String, String> {
        let ep = free_addr();
        let m = Marshal::<RealDef<B, U, D>>::new(cdn_marshal::Config {
            bind_endpoint: ep.clone(),
            discovery_endpoint: self.path.clone(),
            ca_cert_path: None,
            ca_key_path: None,
            metrics_bind_endpoint: self.metrics.take(),
            global_memory_pool_size: None,
        })
        .await
        .map_err(|e| format!("marshal: {e}"))?;
        self.tasks.push(tokio::spawn(m.start()));
        Ok(ep)
    }
    pub fn client(&self, marshal: &str, key: u64, topics: Vec<u8>) -> Client<Side<U>> {
        Client::new(cdn_client::Config {
            endpoint: marshal.to_string(),
            use_local_authority: true,
            keypair: keypair(key),
            subscribed_topics: topics,
        })
    }
    /// Wait until `n` brokers are registered.
    pub async fn wait_brokers(&self, n: usize) -> bool {
        let mut d = D::new(self.path.clone(), None).await.ok();
        for _ in 0..600 {
            if self.svc.st.lock().brokers.len() >= n {
                return true;
            }
            if let Some(d) = &mut d {
                if d.get_other_brokers().await.is_ok_and(|b| b.len() >= n) {
                    return true;
                }
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        false
    }
}
