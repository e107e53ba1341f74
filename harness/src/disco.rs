//! `MemDisco`: an in-memory discovery service in (virtual) tokio time, with injectable faults and a log of calls.
//! It is the environment of the brokers and the marshal, not the code under test (the real `Embedded` and `Redis`
//! clients have checks of their own).
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Weak};
use std::time::Duration;

use async_trait::async_trait;
use cdn_proto::connection::UserPublicKey;
use cdn_proto::discovery::{BrokerIdentifier, DiscoveryClient};
use cdn_proto::error::{Error, Result};
use parking_lot::Mutex;
use tokio::time::{sleep, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Heartbeat,
    Least,
    Others,
    Issue,
    Validate,
    CheckWhitelist,
}

#[derive(Clone, Debug)]
pub enum Fault {
    Err,
    Hang,
    Delay(Duration),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub at: Instant,
    pub op: Op,
    pub who: String,
    pub arg: String,
    pub num: u64,
}

#[derive(Default)]
pub struct State {
    pub brokers: BTreeMap<String, (u64, Instant)>,
    /// (broker, permit) -> (key, expiry)
    pub permits: HashMap<(String, u64), (Vec<u8>, Instant)>,
    pub whitelist: Option<HashSet<Vec<u8>>>,
    /// Faults: for an op, optionally only for one caller (by its identifier).
    pub faults: Vec<(Op, Option<String>, Fault)>,
    /// Faults for an op with this argument.
    pub arg_faults: Vec<(Op, String, Fault)>,
    pub calls: Vec<Call>,
    pub next_permit: u64,
    /// If set, what `get_with_least_connections` answers.
    pub pin: Option<String>,
}

#[derive(Default)]
pub struct Service {
    pub st: Mutex<State>,
    /// Whom each permit ever issued was for.
    pub issued: Mutex<HashMap<u64, Vec<u8>>>,
}

static SERVICES: Mutex<Option<HashMap<String, Weak<Service>>>> = Mutex::new(None);

impl Service {
    pub fn new(path: &str) -> Arc<Self> {
        let s = Arc::new(Self::default());
        s.st.lock().next_permit = 1000;
        SERVICES.lock().get_or_insert_with(HashMap::new).insert(path.to_string(), Arc::downgrade(&s));
        s
    }
    /// Issue a permit directly, as a marshal would.
    pub fn permit(&self, broker: &BrokerIdentifier, key: Vec<u8>) -> u64 {
        let mut st = self.st.lock();
        st.next_permit += 1;
        let p = st.next_permit;
        self.issued.lock().insert(p, key.clone());
        st.permits.insert((broker.to_string(), p), (key, Instant::now() + Duration::from_secs(30)));
        p
    }
    pub fn fault(&self, op: Op, who: Option<String>, f: Fault) {
        self.st.lock().faults.push((op, who, f));
    }
    /// Looking this user up on the whitelist fails.
    pub fn fault_lookup(&self, user: &[u8], f: Fault) {
        self.st.lock().arg_faults.push((Op::CheckWhitelist, format!("{user:?}"), f));
    }
    pub fn clear_faults(&self) {
        let mut st = self.st.lock();
        st.faults.clear();
        st.arg_faults.clear();
    }
    pub fn calls(&self, op: Op) -> Vec<Call> {
        self.st.lock().calls.iter().filter(|c| c.op == op).cloned().collect()
    }
    pub fn set_whitelist(&self, w: Option<Vec<Vec<u8>>>) {
        self.st.lock().whitelist = w.map(|w| w.into_iter().collect());
    }
}

#[derive(Clone)]
pub struct MemDisco {
    svc: Arc<Service>,
    id: String,
}

impl MemDisco {
    async fn enter(&self, op: Op, arg: String, num: u64) -> Result<()> {
        let f = {
            let mut st = self.svc.st.lock();
            let by_arg = st.arg_faults.iter().find(|(o, a, _)| *o == op && *a == arg).map(|(_, _, f)| f.clone());
            st.calls.push(Call { at: Instant::now(), op, who: self.id.clone(), arg, num });
            by_arg.or_else(|| {
                st.faults
                    .iter()
                    .find(|(o, w, _)| *o == op && w.as_ref().is_none_or(|w| *w == self.id))
                    .map(|(_, _, f)| f.clone())
            })
        };
        match f {
            None => Ok(()),
            Some(Fault::Err) => {
                // Even that takes a moment.
                sleep(Duration::from_millis(1)).await;
                Err(Error::Connection("injected discovery failure".into()))
            }
            Some(Fault::Hang) => {
                std::future::pending::<()>().await;
                Ok(())
            }
            Some(Fault::Delay(d)) => {
                sleep(d).await;
                Ok(())
            }
        }
    }
}

#[async_trait]
impl DiscoveryClient for MemDisco {
    async fn new(path: String, identity: Option<BrokerIdentifier>) -> Result<Self> {
        let svc = SERVICES.lock().as_ref().and_then(|s| s.get(&path)).and_then(Weak::upgrade);
        Ok(Self {
            svc: svc.ok_or_else(|| Error::Connection(format!("no discovery service {path}")))?,
            id: identity.map_or(String::new(), |i| i.to_string()),
        })
    }
    async fn perform_heartbeat(&mut self, num_connections: u64, heartbeat_expiry: Duration) -> Result<()> {
        self.enter(Op::Heartbeat, format!("{heartbeat_expiry:?}"), num_connections).await?;
        self.svc.st.lock().brokers.insert(self.id.clone(), (num_connections, Instant::now() + heartbeat_expiry));
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        self.enter(Op::Least, String::new(), 0).await?;
        let st = self.svc.st.lock();
        if let Some(p) = &st.pin {
            return p.clone().try_into();
        }
        let now = Instant::now();
        st.brokers
            .iter()
            .filter(|(_, (_, e))| *e > now)
            .min_by_key(|(b, (n, _))| {
                n + st.permits.iter().filter(|((pb, _), (_, e))| pb == *b && *e > now).count() as u64
            })
            .ok_or_else(|| Error::Connection("no brokers".into()))?
            .0
            .clone()
            .try_into()
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        self.enter(Op::Others, String::new(), 0).await?;
        let st = self.svc.st.lock();
        let now = Instant::now();
        st.brokers
            .iter()
            .filter(|(b, (_, e))| **b != self.id && *e > now)
            .map(|(b, _)| b.clone().try_into())
            .collect()
    }
    async fn issue_permit(&mut self, for_broker: &BrokerIdentifier, expiry: Duration, public_key: Vec<u8>) -> Result<u64> {
        self.enter(Op::Issue, format!("{for_broker} {expiry:?} {public_key:?}"), 0).await?;
        let mut st = self.svc.st.lock();
        st.next_permit += 1;
        let p = st.next_permit;
        self.svc.issued.lock().insert(p, public_key.clone());
        st.permits.insert((for_broker.to_string(), p), (public_key, Instant::now() + expiry));
        Ok(p)
    }
    async fn validate_permit(&mut self, broker: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        self.enter(Op::Validate, broker.to_string(), permit).await?;
        let mut st = self.svc.st.lock();
        let now = Instant::now();
        Ok(st.permits.remove(&(broker.to_string(), permit)).filter(|(_, e)| *e > now).map(|(k, _)| k))
    }
    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        self.svc.set_whitelist(Some(users.into_iter().map(|u| u.as_ref().clone()).collect()));
        Ok(())
    }
    async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
        self.enter(Op::CheckWhitelist, format!("{user:?}"), 0).await?;
        Ok(self.svc.st.lock().whitelist.as_ref().is_none_or(|w| w.contains(user.as_ref())))
    }
}
