//! Real clients with a task that keeps receiving.
use std::sync::Arc;
use std::time::Duration;

use cdn_client::Client;
use cdn_proto::message::Message;
use parking_lot::Mutex;
use tokio::task::JoinHandle;
use tokio::time::{sleep, timeout, Instant};

use crate::world::{UserSide, World};

#[derive(Default)]
pub struct Box_ {
    pub msgs: Vec<(Instant, Message)>,
    pub errs: Vec<(Instant, String)>,
}

pub struct ClientH {
    pub c: Client<UserSide>,
    pub key: u64,
    pub inbox: Arc<Mutex<Box_>>,
    task: JoinHandle<()>,
}

impl Drop for ClientH {
    fn drop(&mut self) {
        self.task.abort();
    }
}

impl ClientH {
    pub fn new(w: &World, marshal: &str, key: u64, topics: Vec<u8>) -> Self {
        let c = w.client(marshal, key, topics);
        let inbox = Arc::new(Mutex::new(Box_::default()));
        let (c2, i2) = (c.clone(), inbox.clone());
        let task = tokio::spawn(async move {
            loop {
                match c2.receive_message().await {
                    Ok(m) => i2.lock().msgs.push((Instant::now(), m)),
                    Err(e) => {
                        i2.lock().errs.push((Instant::now(), e.to_string()));
                        sleep(Duration::from_millis(20)).await;
                    }
                }
            }
        });
        Self { c, key, inbox, task }
    }
    pub async fn ready(&self, limit: Duration) -> bool {
        let until = Instant::now() + limit;
        while Instant::now() < until {
            match timeout(until - Instant::now(), self.c.ensure_initialized()).await {
                Ok(Ok(())) => return true,
                Ok(Err(_)) => sleep(Duration::from_millis(50)).await,
                Err(_) => return false,
            }
        }
        false
    }
    pub fn drain(&self) -> Vec<Message> {
        std::mem::take(&mut self.inbox.lock().msgs).into_iter().map(|m| m.1).collect()
    }
    pub fn n_errs(&self) -> usize {
        self.inbox.lock().errs.len()
    }
}
