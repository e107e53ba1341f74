//! State announcements between brokers, made with the code's own types.
use cdn_broker::verif::{DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::connection::UserPublicKey;
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::Message;

/// What a scripted peer broker knows and announces.
pub struct Announcer {
    pub id: BrokerIdentifier,
    pub users: DirectMap,
    pub topics: TopicSyncMap,
}

pub fn key(k: &[u8]) -> UserPublicKey {
    UserPublicKey::from(k.to_vec())
}

pub fn user_sync(m: &DirectMap) -> Message {
    Message::UserSync(rkyv::to_bytes::<_, 2048>(m).expect("archives").to_vec())
}
pub fn topic_sync(m: &TopicSyncMap) -> Message {
    Message::TopicSync(rkyv::to_bytes::<_, 2048>(m).expect("archives").to_vec())
}
pub fn read_user_sync(b: &[u8]) -> Option<DirectMap> {
    let mut v = rkyv::AlignedVec::with_capacity(b.len());
    v.extend_from_slice(b);
    rkyv::from_bytes(&v).ok()
}
pub fn read_topic_sync(b: &[u8]) -> Option<TopicSyncMap> {
    let mut v = rkyv::AlignedVec::with_capacity(b.len());
    v.extend_from_slice(b);
    rkyv::from_bytes(&v).ok()
}

impl Announcer {
    pub fn new(id: BrokerIdentifier) -> Self {
        Self { users: DirectMap::new(id.clone()), topics: TopicSyncMap::new(0), id }
    }
    pub fn join(&mut self, k: &[u8]) {
        self.users.insert(key(k), self.id.clone());
    }
    pub fn leave(&mut self, k: &[u8]) {
        self.users.remove_if_equals(key(k), self.id.clone());
    }
    pub fn location(&self, k: &[u8]) -> Option<BrokerIdentifier> {
        self.users.get(&key(k)).cloned()
    }
    pub fn set_topic(&mut self, t: u8, on: bool) {
        self.topics.insert(t, if on { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed });
    }
    pub fn users_diff(&mut self) -> Message {
        user_sync(&self.users.diff())
    }
    pub fn users_full(&self) -> Message {
        user_sync(&self.users.get_full())
    }
    pub fn topics_diff(&mut self) -> Message {
        topic_sync(&self.topics.diff())
    }
    pub fn topics_full(&self) -> Message {
        topic_sync(&self.topics.get_full())
    }
    /// Take in what another broker announced.
    pub fn hear(&mut self, m: &Message) -> bool {
        match m {
            Message::UserSync(b) => match read_user_sync(b) {
                Some(u) => {
                    self.users.merge(u);
                    true
                }
                None => false,
            },
            Message::TopicSync(b) => read_topic_sync(b).is_some(),
            _ => false,
        }
    }
}
