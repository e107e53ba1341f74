//! What the codec is given: messages of all kinds, plausible nonsense, mutations, announcements.
//! (Also part of the crate that runs under Miri.)
use cdn_broker::verif::{DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};

use crate::announce::key;

pub fn bytes(rng: &mut StdRng) -> Vec<u8> {
    let n = match rng.gen_range(0..24) {
        0..=3 => 0,
        4..=9 => rng.gen_range(1..10),
        10..=17 => rng.gen_range(0..200),
        18 => *[7, 8, 9, 63, 64, 65, 255, 256, 1023, 1024, 1025, 8191, 8192, 8193].choose(rng).expect("non-empty"),
        19..=22 => rng.gen_range(0..5_000),
        _ => rng.gen_range(0..200_000),
    };
    let n = if cfg!(miri) { n.min(120) } else { n };
    let mut v = vec![0; n];
    match rng.gen_range(0..4) {
        0 => {}
        1 => v.fill(0xff),
        _ => rng.fill_bytes(&mut v),
    }
    v
}

pub fn text(rng: &mut StdRng) -> String {
    let n = [0, 1, 3, 20, 200, 3000][rng.gen_range(0..6)];
    let n = if cfg!(miri) { n.min(20) } else { n };
    (0..n)
        .map(|_| match rng.gen_range(0..8) {
            0 => '\0',
            1 => char::from_u32(rng.gen_range(0x80..0x800)).unwrap_or('é'),
            2 => '\u{1F980}',
            3 => char::from(rng.gen_range(1u8..0x80)),
            _ => char::from(rng.gen_range(b' '..b'~')),
        })
        .collect()
}

pub fn number(rng: &mut StdRng) -> u64 {
    match rng.gen_range(0..5) {
        0 => rng.gen_range(0..3),
        1 => u64::MAX - rng.gen_range(0..3),
        2 => 1 << rng.gen_range(0..64),
        3 => u64::from(u32::MAX) + rng.gen_range(0..3),
        _ => rng.gen(),
    }
}

pub fn message(rng: &mut StdRng) -> Message {
    match rng.gen_range(0..9) {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey {
            public_key: bytes(rng),
            timestamp: number(rng),
            signature: bytes(rng),
        }),
        1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: number(rng) }),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: number(rng), context: text(rng) }),
        3 => Message::Direct(Direct { recipient: bytes(rng), message: bytes(rng) }),
        4 => Message::Broadcast(Broadcast { topics: bytes(rng), message: bytes(rng) }),
        5 => Message::Subscribe(bytes(rng)),
        6 => Message::Unsubscribe(bytes(rng)),
        7 => Message::UserSync(bytes(rng)),
        _ => Message::TopicSync(bytes(rng)),
    }
}

pub fn kind(m: &Message) -> &'static str {
    match m {
        Message::AuthenticateWithKey(_) => "AuthenticateWithKey",
        Message::AuthenticateWithPermit(_) => "AuthenticateWithPermit",
        Message::AuthenticateResponse(_) => "AuthenticateResponse",
        Message::Direct(_) => "Direct",
        Message::Broadcast(_) => "Broadcast",
        Message::Subscribe(_) => "Subscribe",
        Message::Unsubscribe(_) => "Unsubscribe",
        Message::UserSync(_) => "UserSync",
        Message::TopicSync(_) => "TopicSync",
    }
}

pub fn brief(m: &Message) -> String {
    let t = format!("{m:?}");
    t.chars().take(200).collect()
}

/// One plausible word of an encoded message.
pub fn word(rng: &mut StdRng, n: u32) -> u64 {
    let small = |rng: &mut StdRng| rng.gen_range(0..n.max(1) + 2);
    let offset = match rng.gen_range(0..6) {
        0 => (rng.gen_range(-3i32..0)) as u32,
        1 => rng.gen(),
        _ => small(rng),
    };
    match rng.gen_range(0..9) {
        0 | 1 => u64::from(offset << 2) | (rng.gen_range(0..4u64) << 32) | (rng.gen_range(0..4u64) << 48),
        2..=4 => {
            let count = match rng.gen_range(0..6) {
                0 => (1 << 29) - 1,
                1 => rng.gen_range(0..1 << 29),
                2 => small(rng) * 8 + rng.gen_range(0..9),
                3 => small(rng) * 64,
                _ => small(rng),
            };
            u64::from((offset << 2) | 1) | (u64::from(rng.gen_range(0..8u32) | (count << 3)) << 32)
        }
        5 => u64::from((small(rng) << 3) | (rng.gen_range(0..2) << 2) | 2) | (u64::from(rng.gen_range(0..3u32)) << 32),
        6 => u64::from(rng.gen_range(0..10u16)) | (u64::from(rng.gen::<u16>()) << 16),
        7 => 0,
        _ => rng.gen(),
    }
}

/// A message with a well-formed frame and plausible nonsense inside.
pub fn soup(rng: &mut StdRng) -> Vec<u8> {
    let segments = if rng.gen_bool(0.75) { 1 } else { rng.gen_range(1..6u32) };
    let sizes: Vec<u32> = (0..segments).map(|_| rng.gen_range(0..30)).collect();
    let mut out = (segments - 1).to_le_bytes().to_vec();
    for s in &sizes {
        let claimed = if rng.gen_bool(0.06) { rng.gen_range(0..1 << 24) } else { *s };
        out.extend_from_slice(&claimed.to_le_bytes());
    }
    if out.len() % 8 != 0 {
        out.extend_from_slice(&[0; 4]);
    }
    for (i, s) in sizes.iter().enumerate() {
        for w in 0..*s {
            let v = if i == 0 && w == 0 && rng.gen_bool(0.9) {
                // The root: a struct with a discriminant and a pointer right behind it.
                (1u64 << 32) | (1u64 << 48)
            } else if i == 0 && w == 1 && rng.gen_bool(0.9) {
                rng.gen_range(0..10u64)
            } else {
                word(rng, *s - w)
            };
            out.extend_from_slice(&v.to_le_bytes());
        }
    }
    if rng.gen_bool(0.1) {
        let n = rng.gen_range(0..40);
        out.extend((0..n).map(|_| rng.gen::<u8>()));
    }
    out
}

pub fn mutate(rng: &mut StdRng, v: &mut Vec<u8>) {
    for _ in 0..rng.gen_range(1..5) {
        if v.is_empty() {
            return;
        }
        // Mostly where the structure is.
        let at = if rng.gen_bool(0.7) { rng.gen_range(0..v.len().min(96)) } else { rng.gen_range(0..v.len()) };
        match rng.gen_range(0..10) {
            0 => v[at] ^= 1 << rng.gen_range(0..8),
            1 => v[at] = rng.gen(),
            2 => v[at] = *[0, 1, 2, 7, 8, 0x7f, 0x80, 0xff].choose(rng).expect("non-empty"),
            3 => v.truncate(at),
            4 => {
                let n = rng.gen_range(1..17);
                v.extend((0..n).map(|_| rng.gen::<u8>()));
            }
            5 => {
                let to = (at + rng.gen_range(1..9)).min(v.len());
                v.drain(at..to);
            }
            6 => {
                let n = rng.gen_range(1..9);
                let ins: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
                v.splice(at..at, ins);
            }
            7 => {
                let a = at / 8 * 8;
                if a + 8 <= v.len() {
                    let w = word(rng, (v.len() / 8) as u32).to_le_bytes();
                    v[a..a + 8].copy_from_slice(&w);
                }
            }
            8 => {
                let a = at / 4 * 4;
                if a + 4 <= v.len() {
                    let w = [0, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000u32, 0xffff_fff8].choose(rng).expect("non-empty").to_le_bytes();
                    v[a..a + 4].copy_from_slice(&w);
                }
            }
            _ => {
                let from = rng.gen_range(0..v.len());
                let n = rng.gen_range(1..33).min(v.len() - from).min(v.len() - at);
                let c = v[from..from + n].to_vec();
                v[at..at + n].copy_from_slice(&c);
            }
        }
    }
}

/// Segment counts and sizes much larger than what follows: kept to what the machine could still satisfy.
pub fn tame(v: &mut [u8]) {
    // Only the size of what a careless decoder would allocate; the claim stays far out of proportion.
    for a in (4..v.len().min(64)).step_by(4) {
        if a + 4 <= v.len() && v[a + 3] > 1 {
            v[a + 3] = 1;
        }
    }
}

pub fn ident(rng: &mut StdRng) -> BrokerIdentifier {
    let names = ["", "b1pub", "b2pub:1", "a-rather-long-name.example.org:12345", "é"];
    let (p, q) = (names.choose(rng).expect("non-empty"), names.choose(rng).expect("non-empty"));
    format!("{p}/{q}").try_into().expect("parses")
}

pub fn user_map(rng: &mut StdRng, me: &BrokerIdentifier) -> DirectMap {
    let mut m = DirectMap::new(me.clone());
    for _ in 0..[0, 1, 2, 5, 40, 300][rng.gen_range(0..if cfg!(miri) { 4 } else { 6 })] {
        let mut k = bytes(rng);
        k.truncate(100);
        m.insert(key(&k), if rng.gen_bool(0.7) { me.clone() } else { ident(rng) });
        if rng.gen_bool(0.2) {
            m.remove(key(&k));
        }
    }
    m
}
pub fn topic_map(rng: &mut StdRng) -> TopicSyncMap {
    let mut m = TopicSyncMap::new(rng.gen_range(0..3));
    for _ in 0..rng.gen_range(0..40) {
        let st = if rng.gen_bool(0.6) { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed };
        m.insert(rng.gen(), st);
    }
    m
}

pub fn payload(m: &Message) -> Vec<u8> {
    match m {
        Message::UserSync(b) | Message::TopicSync(b) => b.clone(),
        _ => vec![],
    }
}
