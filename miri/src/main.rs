//! The codec and the announcement path under Miri, on the same inputs as P12's checks make, in smaller numbers.
#[path = "../../harness/src/announce.rs"]
#[allow(dead_code)]
mod announce;
#[path = "../../harness/src/codecgen.rs"]
#[allow(dead_code)]
mod codecgen;

use cdn_broker::verif::{DirectMap, TopicSyncMap};
use cdn_proto::message::Message;
use codecgen::*;
use rand::{rngs::StdRng, Rng, SeedableRng};

fn short(rng: &mut StdRng) -> Vec<u8> {
    loop {
        if let Ok(v) = message(rng).serialize() {
            if v.len() < 3000 {
                return v;
            }
        }
    }
}

fn aligned<T>(v: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    let mut a = rkyv::AlignedVec::with_capacity(v.len());
    a.extend_from_slice(v);
    f(&a)
}

fn main() {
    let seed = std::env::var("PCV_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let n: usize = std::env::var("PCV_N").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let mut rng = StdRng::seed_from_u64(seed);
    let (mut read, mut refused, mut announced, mut turned_down) = (0, 0, 0, 0);
    for _ in 0..n {
        // Valid ones, whole or cut short: for far pointers and the like, capnp computes addresses outside the message
        // before it compares them with its bounds, which Miri does not let pass.
        let mut v = short(&mut rng);
        if rng.gen_bool(0.3) {
            let n = rng.gen_range(0..=v.len());
            v.truncate(n);
        }
        match Message::deserialize(&v) {
            Ok(m) => {
                read += 1;
                let again = Message::deserialize(&m.serialize().expect("encodes")).expect("decodes");
                assert!(again == m, "a decoded message does not survive re-encoding");
            }
            Err(_) => refused += 1,
        }
    }
    for _ in 0..n / 3 {
        let me = ident(&mut rng);
        let users = rng.gen_bool(0.6);
        let m = if users { announce::user_sync(&user_map(&mut rng, &me)) } else { announce::topic_sync(&topic_map(&mut rng)) };
        let mut v = payload(&m);
        if v.len() > 6000 {
            continue;
        }
        if rng.gen_bool(0.8) {
            if rng.gen_bool(0.5) {
                mutate(&mut rng, &mut v);
            } else if !v.is_empty() {
                let lo = v.len().saturating_sub(96);
                let at = rng.gen_range(lo..v.len());
                v[at] = rng.gen();
            }
        }
        let ok = if users {
            aligned(&v, |v| rkyv::from_bytes::<DirectMap>(v).ok()).map(|map| {
                let mut u = DirectMap::new(ident(&mut rng));
                u.merge(map.get_full());
                u.merge(map);
                u.diff();
            })
        } else {
            aligned(&v, |v| rkyv::from_bytes::<TopicSyncMap>(v).ok()).map(|map| {
                let mut t = TopicSyncMap::new(0);
                t.merge(map.get_full());
                t.merge(map);
                t.diff();
            })
        };
        if ok.is_some() {
            announced += 1;
        } else {
            turned_down += 1;
        }
    }
    println!("MIRI-DONE {read} messages decoded, {refused} refused, {announced} announcements applied, {turned_down} refused");
}
