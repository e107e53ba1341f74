use crate::run::Group;

pub mod auth;
pub mod client;
pub mod discovery;
pub mod p01_broadcast;
pub mod p04_order;
pub mod p05_mesh;
pub mod p06_sessions;
pub mod p07_departures;
pub mod p12_codec;
pub mod p13_transport;
pub mod p14_pool;
pub mod p15_isolation;
pub mod p21_formation;
pub mod p22_hooks;
pub mod p23_leftovers;
pub mod p24_metrics;
pub mod p25_startup;
pub mod routing;

pub fn groups(id: &str) -> Vec<Group> {
    match id {
        "P01" => p01_broadcast::groups(),
        "P02" => routing::p02(),
        "P03" => routing::p03(),
        "P04" => p04_order::groups(),
        "P05" => p05_mesh::groups(),
        "P06" => p06_sessions::groups(),
        "P07" => p07_departures::groups(),
        "P15" => p15_isolation::groups(),
        "P21" => p21_formation::groups(),
        "P25" => p25_startup::groups(),
        "P24" => p24_metrics::groups(),
        "P23" => p23_leftovers::groups(),
        "P22" => p22_hooks::groups(),
        "P18" => client::p18(),
        "P19" => client::p19(),
        "P08" => auth::p08().into_iter().chain(discovery::p08()).collect(),
        "P10" => auth::p10(),
        "P11" => auth::p11(),
        "P12" => p12_codec::groups(),
        "P09" => discovery::p09(),
        "P16" => discovery::p16(),
        "P17" => discovery::p17(),
        "P13" => p13_transport::groups(),
        "P14" => p14_pool::groups(),
        _ => vec![],
    }
}

pub mod util {
    use crate::net::Faults;
    use crate::world::{INVALID, VALID};
    use rand::{rngs::StdRng, seq::SliceRandom, Rng};
    use std::collections::BTreeSet;

    pub type Subs = BTreeSet<u8>;

    pub fn valid(ts: &[u8]) -> Subs {
        ts.iter().copied().filter(|t| VALID.contains(t)).collect()
    }

    /// A topic list as a user may send it: duplicates (adjacent or not), unknown topics, any order.
    pub fn topic_list(rng: &mut StdRng, pool: &[u8], need_valid: bool) -> Vec<u8> {
        loop {
            let n = rng.gen_range(1..=5);
            let mut v: Vec<u8> = (0..n).map(|_| *pool.choose(rng).expect("non-empty")).collect();
            if rng.gen_bool(0.25) {
                v.push(*INVALID.choose(rng).expect("non-empty"));
            }
            if rng.gen_bool(0.3) {
                let d = *v.choose(rng).expect("non-empty");
                v.push(d);
            }
            if rng.gen_bool(0.1) {
                v.extend(std::iter::repeat(*pool.choose(rng).expect("non-empty")).take(40));
            }
            v.shuffle(rng);
            if !need_valid || !valid(&v).is_empty() {
                return v;
            }
        }
    }

    pub fn payload(rng: &mut StdRng, id: u64) -> Vec<u8> {
        let mut v = id.to_le_bytes().to_vec();
        let n = match rng.gen_range(0..20) {
            0..=9 => rng.gen_range(0..40),
            10..=17 => rng.gen_range(0..3000),
            18 => rng.gen_range(8180..8200),
            _ => rng.gen_range(60_000..90_000),
        };
        v.extend((0..n).map(|_| rng.gen::<u8>()));
        v
    }
    pub fn payload_id(p: &[u8]) -> u64 {
        p.get(..8).map_or(u64::MAX, |b| u64::from_le_bytes(b.try_into().expect("8 bytes")))
    }

    pub fn faults(rng: &mut StdRng) -> Faults {
        let mut f = Faults::default();
        if rng.gen_bool(0.7) {
            f.latency_us = (0, rng.gen_range(1..=20) * 1000);
        }
        match rng.gen_range(0..4) {
            0 => f.chunk = (1, 7),
            1 => f.chunk = (1, 300),
            2 => f.chunk = (1, 5000),
            _ => {}
        }
        if f.chunk.1 < 100 {
            // Small chunks of large messages only cost time.
            f.chunk.1 = 64;
        }
        if rng.gen_bool(0.3) {
            f.buffer = [10, 1000, 65536][rng.gen_range(0..3)];
        }
        f
    }
}
