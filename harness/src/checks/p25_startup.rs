//! P25: components with configurations that work, and with some that cannot.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

use cdn_broker::Broker;
use cdn_marshal::Marshal;
use cdn_proto::connection::protocols::{quic::Quic, tcp_tls::TcpTls, Protocol};
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::crypto::tls::{LOCAL_CA_CERT, LOCAL_CA_KEY};
use cdn_proto::discovery::{embedded::Embedded, redis::Redis, BrokerIdentifier, DiscoveryClient};
use cdn_proto::message::{AuthenticateWithPermit, Message};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use tokio::net::{TcpListener, UdpSocket};
use tokio::time::{sleep, timeout};

use super::discovery::Bench;
use super::util::faults;
use crate::disco::Op;
use crate::group;
use crate::net::Faults;
use crate::real::{free_addr, RealDef, RealWorld};
use crate::run::{Group, Rt, Scn};
use crate::sig::keypair;
use crate::world::{auth_with_key, now_secs, pk, secs, Def, Hook, World, BROKER_KEY};

pub fn groups() -> Vec<Group> {
    vec![
        group!("startup", startup, Rt::Virtual, 400, 10_000),
        group!("identity", identity, Rt::Virtual, 150, 5_000),
        group!("startup-tls", real_tls, Rt::Multi(2), 8, 100),
        group!("startup-quic", real_quic, Rt::Multi(2), 6, 80),
    ]
}

const CA: (&str, &str) = (include_str!("../../assets/ca.pem"), include_str!("../../assets/ca.key"));

/// A directory of our own for certificate files.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("pcv-{}-{}.d", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Self(d)
    }
    fn file(&self, name: &str, text: &str) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, text).expect("scratch file");
        p.display().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Wrong {
    Nothing,
    PublicBusy,
    PrivateBusy,
    PublicNonsense,
    PrivateNonsense,
    NoDiscovery,
    NoCert,
    NoKey,
    JunkCert,
    JunkKey,
    KeyForCert,
    CertOnly,
    KeyOnly,
    Metrics(&'static str),
}

fn wrong(rng: &mut StdRng, of_marshal: bool) -> Wrong {
    use Wrong::{CertOnly, JunkCert, JunkKey, KeyForCert, KeyOnly, Metrics, NoCert, NoDiscovery, NoKey, Nothing, PrivateBusy, PrivateNonsense, PublicBusy, PublicNonsense};
    loop {
        let w = [
            Nothing,
            PublicBusy,
            PrivateBusy,
            PublicNonsense,
            PrivateNonsense,
            NoDiscovery,
            NoCert,
            NoKey,
            JunkCert,
            JunkKey,
            KeyForCert,
            CertOnly,
            KeyOnly,
            Metrics("nonsense"),
            Metrics("127.0.0.1"),
            Metrics("127.0.0.1:99999"),
            Metrics("[::1]:9"),
            Metrics(""),
        ]
        .choose(rng)
        .expect("some")
        .clone();
        if !(of_marshal && matches!(w, PrivateBusy | PrivateNonsense)) {
            return w;
        }
    }
}

/// The two paths to give, for what is wrong with them (if that is it).
fn ca(d: &Dir, wrong: &Wrong, rng: &mut StdRng) -> (Option<String>, Option<String>) {
    let junk = ["", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "no such thing", "\u{fffd}\0"];
    let junk = junk.choose(rng).expect("some");
    let missing = d.0.join("missing").display().to_string();
    match wrong {
        Wrong::NoCert => (Some(missing), Some(d.file("key", CA.1))),
        Wrong::NoKey => (Some(d.file("cert", CA.0)), Some(if rng.gen() { missing } else { d.0.display().to_string() })),
        Wrong::JunkCert => (Some(d.file("cert", junk)), Some(d.file("key", CA.1))),
        Wrong::JunkKey => (Some(d.file("cert", CA.0)), Some(d.file("key", junk))),
        Wrong::KeyForCert => (Some(d.file("cert", CA.1)), Some(d.file("key", CA.0))),
        Wrong::CertOnly => (Some(d.file("cert", CA.0)), None),
        Wrong::KeyOnly => (None, Some(d.file("key", CA.1))),
        _ => match rng.gen_range(0..3) {
            0 => (Some(d.file("cert", CA.0)), Some(d.file("key", CA.1))),
            1 => (Some(d.file("cert", LOCAL_CA_CERT)), Some(d.file("key", LOCAL_CA_KEY))),
            _ => (None, None),
        },
    }
}

fn config(w: &World, id: &BrokerIdentifier, wrong: &Wrong, paths: (Option<String>, Option<String>), pool: Option<usize>) -> cdn_broker::Config<Def> {
    let bind = |e: &str, nonsense: bool| if nonsense { "nowhere".to_string() } else { format!("{e}.bind") };
    let metrics = match wrong {
        Wrong::Metrics(m) => Some((*m).to_string()),
        _ => None,
    };
    let (public, private) = (&id.public_advertise_endpoint, &id.private_advertise_endpoint);
    let mut busy = w.net.busy.lock();
    busy.clear();
    match wrong {
        Wrong::PublicBusy => busy.push(bind(public, false)),
        Wrong::PrivateBusy => busy.push(bind(private, false)),
        _ => {}
    }
    cdn_broker::Config {
        public_advertise_endpoint: public.clone(),
        public_bind_endpoint: bind(public, *wrong == Wrong::PublicNonsense),
        private_advertise_endpoint: private.clone(),
        private_bind_endpoint: bind(private, *wrong == Wrong::PrivateNonsense),
        metrics_bind_endpoint: metrics,
        discovery_endpoint: if *wrong == Wrong::NoDiscovery { "nowhere".to_string() } else { w.path.clone() },
        keypair: keypair(BROKER_KEY),
        ca_cert_path: paths.0,
        ca_key_path: paths.1,
        global_memory_pool_size: pool,
        user_message_hook: Hook::default(),
        broker_message_hook: Hook::default(),
    }
}

/// Brokers and marshals on a simulated network, tried with one configuration after the other.
async fn startup(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let d = Dir::new();
    let id = w.broker_id("b");
    let (public, private) = (id.public_advertise_endpoint.clone(), id.private_advertise_endpoint.clone());
    let limit = Duration::from_secs(15);
    for attempt in 0..s.rng.gen_range(1..6) {
        let x = wrong(&mut s.rng, false);
        if x == Wrong::Nothing {
            break;
        }
        let c = config(&w, &id, &x, ca(&d, &x, &mut s.rng), None);
        let r = timeout(limit, Broker::<Def>::new(c)).await;
        s.log(format!("attempt {attempt}: broker with {x:?}: {:?}", r.as_ref().map(|r| r.as_ref().err().map(ToString::to_string))));
        s.ev("broken_configurations", 1);
        s.state((0, &x));
        match r {
            Err(_) => return s.fail("start hangs", format!("broker with {x:?}")),
            // (It may notice only when it starts.)
            Ok(Ok(b)) => {
                let r = timeout(limit, b.start()).await;
                s.check(matches!(r, Ok(Err(_))), "starts with what cannot work", || format!("broker with {x:?}: {:?}", r.map(|r| r.map_err(|e| e.to_string()))));
            }
            Ok(Err(_)) => {}
        }
        s.ev("oracle_evaluations", 1);
        let after = s.rng.gen_range(0.0..30.0);
        secs(after).await;
        for e in [&public, &private] {
            s.check(!w.net.is_listening(e), "an address is kept by what did not start", || format!("{e} after {x:?}"));
        }
        let known: Vec<String> = w.svc.st.lock().brokers.keys().cloned().collect();
        s.check(known.is_empty(), "registered without having started", || format!("{known:?} after {x:?}"));
        if s.failed() {
            return;
        }
    }
    // And now as it should be.
    let pool = s.rng.gen_bool(0.5).then_some(1 << 20);
    let c = config(&w, &id, &Wrong::Nothing, ca(&d, &Wrong::Nothing, &mut s.rng), pool);
    let b = match timeout(limit, Broker::<Def>::new(c)).await {
        Ok(Ok(b)) => b,
        x => return s.fail("does not start", format!("broker: {:?}", x.map(|r| r.err().map(|e| e.to_string())))),
    };
    let pause = s.rng.gen_range(0.0..20.0);
    secs(pause).await;
    s.check(w.svc.st.lock().brokers.is_empty(), "registered without having started", || "a broker that was not started yet".to_string());
    let bt = tokio::spawn(b.start());
    secs(1.0).await;
    let known: Vec<String> = w.svc.st.lock().brokers.keys().cloned().collect();
    s.check(known == [id.to_string()], "registered as another", || format!("{known:?}, not {id}"));
    // The marshal.
    let ep = w.net.ep("marshal");
    for _ in 0..s.rng.gen_range(0..4) {
        let x = wrong(&mut s.rng, true);
        if x == Wrong::Nothing {
            break;
        }
        let paths = ca(&d, &x, &mut s.rng);
        w.net.busy.lock().clear();
        if x == Wrong::PublicBusy {
            w.net.busy.lock().push(ep.clone());
        }
        let c = marshal_config(&x, &ep, &w.path, paths);
        s.ev("broken_configurations", 1);
        s.state((1, &x));
        match timeout(limit, Marshal::<Def>::new(c)).await {
            Err(_) => return s.fail("start hangs", format!("marshal with {x:?}")),
            Ok(Ok(m)) => {
                let r = timeout(limit, m.start()).await;
                s.check(matches!(r, Ok(Err(_))), "starts with what cannot work", || format!("marshal with {x:?}"));
            }
            Ok(Err(_)) => {}
        }
        secs(0.1).await;
        s.check(!w.net.is_listening(&ep), "an address is kept by what did not start", || format!("marshal after {x:?}"));
    }
    w.net.busy.lock().clear();
    let paths = ca(&d, &Wrong::Nothing, &mut s.rng);
    let m = match timeout(limit, Marshal::<Def>::new(marshal_config(&Wrong::Nothing, &ep, &w.path, paths))).await {
        Ok(Ok(m)) => m,
        x => return s.fail("does not start", format!("marshal: {:?}", x.map(|r| r.err().map(|e| e.to_string())))),
    };
    let mt = tokio::spawn(m.start());
    let c = w.client(&ep, 1, vec![1]);
    let r = timeout(Duration::from_secs(20), async {
        c.ensure_initialized().await?;
        c.send_broadcast_message(vec![1], vec![5]).await?;
        c.receive_message().await
    })
    .await;
    s.check(matches!(&r, Ok(Ok(Message::Broadcast(_)))), "does not work after a start", || format!("{r:?}"));
    s.check(!bt.is_finished() && !mt.is_finished(), "component stopped", || "broker or marshal".to_string());
    s.ev("starts", 2);
    bt.abort();
    mt.abort();
}

fn marshal_config(wrong: &Wrong, ep: &str, path: &str, paths: (Option<String>, Option<String>)) -> cdn_marshal::Config {
    cdn_marshal::Config {
        bind_endpoint: if *wrong == Wrong::PublicNonsense { "nowhere".to_string() } else { ep.to_string() },
        discovery_endpoint: if *wrong == Wrong::NoDiscovery { "nowhere".to_string() } else { path.to_string() },
        ca_cert_path: paths.0,
        ca_key_path: paths.1,
        metrics_bind_endpoint: match wrong {
            Wrong::Metrics(m) => Some((*m).to_string()),
            _ => None,
        },
        global_memory_pool_size: None,
    }
}

/// By what name a broker is known to discovery, to marshals, to its users and to its peers.
async fn identity(s: &mut Scn) {
    let w = World::new(s.seed, Faults::default());
    let names = ["b", "local_ip", "a.local_ip.local_ip", "xlocal_ip", "B-1", "ö", "b%20", "local-ip", "b:1738", "::1"];
    let (one, two) = (names.choose(&mut s.rng).expect("some"), names.choose(&mut s.rng).expect("some"));
    let given = BrokerIdentifier { public_advertise_endpoint: w.net.ep(&format!("{one}.pub")), private_advertise_endpoint: w.net.ep(&format!("{two}.prv")) };
    // The address of this machine is 127.0.0.1 here (see `local-ip-stub`).
    let fix = |e: &str| e.replace("local_ip", "127.0.0.1");
    let id = BrokerIdentifier {
        public_advertise_endpoint: fix(&given.public_advertise_endpoint),
        private_advertise_endpoint: fix(&given.private_advertise_endpoint),
    };
    let c = config(&w, &given, &Wrong::Nothing, (None, None), None);
    let b = match Broker::<Def>::new(c).await {
        Ok(b) => b,
        Err(e) => return s.fail("does not start", e.to_string()),
    };
    let bt = tokio::spawn(b.start());
    secs(1.0).await;
    s.state((one, two));
    s.ev("identities", 1);
    for e in [&id.public_advertise_endpoint, &id.private_advertise_endpoint] {
        s.check(w.net.is_listening(e), "does not listen where it should", || e.clone());
    }
    let known: Vec<String> = w.svc.st.lock().brokers.keys().cloned().collect();
    s.check(known == [id.to_string()], "registered as another", || format!("{known:?}, not {id}"));
    // A marshal sends users to its public address; their permits are redeemed in its name.
    let (ep, _mt) = w.marshal("marshal", None).await;
    let mut r = match w.raw(&ep).await {
        Ok(r) => r,
        Err(e) => return s.inconclusive(e),
    };
    r.send(&auth_with_key(Namespace::UserMarshalAuth.as_str(), 5, now_secs())).await;
    let (to, permit) = match r.next(Duration::from_secs(10)).await {
        Some(Message::AuthenticateResponse(a)) if a.permit > 1 => (a.context, a.permit),
        x => return s.fail("does not work after a start", format!("the marshal answers {x:?}")),
    };
    s.check(to == id.public_advertise_endpoint, "users are sent elsewhere", || format!("{to}, not {}", id.public_advertise_endpoint));
    let mut u = match w.raw(&id.public_advertise_endpoint).await {
        Ok(r) => r,
        Err(e) => return s.fail("does not work after a start", e),
    };
    u.send(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
    let a = u.next(Duration::from_secs(10)).await;
    s.check(matches!(&a, Some(Message::AuthenticateResponse(a)) if a.permit == 1), "does not work after a start", || format!("its own permit: {a:?}"));
    let asked = w.svc.calls(Op::Validate);
    s.check(asked.iter().all(|c| c.arg == id.to_string()), "permits are redeemed in another name", || format!("{asked:?}"));
    // Peers are told the whole of it (`World::peer` compares).
    match w.peer(&id, "zz").await {
        Ok(_) => s.ev("oracle_evaluations", 1),
        Err(e) => s.fail("peers are told another name", e),
    }
    // Another broker finds it under its private address.
    let other = if s.rng.gen() { "n" } else { "0" };
    let o = w.broker(other).await;
    secs(25.0).await;
    let dialed: Vec<String> = w.net.links().iter().map(|l| l.endpoint.clone()).collect();
    let met = w.net.open_links().iter().any(|l| {
        let (a, b) = (&id.private_advertise_endpoint, &o.id.private_advertise_endpoint);
        (l.endpoint == *a && l.a2b.accepted() > 0) || l.endpoint == *b
    });
    s.check(met, "brokers do not find each other", || format!("{id} and {}: connections to {dialed:?}", o.id));
    let text = id.to_string();
    match BrokerIdentifier::try_from(text.clone()) {
        Ok(back) => {
            s.check(back == id && back.to_string() == text, "a name is not read back", || format!("{id} becomes {back}"));
        }
        Err(e) => s.fail("a name is not read back", format!("{text}: {e}")),
    }
    let _ = pk(1);
    bt.abort();
}

async fn real_tls(s: &mut Scn) {
    real::<TcpTls>(s).await;
}
async fn real_quic(s: &mut Scn) {
    real::<Quic>(s).await;
}
async fn real<P: Protocol>(s: &mut Scn) {
    match s.rng.gen_range(0..3) {
        0 => on::<P, crate::disco::MemDisco>(s, None, &["nowhere"]).await,
        1 => {
            let b = Bench::sql();
            on::<P, Embedded>(s, Some(&b), &["/nowhere/at/all.sqlite", "/"]).await;
        }
        _ => {
            let b = Bench::redis(s.seed).await;
            let closed = format!("redis://{}", free_addr());
            on::<P, Redis>(s, Some(&b), &["nonsense", "redis://", &closed]).await;
        }
    }
}

/// Whether both kinds of socket can be bound there.
async fn free(addr: &str) -> bool {
    for _ in 0..40 {
        if TcpListener::bind(addr).await.is_ok() && UdpSocket::bind(addr).await.is_ok() {
            return true;
        }
        sleep(Duration::from_millis(50)).await;
    }
    false
}

/// The same with real addresses, certificates and discovery services.
async fn on<P: Protocol, D: DiscoveryClient>(s: &mut Scn, bench: Option<&Bench>, bad_discovery: &[&str]) {
    let mem = RealWorld::<P, P>::new();
    let path = bench.map_or_else(|| mem.path.clone(), Bench::path);
    let d = Dir::new();
    let (public, private, ep) = (free_addr(), free_addr(), free_addr());
    let limit = Duration::from_secs(30);
    let mut held: Vec<(TcpListener, UdpSocket)> = vec![];
    let mut own_ca = None;
    for attempt in 0..4 {
        let last = attempt == 3;
        let x = if last { Wrong::Nothing } else { wrong(&mut s.rng, false) };
        if x == Wrong::Nothing && !last {
            continue;
        }
        let paths = ca(&d, &x, &mut s.rng);
        if last {
            own_ca = paths.0.as_ref().map(|p| std::fs::read_to_string(Path::new(p)).is_ok_and(|t| t == CA.0));
        }
        held.clear();
        let hold = match x {
            Wrong::PublicBusy => Some(&public),
            Wrong::PrivateBusy => Some(&private),
            _ => None,
        };
        if let Some(a) = hold {
            match (TcpListener::bind(a).await, UdpSocket::bind(a).await) {
                (Ok(t), Ok(u)) => held.push((t, u)),
                x => return s.inconclusive(format!("{a}: {x:?}")),
            }
        }
        let nonsense = ["nonsense", "127.0.0.1", "127.0.0.1:99999", "256.0.0.1:1", ""][s.rng.gen_range(0..5)].to_string();
        let nowhere = bad_discovery.choose(&mut s.rng).expect("some").to_string();
        let closed = nowhere.starts_with("redis://");
        let b = Broker::<RealDef<P, P, D>>::new(cdn_broker::Config {
            public_advertise_endpoint: public.clone(),
            public_bind_endpoint: if x == Wrong::PublicNonsense { nonsense.clone() } else { public.clone() },
            private_advertise_endpoint: private.clone(),
            private_bind_endpoint: if x == Wrong::PrivateNonsense { nonsense } else { private.clone() },
            metrics_bind_endpoint: if let Wrong::Metrics(m) = x { Some(m.to_string()) } else { None },
            discovery_endpoint: if x == Wrong::NoDiscovery { nowhere } else { path.clone() },
            keypair: keypair(BROKER_KEY),
            ca_cert_path: paths.0.clone(),
            ca_key_path: paths.1.clone(),
            global_memory_pool_size: None,
            user_message_hook: Hook::default(),
            broker_message_hook: Hook::default(),
        });
        let t = std::time::Instant::now();
        // A Redis that is not there yet may be waited for (its client library tries for minutes).
        let patient = x == Wrong::NoDiscovery && closed;
        let r = timeout(if patient { Duration::from_secs(2) } else { limit }, b).await;
        s.log(format!("attempt {attempt}: {x:?}: {:?} after {:.1} s", r.as_ref().map(|r| r.as_ref().err().map(ToString::to_string)), t.elapsed().as_secs_f64()));
        s.state((&x, bench.is_some()));
        s.ev("oracle_evaluations", 1);
        match (r, last) {
            (Err(_), _) if !patient => return s.fail("start hangs", format!("broker with {x:?}")),
            (Err(_) | Ok(Err(_)), false) => {
                s.ev("broken_configurations", 1);
                held.clear();
                for a in [&public, &private] {
                    s.check(free(a).await, "an address is kept by what did not start", || format!("{a} after {x:?}"));
                }
            }
            (Ok(Ok(_)), false) => return s.fail("starts with what cannot work", format!("broker with {x:?}")),
            (Err(_), true) => return s.fail("start hangs", format!("broker with {x:?}")),
            (Ok(Err(e)), true) => return s.fail("does not start", format!("broker: {e}")),
            (Ok(Ok(b)), true) => {
                let bt = tokio::spawn(b.start());
                let m = Marshal::<RealDef<P, P, D>>::new(cdn_marshal::Config {
                    bind_endpoint: ep.clone(),
                    discovery_endpoint: path.clone(),
                    ca_cert_path: paths.0.clone(),
                    ca_key_path: paths.1.clone(),
                    metrics_bind_endpoint: None,
                    global_memory_pool_size: None,
                });
                let mt = match timeout(limit, m).await {
                    Ok(Ok(m)) => tokio::spawn(m.start()),
                    x => return s.fail("does not start", format!("marshal: {:?}", x.map(|r| r.err().map(|e| e.to_string())))),
                };
                sleep(Duration::from_millis(200)).await;
                // Who trusts the local authority gets in if that is the one configured, and else nowhere.
                let local = !own_ca.unwrap_or(false);
                for a in [&public, &private, &ep] {
                    let c = timeout(Duration::from_secs(15), P::connect(a, true, cdn_proto::connection::limiter::Limiter::none())).await;
                    let is = matches!(c, Ok(Ok(_)));
                    s.check(is == local, "certificate of another authority", || {
                        format!("{a}: connected: {is}, with {} authority configured", if local { "the local" } else { "another" })
                    });
                    s.ev("certificates", 1);
                }
                s.check(!bt.is_finished() && !mt.is_finished(), "component stopped", || "broker or marshal".to_string());
                if local && !s.failed() {
                    let c = mem.client(&ep, 1, vec![1]);
                    let r = timeout(Duration::from_secs(40), async {
                        c.ensure_initialized().await?;
                        c.send_broadcast_message(vec![1], vec![5]).await?;
                        c.receive_message().await
                    })
                    .await;
                    s.check(matches!(&r, Ok(Ok(Message::Broadcast(_)))), "does not work after a start", || format!("{r:?}"));
                }
                s.ev("starts", 2);
                bt.abort();
                mt.abort();
            }
        }
        if s.failed() {
            return;
        }
    }
}
