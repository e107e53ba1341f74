//! P08 (marshal), P10 (users at a broker), P11 (brokers at a broker): who gets in.
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;

use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::{
    AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use tokio::time::{sleep, Instant};

use super::util::{faults, payload_id};
use crate::announce::Announcer;
use crate::disco::{Fault, Op};
use crate::group;
use crate::run::{Group, Rt, Scn};
use crate::sig::{keypair, sign_raw, BROKER_NS, USER_NS};
use crate::world::{auth_with_key, now_secs, pk, secs, settle, Raw, World, BROKER_KEY};

pub fn p08() -> Vec<Group> {
    vec![group!("marshal", marshal, Rt::Virtual, 2500, 60_000)]
}
pub fn p10() -> Vec<Group> {
    vec![group!("admission", admission, Rt::Virtual, 2000, 50_000)]
}
pub fn p11() -> Vec<Group> {
    vec![
        group!("peer-inbound", inbound, Rt::Virtual, 1500, 40_000),
        group!("peer-outbound", outbound, Rt::Virtual, 1000, 30_000),
    ]
}

/// How old a timestamp (in seconds; negative: ahead) and whether a request with it must or must not be accepted.
fn age(rng: &mut StdRng) -> (i64, Option<bool>) {
    match rng.gen_range(0..14) {
        0..=4 => (0, Some(true)),
        5 => (3, Some(true)),
        6 => (5, None),
        7 => (-2, Some(true)),
        8 => (-5, None),
        9 => (7 + rng.gen_range(0..3), Some(false)),
        10 => (-8 - rng.gen_range(0..3), Some(false)),
        11 => (rng.gen_range(100..1_000_000_000), Some(false)),
        12 => (-rng.gen_range(100..1_000_000_000_000i64), Some(false)),
        _ => (*[i64::MAX, i64::MIN / 2, 1 << 40].choose(rng).expect("some"), Some(false)),
    }
}
fn at(age: i64) -> u64 {
    (i128::from(now_secs()) - i128::from(age)).clamp(0, i128::from(u64::MAX)) as u64
}

/// A request signed with `key`, possibly spoilt.  Some(true): must be accepted; Some(false): must not be.
fn signed(rng: &mut StdRng, key: u64, ns: &'static str, other_ns: &'static str, s: &mut BTreeMap<&'static str, u64>) -> (Message, Option<bool>, &'static str) {
    let (a, verdict) = age(rng);
    let ts = at(a);
    let kp = keypair(key);
    let mut m = AuthenticateWithKey { public_key: pk(key), timestamp: ts, signature: sign_raw(&kp.private_key, ns, &ts.to_le_bytes()) };
    let spoil = rng.gen_range(0..24);
    let (verdict, what) = match spoil {
        0 => {
            let i = rng.gen_range(0..m.signature.len());
            m.signature[i] ^= 1 << rng.gen_range(0..8);
            (Some(false), "altered signature")
        }
        1 => {
            m.signature = sign_raw(&kp.private_key, other_ns, &ts.to_le_bytes());
            (Some(false), "signature for another purpose")
        }
        2 => {
            m.signature = sign_raw(&keypair(key + 1_000_000).private_key, ns, &ts.to_le_bytes());
            (Some(false), "signature by another key")
        }
        3 => {
            let old = ts.wrapping_sub(rng.gen_range(1..1000));
            m.signature = sign_raw(&kp.private_key, ns, &old.to_le_bytes());
            (Some(false), "signature over another time")
        }
        4 => {
            m.signature = sign_raw(&kp.private_key, ns, &ts.to_be_bytes());
            (Some(ts.to_be_bytes() == ts.to_le_bytes()).filter(|x| !*x), "signature over other bytes")
        }
        5 => {
            m.signature = vec![];
            (Some(false), "empty signature")
        }
        6 => {
            m.signature.truncate(rng.gen_range(0..64));
            (Some(false), "short signature")
        }
        7 => {
            m.public_key[0] ^= 0xff;
            (Some(false), "malformed key")
        }
        8 => {
            m.public_key.truncate(rng.gen_range(0..33));
            (Some(false), "short key")
        }
        9 => {
            let i = rng.gen_range(1..33);
            m.public_key[i] ^= 1 << rng.gen_range(0..8);
            (Some(false), "altered key")
        }
        10 => {
            m.signature = vec![0; 64];
            (Some(false), "zero signature")
        }
        11 => {
            // The whole message signed for someone else's key.
            m.public_key = pk(key + 2_000_000);
            (Some(false), "claimed key")
        }
        12 => {
            m.signature = sign_raw(&kp.private_key, "", &ts.to_le_bytes());
            (Some(false), "no namespace")
        }
        _ => (verdict, match verdict {
            Some(true) => "good",
            None => "borderline age",
            Some(false) if a > 0 => "too old",
            Some(false) => "ahead of time",
        }),
    };
    *s.entry(what).or_default() += 1;
    (Message::AuthenticateWithKey(m), verdict, what)
}

/// A message (or bytes) that is no authentication of this kind at all.
fn wrong(rng: &mut StdRng, key: u64, allow_permit: bool, allow_key: bool) -> Option<Vec<u8>> {
    let m = match rng.gen_range(0..11) {
        0 if !allow_permit => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: rng.gen_range(0..3000) }),
        0 | 1 => Message::AuthenticateResponse(AuthenticateResponse { permit: rng.gen_range(0..3), context: "n1.x/n1.y".into() }),
        2 => Message::Subscribe(vec![0, 1]),
        3 => Message::Unsubscribe(vec![0, 1]),
        4 => Message::Direct(Direct { recipient: pk(key), message: vec![1] }),
        5 => Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] }),
        6 => Message::UserSync(vec![1, 2, 3]),
        7 => Message::TopicSync(vec![]),
        8 if !allow_key => auth_with_key(USER_NS, key, now_secs()),
        8 | 9 => return Some((0..rng.gen_range(0..60)).map(|_| rng.gen()).collect()),
        _ => return None, // silence
    };
    Some(m.serialize().expect("serializes"))
}

async fn marshal(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let (ep, task) = w.marshal("marshal", None).await;
    let brokers: Vec<_> = (0..s.rng.gen_range(0..4)).map(|i| w.broker_id(&format!("b{i}"))).collect();
    for b in &brokers {
        let n = s.rng.gen_range(0..3);
        w.svc.st.lock().brokers.insert(b.to_string(), (n, Instant::now() + Duration::from_secs(1_000_000)));
    }
    let down = s.rng.gen_range(0..6);
    let fault_op = *[Op::CheckWhitelist, Op::Least, Op::Issue].choose(&mut s.rng).expect("some");
    let mut fault = None;
    if down == 0 {
        fault = Some(Fault::Err);
    } else if down == 1 {
        fault = Some(Fault::Hang);
    } else if down == 2 {
        fault = Some(Fault::Delay(Duration::from_millis(s.rng.gen_range(1..4000))));
    }
    if let Some(f) = &fault {
        w.svc.fault(fault_op, None, f.clone());
    }
    let blocked = brokers.is_empty() || matches!(fault, Some(Fault::Err | Fault::Hang));
    let n = s.rng.gen_range(1..14u64);
    let listed = s.rng.gen_bool(0.3);
    let allowed: HashSet<u64> = (0..n).filter(|_| s.rng.gen_bool(0.6)).collect();
    if listed {
        w.svc.set_whitelist(Some(allowed.iter().map(|k| pk(*k)).collect()));
    }
    struct Req {
        raw: Raw,
        key: u64,
        verdict: Option<bool>,
        what: &'static str,
        sent: Instant,
        follow_ups: bool,
    }
    let mut kinds = BTreeMap::new();
    let mut reqs: Vec<Req> = vec![];
    for k in 0..n {
        let Ok(mut raw) = w.raw(&ep).await else {
            s.fail("the marshal does not listen", "connection refused");
            return;
        };
        let (mut verdict, mut what) = (Some(false), "no authentication");
        let mut follow_ups = false;
        let mode = s.rng.gen_range(0..10);
        match mode {
            0 => match wrong(&mut s.rng, k, false, true) {
                Some(b) => {
                    raw.send_frame(&b).await;
                }
                None => what = "silence",
            },
            1 => {
                // A frame that does not end.
                let (m, _, _) = signed(&mut s.rng, k, USER_NS, BROKER_NS, &mut kinds);
                let b = m.serialize().expect("serializes");
                let mut v = (b.len() as u32).to_be_bytes().to_vec();
                v.extend(&b[..s.rng.gen_range(0..b.len())]);
                raw.send_bytes(&v).await;
                if s.rng.gen() {
                    raw.close_write();
                }
                what = "half a request";
            }
            2 => {
                // Trailing bytes after the key: a different byte string for the same key.
                let ts = now_secs();
                let mut key = pk(k);
                key.extend((0..s.rng.gen_range(1..20)).map(|_| s.rng.gen::<u8>()));
                let m = AuthenticateWithKey { public_key: key, timestamp: ts, signature: sign_raw(&keypair(k).private_key, USER_NS, &ts.to_le_bytes()) };
                raw.send(&Message::AuthenticateWithKey(m)).await;
                verdict = None;
                what = "key with trailing bytes";
            }
            3 => {
                // A refused request, then a good one on the same connection: the first decides.
                if let Some(b) = wrong(&mut s.rng, k, false, true) {
                    raw.send_frame(&b).await;
                    raw.send(&auth_with_key(USER_NS, k, now_secs())).await;
                    what = "second try on one connection";
                } else {
                    raw.close_write();
                    what = "left at once";
                }
            }
            _ => {
                let (m, v, wh) = signed(&mut s.rng, k, USER_NS, BROKER_NS, &mut kinds);
                raw.send(&m).await;
                if s.rng.gen_bool(0.2) {
                    raw.send(&m).await;
                    raw.send(&Message::Subscribe(vec![1])).await;
                    follow_ups = true;
                }
                verdict = v;
                what = wh;
            }
        }
        s.ev(&format!("request: {what}"), 1);
        reqs.push(Req { raw, key: k, verdict, what, sent: Instant::now(), follow_ups });
        if s.rng.gen_bool(0.3) {
            sleep(Duration::from_millis(s.rng.gen_range(0..700))).await;
        }
    }
    secs(9.0).await;
    let mut permitted: HashSet<u64> = HashSet::new();
    for r in &mut reqs {
        let got = r.raw.drain_at();
        let may = r.verdict != Some(false) && !blocked && (!listed || allowed.contains(&r.key));
        let slow = matches!(fault, Some(Fault::Delay(_)));
        let must = r.verdict == Some(true) && may;
        s.log(format!("{} {:?} must {must} may {may}: {:?}", r.what, r.verdict, got.iter().map(|x| &x.1).collect::<Vec<_>>()));
        s.state((r.what, must, may, got.len(), listed, down.min(3), brokers.len().min(2)));
        s.check(got.len() <= 1, "more than one answer", || format!("{}: {:?}", r.what, got));
        match got.first() {
            Some((_, Message::AuthenticateResponse(a))) if a.permit != 0 => {
                s.check(may, "a permit for an invalid request", || format!("{} (verdict {:?}, listed {listed}, allowed {}): {a:?}", r.what, r.verdict, allowed.contains(&r.key)));
                s.check(a.permit > 1, "reserved permit value", || format!("{a:?}"));
                let named = brokers.iter().find(|b| b.public_advertise_endpoint == a.context).cloned();
                let issued = named.as_ref().and_then(|b| w.svc.st.lock().permits.get(&(b.to_string(), a.permit)).map(|p| p.0.clone()));
                s.check(issued == Some(pk(r.key)), "a permit for another key or broker", || format!("{}: answer {a:?}, which was issued for {issued:?} at {named:?}; the key is {:?}", r.what, pk(r.key)));
                permitted.insert(r.key);
                s.ev("permits", 1);
            }
            Some((t, Message::AuthenticateResponse(_))) => {
                s.check(!must, "a valid request refused", || format!("{}: {:?}", r.what, got[0]));
                s.check(*t <= r.sent + Duration::from_secs(7), "a late answer", || format!("{}: {:?}", r.what, *t - r.sent));
                s.ev("refusals", 1);
            }
            Some((_, m)) => s.fail("an unexpected answer", format!("{}: {m:?}", r.what)),
            None => {
                s.check(!must, "a valid request not answered", || format!("{} slow {slow} follow-ups {}", r.what, r.follow_ups));
                s.ev("no_answers", 1);
            }
        }
        s.check(r.raw.closed_at().is_some_and(|t| t <= r.sent + Duration::from_secs(7)), "a request kept open", || format!("{}: closed {:?}", r.what, r.raw.closed_at().map(|t| t - r.sent)));
    }
    // What was issued at all.
    let keys: Vec<Vec<u8>> = w.svc.issued.lock().values().cloned().collect();
    for key in keys {
        let owner = reqs.iter().find(|r| pk(r.key) == key);
        let ok = owner.is_some_and(|r| r.verdict != Some(false) && (!listed || allowed.contains(&r.key)));
        s.check(ok, "a permit issued for an invalid request", || format!("for {key:?}, requested by {:?}", owner.map(|r| r.what)));
    }
    // It goes on working.
    w.svc.clear_faults();
    w.svc.set_whitelist(None);
    if brokers.is_empty() {
        w.svc.st.lock().brokers.insert(w.broker_id("late").to_string(), (0, Instant::now() + Duration::from_secs(1000)));
    }
    if let Ok(mut r) = w.raw(&ep).await {
        r.send(&auth_with_key(USER_NS, 999, now_secs())).await;
        let m = r.next(Duration::from_secs(3)).await;
        s.check(matches!(&m, Some(Message::AuthenticateResponse(a)) if a.permit > 1), "the marshal stopped serving", || format!("{m:?}"));
    } else {
        s.fail("the marshal stopped serving", "connection refused");
    }
    s.check(!task.is_finished(), "the marshal exited", || "its task ended".into());
    task.abort();
}

/// Probes that tell whether anybody but the honest users takes part.
struct Probe {
    next: u64,
}
impl Probe {
    fn payload(&mut self) -> Vec<u8> {
        self.next += 1;
        self.next.to_le_bytes().to_vec()
    }
}

async fn admission(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("b").await;
    let other = w.broker_id("other");
    secs(1.0).await;
    // Two honest users and a peer that watches what is announced.
    let mut alice = w.user(&b.id, 1, &[0, 1]).await.expect("honest");
    let mut bob = w.user(&b.id, 2, &[0, 2]).await.expect("honest");
    let mut peer = w.peer(&b.id, "zpeer").await.expect("peer");
    let mut heard = Announcer::new(w.broker_id("zpeer"));
    settle().await;
    let mut probe = Probe { next: 0 };
    let slow = match s.rng.gen_range(0..6) {
        0 => Some(Fault::Err),
        1 => Some(Fault::Hang),
        2 => Some(Fault::Delay(Duration::from_millis(s.rng.gen_range(100..4000)))),
        3 => Some(Fault::Delay(Duration::from_millis(s.rng.gen_range(5500..9000)))),
        _ => None,
    };
    if let Some(f) = &slow {
        w.svc.fault(Op::Validate, None, f.clone());
    }
    let usable = !matches!(&slow, Some(Fault::Err | Fault::Hang)) && !matches!(&slow, Some(Fault::Delay(d)) if *d > Duration::from_secs(5));
    struct Att {
        raw: Raw,
        key: u64,
        what: &'static str,
        /// Becomes a user.
        admitted: bool,
        start: Instant,
        spam: Vec<u64>,
        spam_ok: bool,
    }
    let n = s.rng.gen_range(1..8u64);
    let mut atts: Vec<Att> = vec![];
    for i in 0..n {
        let key = 100 + i;
        let Ok(mut raw) = w.raw(&b.id.public_advertise_endpoint).await else {
            s.fail("the broker does not listen", "refused");
            return;
        };
        let kind = s.rng.gen_range(0..13);
        let start = Instant::now();
        let send_permit = |p: u64| Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: p });
        let mut admitted = false;
        let mut follow = s.rng.gen_bool(0.7); // go on as if admitted
        let what = match kind {
            0..=2 => {
                raw.send(&send_permit(w.svc.permit(&b.id, pk(key)))).await;
                admitted = usable;
                "valid permit"
            }
            3 => {
                raw.send(&send_permit(w.svc.permit(&other, pk(key)))).await;
                "permit for another broker"
            }
            4 => {
                // Used before (by its rightful owner, who then left).
                let p = w.svc.permit(&b.id, pk(key));
                w.svc.st.lock().permits.remove(&(b.id.to_string(), p));
                raw.send(&send_permit(p)).await;
                "used permit"
            }
            5 => {
                let p = w.svc.permit(&b.id, pk(key));
                if let Some(x) = w.svc.st.lock().permits.get_mut(&(b.id.to_string(), p)) {
                    x.1 = Instant::now();
                }
                raw.send(&send_permit(p)).await;
                "expired permit"
            }
            6 => {
                let p = *[0, 1, 2, u64::MAX, 5_000_000].choose(&mut s.rng).expect("some");
                raw.send(&send_permit(p)).await;
                "made-up permit"
            }
            7 => {
                match wrong(&mut s.rng, key, true, false) {
                    Some(x) => {
                        raw.send_frame(&x).await;
                        "no authentication"
                    }
                    None => {
                        follow = false;
                        "silence"
                    }
                }
            }
            8 => {
                // A valid permit, but nothing after it.
                raw.send(&send_permit(w.svc.permit(&b.id, pk(key)))).await;
                follow = false;
                "no subscription"
            }
            9 => {
                // A valid permit, but something else than a subscription after it.
                raw.send(&send_permit(w.svc.permit(&b.id, pk(key)))).await;
                let m = match s.rng.gen_range(0..4) {
                    0 => Message::Unsubscribe(vec![0]),
                    1 => Message::Broadcast(Broadcast { topics: vec![0], message: probe.payload() }),
                    2 => Message::Direct(Direct { recipient: pk(1), message: probe.payload() }),
                    _ => Message::UserSync(vec![]),
                };
                raw.send(&m).await;
                "no subscription but another message"
            }
            10 => {
                // A permit for a key that is none.
                let p = w.svc.permit(&b.id, vec![1, 2, 3]);
                raw.send(&send_permit(p)).await;
                "permit for no key"
            }
            11 => {
                // Alice's key without a permit: her session must not suffer.
                raw.send(&auth_with_key(USER_NS, 1, now_secs())).await;
                "key instead of permit"
            }
            _ => {
                raw.send(&send_permit(w.svc.permit(&b.id, pk(key)))).await;
                let v = Message::Subscribe(vec![0, 1, 2]).serialize().expect("serializes");
                let mut x = (v.len() as u32).to_be_bytes().to_vec();
                x.extend(&v[..v.len() / 2]);
                raw.send_bytes(&x).await;
                follow = false;
                "half a subscription"
            }
        };
        let mut spam = vec![];
        if follow {
            raw.subscribe(&[0, 1, 2]).await;
            for _ in 0..2 {
                let p = probe.payload();
                spam.push(payload_id(&p));
                raw.broadcast(&[0], &p).await;
                let p = probe.payload();
                spam.push(payload_id(&p));
                raw.direct(&pk(1), &p).await;
            }
        } else {
            admitted = false;
        }
        s.ev(&format!("attempt: {what}"), 1);
        s.log(format!("attempt {key}: {what}, follow {follow}"));
        atts.push(Att { raw, key, what, admitted, start, spam, spam_ok: false });
        if s.rng.gen_bool(0.4) {
            sleep(Duration::from_millis(s.rng.gen_range(0..900))).await;
        }
    }
    // While all that goes on, the honest users talk, and write to the others.
    let mut honest: Vec<u64> = vec![];
    let t_end = Instant::now() + Duration::from_secs(8);
    while Instant::now() < t_end {
        let p = probe.payload();
        honest.push(payload_id(&p));
        alice.broadcast(&[0, 1, 2], &p).await;
        for a in &atts {
            let p = probe.payload();
            bob.direct(&pk(a.key), &p).await;
        }
        sleep(Duration::from_millis(500)).await;
    }
    settle().await;
    // Judge.
    let admitted_spam: HashSet<u64> = atts.iter().filter(|a| a.admitted).flat_map(|a| a.spam.clone()).collect();
    let refused_spam: HashSet<u64> = atts.iter().filter(|a| !a.admitted).flat_map(|a| a.spam.clone()).collect();
    for (who, r) in [("alice", &mut alice), ("bob", &mut bob)] {
        s.check(!r.closed(), "an honest session ended", || who.into());
        let got: Vec<u64> = r
            .drain()
            .iter()
            .filter_map(|m| match m {
                Message::Broadcast(x) => Some(payload_id(&x.message)),
                Message::Direct(x) => Some(payload_id(&x.message)),
                _ => None,
            })
            .collect();
        let bad: Vec<_> = got.iter().filter(|p| refused_spam.contains(p)).collect();
        s.check(bad.is_empty(), "a message of someone not admitted was routed", || format!("{who} got {bad:?}"));
        let h: Vec<u64> = got.iter().copied().filter(|p| honest.contains(p)).collect();
        s.check(h == honest, "honest traffic disturbed", || format!("{who} got {} of {} of alice's messages", h.len(), honest.len()));
        if who == "alice" {
            let n = got.iter().filter(|p| admitted_spam.contains(p)).count();
            s.check(n == admitted_spam.len(), "an admitted user's messages are not routed", || format!("{n} of {}", admitted_spam.len()));
            s.ev("routed", n as u64);
        }
    }
    for a in &mut atts {
        let got = a.raw.drain();
        let data = got.iter().filter(|m| !matches!(m, Message::AuthenticateResponse(_))).count();
        a.spam_ok = true;
        s.state((a.what, a.admitted, data > 0, format!("{:?}", slow.as_ref().map(std::mem::discriminant))));
        if a.admitted {
            s.check(!a.raw.closed(), "an admitted user was put out", || a.what.into());
            s.check(data > 0, "an admitted user receives nothing", || format!("{}: {got:?}", a.what));
            let direct = got.iter().filter(|m| matches!(m, Message::Direct(d) if d.recipient != pk(a.key))).count();
            s.check(direct == 0, "a session acts for another key", || format!("{} got {direct} direct messages for others", a.what));
            let own = got.iter().filter(|m| matches!(m, Message::Direct(d) if d.recipient == pk(a.key))).count();
            s.check(own > 0, "a session acts for another key", || format!("{}: none of the messages to its key", a.what));
            s.ev("admitted", 1);
        } else {
            s.check(data == 0, "someone not admitted receives messages", || format!("{}: {got:?}", a.what));
            let ok1 = got.iter().filter(|m| matches!(m, Message::AuthenticateResponse(r) if r.permit == 1)).count();
            let redeemed = ["no subscription", "no subscription but another message", "permit for no key", "half a subscription"].contains(&a.what) || (a.what == "valid permit");
            s.check(ok1 == 0 || redeemed, "success reported without a permit", || format!("{}: {got:?}", a.what));
            let closed = a.raw.closed_at();
            s.check(closed.is_some_and(|t| t <= a.start + Duration::from_secs(7)), "a refused connection stays open", || format!("{}: closed {:?} after it began", a.what, closed.map(|t| t - a.start)));
            s.ev("refused", 1);
        }
    }
    // What the broker tells others.
    secs(11.0).await;
    for m in peer.drain() {
        heard.hear(&m);
    }
    for a in &atts {
        let loc = heard.location(&pk(a.key));
        s.check(loc.is_some() == a.admitted, "announced though not admitted", || format!("{} {}: location {loc:?}", a.what, a.key));
    }
    let n_users = 2 + atts.iter().filter(|a| a.admitted && !a.raw.closed()).count() as u64;
    let hb = w.svc.calls(Op::Heartbeat).last().map(|c| c.num);
    s.check(hb == Some(n_users), "wrong number of users", || format!("{hb:?} reported, {n_users} are connected"));
    // The refused ones' keys can connect.
    w.svc.clear_faults();
    if let Some(a) = atts.iter().find(|a| !a.admitted) {
        let r = w.user(&b.id, a.key, &[0]).await;
        s.check(r.is_ok(), "a refused key cannot connect later", || format!("{:?}", r.err()));
    }
    s.check(!b.exited(), "the broker exited", || "its task ended".into());
}

/// What an attacker who must not become a peer sends as soon as it can, and how we tell it was acted upon.
async fn spam_as_peer(w: &World, r: &mut Raw, probe: &mut Probe, spam: &mut HashSet<u64>) {
    let mut a = Announcer::new(w.broker_id("evil"));
    a.join(&pk(2)); // claims one of our users
    a.join(&pk(66));
    a.set_topic(0, true);
    a.set_topic(1, true);
    r.send(&a.topics_full()).await;
    r.send(&a.users_full()).await;
    for _ in 0..2 {
        let p = probe.payload();
        spam.insert(payload_id(&p));
        r.broadcast(&[0, 1], &p).await;
        let p = probe.payload();
        spam.insert(payload_id(&p));
        r.direct(&pk(1), &p).await;
    }
}

/// Only handshake messages may have been sent to someone who is no peer.
fn only_handshake(s: &mut Scn, what: &str, got: &[Message]) {
    let bad: Vec<_> = got.iter().filter(|m| !matches!(m, Message::AuthenticateResponse(_) | Message::AuthenticateWithKey(_))).collect();
    s.check(bad.is_empty(), "data sent to someone who is no peer", || format!("{what}: {} messages, first {:?}", bad.len(), bad[0]));
    let n = got.iter().filter(|m| matches!(m, Message::AuthenticateWithKey(_))).count();
    s.check(n <= 1, "more than one proof", || what.into());
}

/// The broker's own proof is genuine and fresh.
fn check_proof(s: &mut Scn, m: &AuthenticateWithKey) {
    use cdn_proto::crypto::signature::{Serializable, SignatureScheme};
    let ok = m.public_key == pk(BROKER_KEY)
        && crate::sig::Pk::deserialize(&m.public_key).is_ok_and(|k| crate::sig::Ed::verify(&k, Namespace::BrokerBrokerAuth.as_str(), &m.timestamp.to_le_bytes(), &m.signature))
        && m.timestamp.abs_diff(now_secs()) <= 5;
    s.check(ok, "the broker does not prove itself", || format!("{m:?}"));
    s.ev("broker_proofs", 1);
}

struct Bystanders {
    alice: Raw,
    bob: Raw,
    peer: Raw,
    honest: Vec<u64>,
    to_bob: Vec<u64>,
}

async fn bystanders(w: &World, b: &crate::world::BrokerH) -> Bystanders {
    let alice = w.user(&b.id, 1, &[0, 1]).await.expect("honest");
    let bob = w.user(&b.id, 2, &[0, 2]).await.expect("honest");
    let mut peer = w.peer(&b.id, "zpeer").await.expect("peer");
    let mut a = Announcer::new(w.broker_id("zpeer"));
    a.set_topic(0, true);
    peer.send(&a.topics_full()).await;
    peer.send(&a.users_full()).await;
    settle().await;
    Bystanders { alice, bob, peer, honest: vec![], to_bob: vec![] }
}
impl Bystanders {
    async fn talk(&mut self, probe: &mut Probe, secs: f64) {
        let end = Instant::now() + Duration::from_secs_f64(secs);
        while Instant::now() < end {
            let p = probe.payload();
            self.honest.push(payload_id(&p));
            self.alice.broadcast(&[0, 1, 2], &p).await;
            let p = probe.payload();
            self.to_bob.push(payload_id(&p));
            self.peer.direct(&pk(2), &p).await;
            // Someone whom only a false peer claims to have.
            let p = probe.payload();
            self.alice.direct(&pk(66), &p).await;
            sleep(Duration::from_millis(400)).await;
        }
    }
    fn judge(&mut self, s: &mut Scn, spam: &HashSet<u64>) {
        for (who, r) in [("alice", &mut self.alice), ("bob", &mut self.bob), ("peer", &mut self.peer)] {
            s.check(!r.closed(), "an honest connection ended", || who.into());
            let got: Vec<u64> = r
                .drain()
                .iter()
                .filter_map(|m| match m {
                    Message::Broadcast(x) => Some(payload_id(&x.message)),
                    Message::Direct(x) => Some(payload_id(&x.message)),
                    _ => None,
                })
                .collect();
            let bad: Vec<_> = got.iter().filter(|p| spam.contains(p)).collect();
            s.check(bad.is_empty(), "a message of someone who is no peer was acted upon", || format!("{who} got {bad:?}"));
            let h: Vec<u64> = got.iter().copied().filter(|p| self.honest.contains(p)).collect();
            s.check(h == self.honest, "honest traffic disturbed", || format!("{who} got {} of {} broadcasts", h.len(), self.honest.len()));
            if who == "bob" {
                let d: Vec<u64> = got.iter().copied().filter(|p| self.to_bob.contains(p)).collect();
                s.check(d == self.to_bob, "honest traffic disturbed", || format!("bob got {} of {} direct messages", d.len(), self.to_bob.len()));
            }
            s.ev("bystander_messages", got.len() as u64);
        }
    }
}

async fn inbound(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let b = w.broker("b").await;
    secs(1.0).await;
    let mut by = bystanders(&w, &b).await;
    let mut probe = Probe { next: 0 };
    let mut spam = HashSet::new();
    let mut kinds = BTreeMap::new();
    struct Att {
        raw: Raw,
        what: String,
        name: String,
        accepted: Option<bool>,
        start: Instant,
    }
    let mut atts = vec![];
    for i in 0..s.rng.gen_range(1..6) {
        let Ok(mut raw) = w.raw(&b.id.private_advertise_endpoint).await else {
            s.fail("the broker does not listen", "refused");
            return;
        };
        let name = format!("p{i}");
        let start = Instant::now();
        let (verdict, what): (Option<bool>, String) = match s.rng.gen_range(0..8) {
            0 => match wrong(&mut s.rng, 5, false, true) {
                Some(x) => {
                    raw.send_frame(&x).await;
                    (Some(false), "no authentication".into())
                }
                None => (Some(false), "silence".into()),
            },
            1 => {
                // A valid user (or another deployment's broker) is no broker of ours.
                let k = s.rng.gen_range(10..20);
                let ns = *[USER_NS, BROKER_NS].choose(&mut s.rng).expect("some");
                raw.send(&auth_with_key(ns, k, now_secs())).await;
                (Some(false), format!("another key, {}", if ns == USER_NS { "as user" } else { "as broker" }))
            }
            2 => {
                raw.send(&auth_with_key(USER_NS, BROKER_KEY, now_secs())).await;
                (Some(false), "the broker key's signature as a user".into())
            }
            _ => {
                let (m, v, wh) = signed(&mut s.rng, BROKER_KEY, BROKER_NS, USER_NS, &mut kinds);
                raw.send(&m).await;
                (v, wh.into())
            }
        };
        let pipelined = verdict == Some(false) && s.rng.gen_bool(0.6);
        if pipelined {
            let named = match s.rng.gen_range(0..4) {
                0 => w.broker_id("zpeer"),
                1 => b.id.clone(),
                _ => w.broker_id(&name),
            };
            raw.send(&Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: named.to_string() })).await;
            spam_as_peer(&w, &mut raw, &mut probe, &mut spam).await;
        }
        s.ev(&format!("attempt: {what}"), 1);
        atts.push(Att { raw, what, name, accepted: verdict, start });
    }
    // Those whose first step succeeds go through with the second, or spoil it.
    settle().await;
    for a in &mut atts {
        let got = a.raw.drain();
        only_handshake(s, &a.what, &got);
        let success = got.iter().any(|m| matches!(m, Message::AuthenticateResponse(r) if r.permit == 1));
        if let Some(v) = a.accepted {
            s.check(success == v, "first half of the handshake", || format!("{}: {}; got {got:?}", a.what, if v { "must succeed" } else { "must fail" }));
        }
        if a.accepted == Some(false) {
            let n = got.iter().filter(|m| matches!(m, Message::AuthenticateWithKey(_))).count();
            s.check(n == 0, "the broker proves itself to anybody", || a.what.clone());
            continue;
        }
        if !success {
            a.accepted = Some(false);
            continue;
        }
        for m in &got {
            if let Message::AuthenticateResponse(r) = m {
                s.check(r.context == b.id.to_string(), "wrong identity given", || format!("{r:?}"));
            }
        }
        match got.last() {
            Some(Message::AuthenticateWithKey(m)) => check_proof(s, m),
            x => {
                s.fail("the broker does not prove itself", format!("{}: {x:?}", a.what));
                continue;
            }
        }
        let second = s.rng.gen_range(0..9);
        let id = w.broker_id(&a.name).to_string();
        let mut good = false;
        let m = match second {
            0 => Message::AuthenticateResponse(AuthenticateResponse { permit: 0, context: id }),
            1 => Message::AuthenticateResponse(AuthenticateResponse { permit: s.rng.gen_range(2..9), context: id }),
            2 => Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: "noslash".into() }),
            3 => Message::TopicSync(vec![]),
            4 => {
                a.accepted = Some(false);
                a.what += ", then silence";
                s.ev("second step: silence", 1);
                continue;
            }
            5 => {
                a.raw.send_frame(&[1, 2, 3]).await;
                a.accepted = Some(false);
                a.what += ", then garbage";
                spam_as_peer(&w, &mut a.raw, &mut probe, &mut spam).await;
                s.ev("second step: garbage", 1);
                continue;
            }
            _ => {
                good = true;
                Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: id })
            }
        };
        a.what += &format!(", then {second}");
        s.ev(if good { "second step: good" } else { "second step: bad" }, 1);
        a.raw.send(&m).await;
        a.accepted = Some(good);
        if good {
            a.raw.send(&{
                let mut x = Announcer::new(w.broker_id(&a.name));
                x.set_topic(0, true);
                x.topics_full()
            })
            .await;
        } else {
            spam_as_peer(&w, &mut a.raw, &mut probe, &mut spam).await;
        }
    }
    settle().await;
    by.talk(&mut probe, 6.5).await;
    settle().await;
    by.judge(s, &spam);
    for a in &mut atts {
        let got = a.raw.drain();
        s.state((a.what.clone(), a.accepted, got.len().min(5)));
        if a.accepted == Some(true) {
            s.check(!a.raw.closed(), "a peer was put out", || a.what.clone());
            let n = got.iter().filter(|m| matches!(m, Message::Broadcast(x) if by.honest.contains(&payload_id(&x.message)))).count();
            s.check(n == by.honest.len(), "a peer is not served", || format!("{}: {n} of {} broadcasts", a.what, by.honest.len()));
            let full = got.iter().filter(|m| matches!(m, Message::TopicSync(_) | Message::UserSync(_))).count();
            s.check(full >= 2, "a peer is not served", || format!("{}: {full} announcements", a.what));
            s.ev("peers_accepted", 1);
        } else {
            only_handshake(s, &a.what, &got);
            let t = a.raw.closed_at();
            s.check(t.is_some_and(|t| t <= a.start + Duration::from_secs(7)), "a refused connection stays open", || format!("{}: closed {:?} after it began", a.what, t.map(|t| t - a.start)));
            s.ev("peers_refused", 1);
        }
    }
    s.check(!b.exited(), "the broker exited", || "its task ended".into());
}

/// The broker dials what discovery lists; the other end may be anybody.
async fn outbound(s: &mut Scn) {
    let f = faults(&mut s.rng);
    let w = World::new(s.seed, f);
    let evil = w.broker_id("zevil"); // greater than "b": the broker is the one who connects
    let l = w.net.listen(&evil.private_advertise_endpoint);
    let b = w.broker("b").await;
    secs(1.0).await;
    let mut by = bystanders(&w, &b).await;
    let mut probe = Probe { next: 0 };
    let mut spam = HashSet::new();
    w.svc.st.lock().brokers.insert(evil.to_string(), (0, Instant::now() + Duration::from_secs(10_000)));
    // It connects at its next heartbeat.
    let Ok(Some((r, wr))) = tokio::time::timeout(Duration::from_secs(13), l.accept_raw()).await else {
        s.fail("the broker does not connect to a listed one", "nothing within 13 s");
        return;
    };
    let link = w.net.links_to(&evil.private_advertise_endpoint).pop();
    let mut raw = Raw::new(r, wr, link);
    let start = Instant::now();
    let mut what = String::new();
    let mut accepted = false;
    let mut kinds = BTreeMap::new();
    match raw.next(Duration::from_secs(4)).await {
        Some(Message::AuthenticateWithKey(m)) => check_proof(s, &m),
        x => s.fail("the broker does not prove itself", format!("{x:?}")),
    }
    let first = s.rng.gen_range(0..8);
    let second = s.rng.gen_range(0..6);
    // One who proves nothing may call itself what it likes: also a broker that is connected, or the broker itself.
    let id = match s.rng.gen_range(0..4) {
        0 if second < 4 => w.broker_id("zpeer").to_string(),
        1 if second < 4 => b.id.to_string(),
        _ => evil.to_string(),
    };
    let borrowed = if id == evil.to_string() { "" } else { " under another's name" };
    let resp = |permit, context: &str| Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.into() });
    let go_on = match first {
        0 => {
            what += "refuses";
            raw.send(&resp(0, "no")).await;
            false
        }
        1 => {
            what += "silence";
            false
        }
        2 => {
            what += "answers something else";
            raw.send(&Message::Subscribe(vec![1])).await;
            false
        }
        3 => {
            what += "answers a bad identity";
            raw.send(&resp(1, "noslash")).await;
            false
        }
        _ => {
            raw.send(&resp(1, &id)).await;
            true
        }
    };
    if go_on {
        match second {
            0 => {
                what += "accepts and says nothing";
            }
            1 => {
                what += "accepts and proves nothing";
                spam_as_peer(&w, &mut raw, &mut probe, &mut spam).await;
            }
            2 => {
                let k = s.rng.gen_range(10..20);
                what += "proves another key";
                raw.send(&auth_with_key(BROKER_NS, k, now_secs())).await;
            }
            3 => {
                what += "proves the key as a user";
                raw.send(&auth_with_key(USER_NS, BROKER_KEY, now_secs())).await;
            }
            _ => {
                let (m, v, wh) = signed(&mut s.rng, BROKER_KEY, BROKER_NS, USER_NS, &mut kinds);
                what += wh;
                raw.send(&m).await;
                match v {
                    Some(v) => accepted = v,
                    None => {
                        settle().await;
                        // Borderline: the broker's own answer decides.
                        accepted = raw.inbox.lock().frames.iter().skip(raw.cursor).any(|(_, f)| {
                            matches!(Message::deserialize(f), Ok(Message::AuthenticateResponse(r)) if r.permit == 1)
                        });
                    }
                }
            }
        }
    }
    what += borrowed;
    if !accepted {
        spam_as_peer(&w, &mut raw, &mut probe, &mut spam).await;
    } else {
        let mut x = Announcer::new(evil.clone());
        x.set_topic(0, true);
        raw.send(&x.topics_full()).await;
    }
    s.ev(&format!("answer: {what}"), 1);
    settle().await;
    by.talk(&mut probe, 6.5).await;
    settle().await;
    by.judge(s, &spam);
    let got = raw.drain();
    s.state((what.clone(), accepted, got.len().min(5)));
    if accepted {
        s.check(!raw.closed(), "a peer was put out", || what.clone());
        let n = got.iter().filter(|m| matches!(m, Message::Broadcast(x) if by.honest.contains(&payload_id(&x.message)))).count();
        s.check(n == by.honest.len(), "a peer is not served", || format!("{what}: {n} of {}", by.honest.len()));
        s.ev("peers_accepted", 1);
    } else {
        only_handshake(s, &what, &got);
        let ok = got.iter().any(|m| matches!(m, Message::AuthenticateResponse(r) if r.permit == 1));
        s.check(!ok, "success reported without proof", || what.clone());
        let t = raw.closed_at();
        s.check(t.is_some_and(|t| t <= start + Duration::from_secs(7)), "a refused connection stays open", || format!("{what}: closed {:?} after it began", t.map(|t| t - start)));
        s.ev("peers_refused", 1);
    }
    s.check(!b.exited(), "the broker exited", || "its task ended".into());
}
