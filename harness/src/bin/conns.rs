//! P20: the replicated views of several brokers (the code's own state objects), joined by links that the explorer
//! controls: which announcement is delivered next, and which one again.
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use cdn_broker::verif::{Connections, DirectMap, TopicSyncMap};
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::Connection;
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::Message;
use pcv::announce::{key, topic_sync, user_sync};
use pcv::group;
use pcv::net::{Faults, Net};
use pcv::run::{Group, Rt, Scn};
use pcv::world::connection_pair;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

fn main() {
    pcv::cli::main(groups);
}

fn groups(id: &str) -> Vec<Group> {
    match id {
        "P20" => vec![
            group!("views-moves", moves, Rt::Virtual, 3_000, 120_000),
            group!("views-departures", departures, Rt::Virtual, 3_000, 120_000),
            group!("views-crossing", crossing, Rt::Virtual, 8_000, 120_000),
            group!("views-overtaken", overtaken, Rt::Virtual, 1, 1),
            group!("views-crossed", crossed, Rt::Virtual, 1, 1),
            group!("views-outages", outages, Rt::Virtual, 2_000, 100_000),
        ],
        _ => vec![],
    }
}

#[derive(Clone)]
enum Ann {
    Users(DirectMap),
    Topics(TopicSyncMap),
}

/// As it travels: encoded and decoded again.
fn sent(a: &Ann) -> Ann {
    let bytes = |m: Message| match m {
        Message::UserSync(b) | Message::TopicSync(b) => b,
        _ => vec![],
    };
    match a {
        Ann::Users(m) => Ann::Users(pcv::announce::read_user_sync(&bytes(user_sync(m))).expect("reads back")),
        Ann::Topics(m) => Ann::Topics(pcv::announce::read_topic_sync(&bytes(topic_sync(m))).expect("reads back")),
    }
}

struct Msg {
    ann: Ann,
    text: String,
    about: BTreeSet<usize>,
    /// Which connects of the users it is about its sender had heard of.
    heard: BTreeMap<usize, BTreeSet<u64>>,
}

struct Mesh {
    ids: Vec<BrokerIdentifier>,
    cs: Vec<Connections>,
    links: BTreeMap<(usize, usize), VecDeque<std::rc::Rc<Msg>>>,
    done: BTreeMap<(usize, usize), Vec<std::rc::Rc<Msg>>>,
    /// Links that are down.
    down: BTreeSet<(usize, usize)>,
    /// Who may have something unannounced about whom.
    dirty: BTreeSet<(usize, usize)>,
    /// Users that have left and are not yet forgotten by all.
    leaving: BTreeSet<usize>,
    conn: Connection,
    keys: Vec<Vec<u8>>,
    // What happened.
    topics: BTreeMap<(usize, usize), BTreeSet<u8>>,
    last: BTreeMap<usize, (usize, bool)>,
    gone: BTreeSet<usize>,
    heard: Vec<BTreeMap<usize, BTreeSet<u64>>>,
    connects: BTreeMap<usize, u64>,
}

impl Mesh {
    async fn new(rng: &mut StdRng, seed: u64) -> Self {
        let net = Net::new(seed, Faults::default());
        let (conn, raw) = connection_pair(&net, "any", Limiter::new(None, None)).await;
        std::mem::forget(raw);
        let n = rng.gen_range(2..5);
        let mut names = ["alpha", "bravo", "carol", "delta", "echo"].to_vec();
        names.shuffle(rng);
        let ids: Vec<BrokerIdentifier> = names[..n]
            .iter()
            .map(|x| BrokerIdentifier { public_advertise_endpoint: format!("{x}:1"), private_advertise_endpoint: format!("{x}:2") })
            .collect();
        let mut cs: Vec<Connections> = ids.iter().map(|i| Connections::new(i.clone())).collect();
        let mut links = BTreeMap::new();
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    cs[a].add_broker(ids[b].clone(), conn.clone(), task());
                    links.insert((a, b), VecDeque::new());
                }
            }
        }
        Self {
            ids,
            cs,
            links,
            done: BTreeMap::new(),
            down: BTreeSet::new(),
            dirty: BTreeSet::new(),
            leaving: BTreeSet::new(),
            conn,
            keys: (0..rng.gen_range(1..5)).map(|i| vec![i as u8; 3]).collect(),
            topics: BTreeMap::new(),
            last: BTreeMap::new(),
            gone: BTreeSet::new(),
            heard: vec![BTreeMap::new(); n],
            connects: BTreeMap::new(),
        }
    }
    fn n(&self) -> usize {
        self.ids.len()
    }
    fn name(&self, b: &BrokerIdentifier) -> Option<usize> {
        self.ids.iter().position(|i| i == b)
    }
    fn loc(&self, at: usize, u: usize) -> Option<usize> {
        self.cs[at].get_broker_identifier_of_user(&key(&self.keys[u])).map(|b| self.name(&b).unwrap_or(usize::MAX))
    }
    fn here(&self, at: usize, u: usize) -> bool {
        self.cs[at].get_user_connection(&key(&self.keys[u])).is_some()
    }
    fn interested(&self, at: usize, t: u8) -> BTreeSet<usize> {
        self.cs[at].get_interested_by_topic(&vec![t], false).0.iter().filter_map(|b| self.name(b)).collect()
    }
    /// Everything that routing at `b` depends on.
    fn snapshot(&self, b: usize) -> Vec<String> {
        let mut v: Vec<String> = (0..self.keys.len()).map(|u| format!("{u}@{:?}/{}", self.loc(b, u), self.here(b, u))).collect();
        v.extend((0..8).map(|t| format!("t{t}:{:?}", self.interested(b, t))));
        v
    }
    fn announce(&mut self, b: usize, ann: Ann, about: BTreeSet<usize>, text: String) {
        let ann = sent(&ann);
        let heard = about.iter().map(|u| (*u, self.heard[b].get(u).cloned().unwrap_or_default())).collect();
        let m = std::rc::Rc::new(Msg { ann, text, about, heard });
        for o in 0..self.n() {
            if o != b && !self.down.contains(&(b, o)) {
                self.links.get_mut(&(b, o)).expect("linked").push_back(m.clone());
            }
        }
    }
    fn users_out(&mut self, s: &mut Scn, b: usize) {
        self.dirty.retain(|(x, _)| *x != b);
        if let Some(d) = self.cs[b].get_partial_user_sync() {
            let about: BTreeSet<usize> =
                (0..self.keys.len()).filter(|u| d.underlying_map.contains_key(&key(&self.keys[*u]))).collect();
            let text = format!("{b} announces users {:?}", about.iter().map(|u| (*u, d.get(&key(&self.keys[*u])).and_then(|x| self.name(x)))).collect::<Vec<_>>());
            s.log(text.clone());
            s.ev("user_announcements", 1);
            self.announce(b, Ann::Users(d), about, text);
        }
    }
    fn topics_out(&mut self, s: &mut Scn, b: usize) {
        if let Some(d) = self.cs[b].get_partial_topic_sync() {
            let text = format!("{b} announces topics");
            s.log(text.clone());
            s.ev("topic_announcements", 1);
            self.announce(b, Ann::Topics(d), BTreeSet::new(), text);
        }
    }
    fn connect(&mut self, s: &mut Scn, b: usize, u: usize, topics: &[u8]) {
        // Is this one known to be later than the one before?
        let before = self.connects.get(&u).copied().unwrap_or(0);
        let known = self.heard[b].entry(u).or_default();
        let ordered = known.len() as u64 == before;
        known.insert(before);
        s.log(format!("user {u} connects to {b} with {topics:?}{}", if ordered { "" } else { " (concurrently)" }));
        self.cs[b].add_user(&key(&self.keys[u]), self.conn.clone(), topics, task());
        *self.connects.entry(u).or_default() += 1;
        self.last.insert(u, (b, ordered));
        self.dirty.insert((b, u));
        self.gone.remove(&u);
        self.topics.insert((b, u), topics.iter().copied().collect());
        self.topics_out(s, b);
        self.users_out(s, b);
        s.ev("connects", 1);
    }
    fn leave(&mut self, s: &mut Scn, b: usize, u: usize) {
        s.log(format!("user {u} leaves {b}"));
        self.dirty.insert((b, u));
        self.leaving.insert(u);
        self.cs[b].remove_user(key(&self.keys[u]), "left");
        if self.last.get(&u).is_some_and(|l| l.0 == b) {
            self.gone.insert(u);
        }
        s.ev("departures", 1);
    }
    fn apply(&mut self, from: usize, to: usize, a: &Ann) {
        match sent(a) {
            Ann::Users(m) => self.cs[to].apply_user_sync(m),
            Ann::Topics(m) => self.cs[to].apply_topic_sync(&self.ids[from].clone(), m),
        }
    }
    fn ready(&self) -> Vec<(usize, usize)> {
        self.links.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect()
    }
    /// All there is to say about a user has been heard by all.
    fn settled(&mut self, u: usize) -> bool {
        let quiet = self.dirty.iter().all(|(_, x)| *x != u)
            && self.down.is_empty()
            && self.links.values().flatten().all(|m| !m.about.contains(&u));
        if quiet {
            self.leaving.remove(&u);
        }
        quiet
    }
    /// Let all that concerns a user be heard.
    fn calm(&mut self, s: &mut Scn, rng: &mut StdRng, u: usize) {
        while self.down.is_empty() && !self.settled(u) {
            let r: Vec<(usize, usize)> =
                self.links.iter().filter(|(_, q)| q.iter().any(|m| m.about.contains(&u))).map(|(k, _)| *k).collect();
            let d: Vec<usize> = self.dirty.iter().filter(|(_, x)| *x == u).map(|(b, _)| *b).collect();
            match (r.choose(rng), d.choose(rng)) {
                (Some(l), None) => self.deliver(s, *l),
                (Some(l), Some(_)) if rng.gen() => self.deliver(s, *l),
                (_, Some(b)) => self.users_out(s, *b),
                (None, None) => break,
            }
        }
    }
    fn set_down(&mut self, s: &mut Scn, a: usize, b: usize) {
        s.log(format!("the link between {a} and {b} breaks"));
        for (x, y) in [(a, b), (b, a)] {
            self.down.insert((x, y));
            self.links.get_mut(&(x, y)).expect("linked").clear();
            self.done.remove(&(x, y));
            let id = self.ids[y].clone();
            self.cs[x].remove_broker(&id, "link");
        }
        s.ev("outages", 1);
    }
    fn set_up(&mut self, s: &mut Scn, a: usize, b: usize) {
        s.log(format!("a link between {a} and {b} again"));
        for (x, y) in [(a, b), (b, a)] {
            self.down.remove(&(x, y));
            let (id, conn) = (self.ids[y].clone(), self.conn.clone());
            self.cs[x].add_broker(id, conn, task());
            self.full(x, y);
        }
    }
    /// The whole state of one broker to another.
    fn full(&mut self, x: usize, y: usize) {
        if let Some(t) = self.cs[x].get_full_topic_sync() {
            let m = Msg { ann: sent(&Ann::Topics(t)), text: format!("{x} tells all its topics"), about: BTreeSet::new(), heard: BTreeMap::new() };
            self.links.get_mut(&(x, y)).expect("linked").push_back(std::rc::Rc::new(m));
        }
        if let Some(d) = self.cs[x].get_full_user_sync() {
            let about: BTreeSet<usize> = (0..self.keys.len()).collect();
            let heard = about.iter().map(|u| (*u, self.heard[x].get(u).cloned().unwrap_or_default())).collect();
            let text = format!(
                "{x} tells all users {:?}",
                about.iter().map(|u| (*u, d.get(&key(&self.keys[*u])).and_then(|v| self.name(v)))).collect::<Vec<_>>()
            );
            let m = Msg { ann: sent(&Ann::Users(d)), text, about, heard };
            self.links.get_mut(&(x, y)).expect("linked").push_back(std::rc::Rc::new(m));
        }
    }
    /// A broker starts anew, with nothing.
    fn restart(&mut self, s: &mut Scn, b: usize) {
        s.log(format!("{b} starts anew"));
        let others: Vec<usize> = (0..self.n()).filter(|o| *o != b).collect();
        for o in &others {
            if !self.down.contains(&(b, *o)) {
                self.set_down(s, b, *o);
            }
        }
        for u in 0..self.keys.len() {
            if self.here(b, u) && self.last.get(&u).is_some_and(|l| l.0 == b) {
                self.gone.insert(u);
            }
            if self.here(b, u) {
                self.leaving.insert(u);
            }
            self.topics.remove(&(b, u));
        }
        self.cs[b] = Connections::new(self.ids[b].clone());
        self.heard[b].clear();
        for u in 0..self.keys.len() {
            self.dirty.remove(&(b, u));
        }
        s.ev("restarts", 1);
    }
    fn deliver(&mut self, s: &mut Scn, (f, t): (usize, usize)) {
        let m = self.links.get_mut(&(f, t)).expect("linked").pop_front().expect("ready");
        s.log(format!("at {t}: {}", m.text));
        self.apply(f, t, &m.ann);
        for u in &m.about {
            self.dirty.insert((t, *u));
        }
        for (u, h) in &m.heard {
            self.heard[t].entry(*u).or_default().extend(h);
        }
        self.done.entry((f, t)).or_default().push(m);
        s.ev("deliveries", 1);
    }
    fn again(&mut self, s: &mut Scn, (f, t): (usize, usize), m: &std::rc::Rc<Msg>) {
        let before = self.snapshot(t);
        self.apply(f, t, &m.ann);
        let after = self.snapshot(t);
        s.ev("repeats", 1);
        s.check(before == after, "repeating an announcement changes something", || {
            format!("again at {t}: {}; {before:?} became {after:?}", m.text)
        });
    }
    fn settle(&mut self, s: &mut Scn, rng: &mut StdRng) {
        for _ in 0..4 {
            loop {
                let r = self.ready();
                let Some(l) = r.choose(rng) else { break };
                self.deliver(s, *l);
            }
            for b in 0..self.n() {
                self.topics_out(s, b);
                self.users_out(s, b);
            }
        }
    }
    fn judge(&mut self, s: &mut Scn) {
        for u in 0..self.keys.len() {
            let homes: Vec<usize> = (0..self.n()).filter(|b| self.here(*b, u)).collect();
            let views: Vec<Option<usize>> = (0..self.n()).map(|b| self.loc(b, u)).collect();
            let story = || format!("user {u} is connected to {homes:?}; locations known: {views:?}");
            s.state((homes.clone(), views.clone(), self.last.get(&u).copied(), self.n(), self.topics.len(), self.connects.get(&u).copied()));
            s.check(homes.len() <= 1, "a user stays connected to two brokers", story);
            match homes.first() {
                Some(h) => {
                    s.check(views.iter().all(|v| *v == Some(*h)), "brokers disagree about where a connected user is", story);
                }
                None => {
                    s.check(views.iter().all(Option::is_none), "a location is known for a user that left", story);
                }
            }
            if let Some((b, true)) = self.last.get(&u) {
                if !self.gone.contains(&u) {
                    s.check(homes == [*b], "a user is not at the broker it last connected to", || format!("{}; last at {b}", story()));
                }
            }
        }
        for b in 0..self.n() {
            for t in 0..8u8 {
                let want: BTreeSet<usize> = (0..self.n())
                    .filter(|o| *o != b)
                    .filter(|o| (0..self.keys.len()).any(|u| self.here(*o, u) && self.topics.get(&(*o, u)).is_some_and(|x| x.contains(&t))))
                    .collect();
                let got = self.interested(b, t);
                s.check(got == want, "a broker's view of its peers' topics is wrong", || {
                    format!("at {b}, topic {t}: {got:?} instead of {want:?}")
                });
            }
        }
    }
}

fn task() -> tokio::task::AbortHandle {
    tokio::spawn(std::future::pending::<()>()).abort_handle()
}

fn some_topics(rng: &mut StdRng) -> Vec<u8> {
    (0..8u8).filter(|_| rng.gen_bool(0.25)).collect()
}

/// Steps that change topics only.
fn retopic(m: &mut Mesh, s: &mut Scn, rng: &mut StdRng) {
    let open: Vec<(usize, usize)> =
        (0..m.n()).flat_map(|b| (0..m.keys.len()).map(move |u| (b, u))).filter(|(b, u)| m.here(*b, *u)).collect();
    let Some((b, u)) = open.choose(rng).copied() else { return };
    let ts = some_topics(rng);
    let k = key(&m.keys[u]);
    if rng.gen() {
        m.cs[b].subscribe_user_to(&k, ts.clone());
        m.topics.entry((b, u)).or_default().extend(ts);
    } else {
        m.cs[b].unsubscribe_user_from(&k, &ts);
        let e = m.topics.entry((b, u)).or_default();
        ts.iter().for_each(|t| {
            e.remove(t);
        });
    }
    s.ev("topic_changes", 1);
}

/// Connects and moves only: any order of delivery that keeps each link's, and any repetition at any later time.
async fn moves(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = Mesh::new(&mut rng, s.seed).await;
    for _ in 0..rng.gen_range(5..50) {
        match rng.gen_range(0..10) {
            0..=2 => {
                let (b, u) = (rng.gen_range(0..m.n()), rng.gen_range(0..m.keys.len()));
                let ts = some_topics(&mut rng);
                m.connect(s, b, u, &ts);
            }
            3 => retopic(&mut m, s, &mut rng),
            4 => {
                let b = rng.gen_range(0..m.n());
                m.topics_out(s, b);
                m.users_out(s, b);
            }
            5 => {
                let ks: Vec<(usize, usize)> = m.done.keys().copied().collect();
                if let Some(k) = ks.choose(&mut rng) {
                    let old = m.done[k].choose(&mut rng).expect("non-empty").clone();
                    m.again(s, *k, &old);
                }
            }
            _ => {
                let r = m.ready();
                if let Some(l) = r.choose(&mut rng) {
                    m.deliver(s, *l);
                }
            }
        }
        if s.failed() {
            return;
        }
    }
    m.settle(s, &mut rng);
    m.judge(s);
}

/// Departures as well.  A broker forgets a user whose departure it announced, and with it the version, so that there
/// is nothing to tell the old from the new when a departure and a later connect cross (see `overtaken` and `crossed`,
/// which are known findings).  Here they do not: a user leaves when all have heard where it is, and comes back when
/// all have heard that it left.  What concerns other users travels as it likes.  Repeats come at once.
async fn departures(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = Mesh::new(&mut rng, s.seed).await;
    for _ in 0..rng.gen_range(5..60) {
        match rng.gen_range(0..11) {
            0..=2 => come(&mut m, s, &mut rng),
            3 | 4 => go(&mut m, s, &mut rng),
            5 => retopic(&mut m, s, &mut rng),
            6 => {
                let b = rng.gen_range(0..m.n());
                m.topics_out(s, b);
                m.users_out(s, b);
            }
            _ => hear(&mut m, s, &mut rng),
        }
        if s.failed() {
            return;
        }
    }
    m.settle(s, &mut rng);
    m.judge(s);
}

fn come(m: &mut Mesh, s: &mut Scn, rng: &mut StdRng) {
    let (b, u) = (rng.gen_range(0..m.n()), rng.gen_range(0..m.keys.len()));
    let ts = some_topics(rng);
    if m.leaving.contains(&u) && rng.gen() {
        m.calm(s, rng, u);
    }
    if !m.leaving.contains(&u) || m.settled(u) {
        m.connect(s, b, u, &ts);
    }
}
fn go(m: &mut Mesh, s: &mut Scn, rng: &mut StdRng) {
    let open: Vec<(usize, usize)> =
        (0..m.n()).flat_map(|b| (0..m.keys.len()).map(move |u| (b, u))).filter(|(b, u)| m.here(*b, *u)).collect();
    if let Some((b, u)) = open.choose(rng).copied() {
        if rng.gen() {
            m.calm(s, rng, u);
        }
        if m.here(b, u) && m.settled(u) {
            m.leave(s, b, u);
        }
    }
}
fn hear(m: &mut Mesh, s: &mut Scn, rng: &mut StdRng) {
    let r = m.ready();
    if let Some(l) = r.choose(rng) {
        m.deliver(s, *l);
        if rng.gen_bool(0.3) {
            let old = m.done[l].last().expect("just now").clone();
            m.again(s, *l, &old);
        }
    }
}

/// A departure that crosses the same user's connects elsewhere, as far as versions tell them apart: all knew where the
/// user was; it leaves from there, and connects where that has not been heard yet (or where it was), any number of times.
async fn crossing(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = Mesh::new(&mut rng, s.seed).await;
    for _ in 0..rng.gen_range(1..5) {
        let u = rng.gen_range(0..m.keys.len());
        m.calm(s, &mut rng, u);
        let homes: Vec<usize> = (0..m.n()).filter(|b| m.here(*b, u)).collect();
        let home = match homes[..] {
            [h] => h,
            _ => {
                let (b, ts) = (rng.gen_range(0..m.n()), some_topics(&mut rng));
                m.connect(s, b, u, &ts);
                m.calm(s, &mut rng, u);
                b
            }
        };
        let mut left = false;
        let elsewhere = rng.gen_bool(0.6).then(|| rng.gen_range(0..m.n()));
        for _ in 0..rng.gen_range(2..14) {
            match rng.gen_range(0..8) {
                0 | 1 if !left && m.here(home, u) => {
                    left = true;
                    m.leave(s, home, u);
                    s.ev("crossing_departures", 1);
                }
                2 | 3 => {
                    let b = match elsewhere {
                        Some(e) => *[e, e, home].choose(&mut rng).expect("some"),
                        None => rng.gen_range(0..m.n()),
                    };
                    let pending = b == home && m.dirty.contains(&(b, u));
                    if m.loc(b, u).is_some() || pending {
                        let ts = some_topics(&mut rng);
                        m.connect(s, b, u, &ts);
                        left |= b == home;
                    }
                }
                4 => retopic(&mut m, s, &mut rng),
                5 => m.users_out(s, home),
                _ => hear(&mut m, s, &mut rng),
            }
            if s.failed() {
                return;
            }
        }
    }
    m.settle(s, &mut rng);
    m.judge(s);
}

/// Links break (what was on them is lost) and are made again, brokers start anew, and each new link begins with the
/// complete state.
async fn outages(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = Mesh::new(&mut rng, s.seed).await;
    for _ in 0..rng.gen_range(5..60) {
        match rng.gen_range(0..14) {
            0..=2 => come(&mut m, s, &mut rng),
            3 | 4 => go(&mut m, s, &mut rng),
            5 => retopic(&mut m, s, &mut rng),
            6 => {
                let b = rng.gen_range(0..m.n());
                m.topics_out(s, b);
                m.users_out(s, b);
            }
            7 => {
                let (a, b) = (rng.gen_range(0..m.n()), rng.gen_range(0..m.n()));
                let calm = (0..m.keys.len()).all(|u| !m.leaving.contains(&u) || m.settled(u));
                if a != b && calm && !m.down.contains(&(a, b)) {
                    let known = rng.gen() && {
                        (0..m.keys.len()).for_each(|u| m.calm(s, &mut rng, u));
                        (0..m.keys.len()).all(|u| m.settled(u))
                    };
                    if known {
                        m.restart(s, b);
                    } else {
                        m.set_down(s, a, b);
                    }
                }
            }
            8 | 9 => {
                let d: Vec<(usize, usize)> = m.down.iter().copied().collect();
                if let Some((a, b)) = d.choose(&mut rng).copied() {
                    m.set_up(s, a, b);
                }
            }
            _ => hear(&mut m, s, &mut rng),
        }
        if s.failed() {
            return;
        }
    }
    while let Some((a, b)) = m.down.iter().next().copied() {
        m.set_up(s, a, b);
    }
    m.settle(s, &mut rng);
    m.judge(s);
}

async fn mesh3(s: &mut Scn, rng: &mut StdRng, ok: fn(&Mesh) -> bool) -> Mesh {
    loop {
        let m = Mesh::new(rng, s.seed).await;
        if m.n() == 3 && ok(&m) {
            return m;
        }
    }
}
fn flush(m: &mut Mesh, s: &mut Scn, l: (usize, usize)) {
    while !m.links[&l].is_empty() {
        m.deliver(s, l);
    }
}

/// Known finding: a user leaves one broker and connects to another that has heard of its departure; a third hears of
/// the new connection first.
async fn overtaken(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = mesh3(s, &mut rng, |m| m.ids[1] < m.ids[0]).await;
    m.connect(s, 0, 0, &[1]);
    m.settle(s, &mut rng);
    m.leave(s, 0, 0);
    m.topics_out(s, 0);
    m.users_out(s, 0);
    flush(&mut m, s, (0, 1));
    m.connect(s, 1, 0, &[1]);
    flush(&mut m, s, (1, 2));
    flush(&mut m, s, (0, 2));
    m.settle(s, &mut rng);
    let views: Vec<Option<usize>> = (0..3).map(|b| m.loc(b, 0)).collect();
    s.ev("oracle_evaluations", 1);
    s.state(views.clone());
    if views != [Some(1); 3] {
        s.fail(
            "overtaken departure: a third broker that hears of a user's new connection before its departure elsewhere loses the user",
            format!("locations known: {views:?}"),
        );
    }
}

/// Known finding: a user moves back and forth, and the connection it left behind ends before its broker hears of the
/// move.
async fn crossed(s: &mut Scn) {
    let mut rng = s.rng.clone();
    let mut m = mesh3(s, &mut rng, |_| true).await;
    m.connect(s, 2, 0, &[1]);
    m.settle(s, &mut rng);
    m.connect(s, 0, 0, &[1]);
    m.leave(s, 0, 0);
    m.users_out(s, 0);
    m.connect(s, 0, 0, &[1]);
    m.leave(s, 2, 0);
    m.users_out(s, 2);
    m.last.insert(0, (0, true));
    m.gone.remove(&0);
    m.settle(s, &mut rng);
    let views: Vec<Option<usize>> = (0..3).map(|b| m.loc(b, 0)).collect();
    s.ev("oracle_evaluations", 1);
    s.state(views.clone());
    if !m.here(0, 0) || views != [Some(0); 3] {
        s.fail(
            "crossed departure: the end of a connection that a user left behind, crossing its return elsewhere, ends or loses the new connection",
            format!("locations known: {views:?}, still connected: {}", m.here(0, 0)),
        );
    }
}
