//! `SimNet`: an in-memory transport under the harness's control, plugged in below the real `Connection` code
//! (framing, queues, limiter).  Delays, chunking, stalls, resets and refusals are injected per network or per link.
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Weak};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use async_trait::async_trait;
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{Connection, Listener, Protocol, UnfinalizedConnection};
use cdn_proto::error::{Error, Result};
use parking_lot::Mutex;
use rand::{rngs::StdRng, Rng, SeedableRng};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;
use tokio::time::{sleep_until, Instant, Sleep};

static NEXT: AtomicU64 = AtomicU64::new(1);
static NETS: Mutex<Option<HashMap<u64, Weak<Net>>>> = Mutex::new(None);

/// What the network does to data and connection attempts.
#[derive(Clone, Debug)]
pub struct Faults {
    /// Each chunk written is delayed by a duration drawn from this range (order within a direction is kept).
    pub latency_us: (u64, u64),
    /// Reads return at most a number of bytes drawn from this range.
    pub chunk: (usize, usize),
    /// Capacity of each direction.
    pub capacity: usize,
    /// Extra time a connection attempt takes.
    pub connect_us: (u64, u64),
    /// The components' ends keep up to so many bytes written to them until they are flushed (as TLS may).
    pub buffer: usize,
}

impl Default for Faults {
    fn default() -> Self {
        Self { latency_us: (0, 0), chunk: (1 << 20, 1 << 20), capacity: 1 << 20, connect_us: (0, 0), buffer: 0 }
    }
}

struct ListenerEntry {
    generation: u64,
    tx: mpsc::UnboundedSender<SimUnfinalized>,
}

pub struct Net {
    pub id: u64,
    rng: Mutex<StdRng>,
    pub faults: Mutex<Faults>,
    listeners: Mutex<HashMap<String, ListenerEntry>>,
    links: Mutex<Vec<Arc<Link>>>,
    /// Endpoints that refuse connections / never answer.
    pub refuse: Mutex<Vec<String>>,
    pub hang: Mutex<Vec<String>>,
    /// Addresses that cannot be bound to.
    pub busy: Mutex<Vec<String>>,
    /// (endpoint, accepted) of each connection attempt.
    pub attempts: Mutex<Vec<(Instant, String, bool)>>,
}

/// One established connection: `a` is the side that connected, `b` the side that accepted.
pub struct Link {
    pub id: u64,
    pub endpoint: String,
    pub a2b: Arc<Pipe>,
    pub b2a: Arc<Pipe>,
    /// The connecting side does not do its part of the transport's handshake.
    pub mute: bool,
}

impl Link {
    /// Both sides see an I/O error at once; undelivered data is lost.
    pub fn reset(&self) {
        self.a2b.cut(true);
        self.b2a.cut(true);
    }
    /// Both sides see an end of file after what was written so far.
    pub fn eof(&self) {
        self.a2b.cut(false);
        self.b2a.cut(false);
    }
    pub fn stall(&self, on: bool) {
        self.a2b.stall(on);
        self.b2a.stall(on);
    }
    pub fn is_open(&self) -> bool {
        self.a2b.is_open() && self.b2a.is_open()
    }
    /// The permit in the first frame that the connecting side sent, if that is what it is.
    pub fn permit_presented(&self) -> Option<u64> {
        use cdn_proto::message::Message;
        let head = self.a2b.st.lock().head.clone();
        let n = u32::from_be_bytes(head.get(..4)?.try_into().ok()?) as usize;
        match Message::deserialize(head.get(4..4 + n)?).ok()? {
            Message::AuthenticateWithPermit(p) => Some(p.permit),
            _ => None,
        }
    }
    pub fn mentions(&self, what: &str) -> bool {
        self.endpoint.contains(what) || self.a2b.head_contains(what) || self.b2a.head_contains(what)
    }
}

impl Net {
    pub fn new(seed: u64, faults: Faults) -> Arc<Self> {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        let net = Arc::new(Self {
            id,
            rng: Mutex::new(StdRng::seed_from_u64(seed)),
            faults: Mutex::new(faults),
            listeners: Mutex::default(),
            links: Mutex::default(),
            refuse: Mutex::default(),
            hang: Mutex::default(),
            busy: Mutex::default(),
            attempts: Mutex::default(),
        });
        let mut nets = NETS.lock();
        let nets = nets.get_or_insert_with(HashMap::new);
        nets.retain(|_, n| n.strong_count() > 0);
        nets.insert(id, Arc::downgrade(&net));
        net
    }

    /// An endpoint of this network.
    pub fn ep(&self, name: &str) -> String {
        format!("n{}.{name}", self.id)
    }

    fn of(endpoint: &str) -> Option<Arc<Net>> {
        let id: u64 = endpoint.strip_prefix('n')?.split('.').next()?.parse().ok()?;
        NETS.lock().as_ref()?.get(&id)?.upgrade()
    }

    pub fn links(&self) -> Vec<Arc<Link>> {
        self.links.lock().clone()
    }
    pub fn links_to(&self, endpoint: &str) -> Vec<Arc<Link>> {
        self.links.lock().iter().filter(|l| l.endpoint == endpoint).cloned().collect()
    }
    pub fn open_links(&self) -> Vec<Arc<Link>> {
        self.links.lock().iter().filter(|l| l.is_open()).cloned().collect()
    }
    pub fn is_listening(&self, endpoint: &str) -> bool {
        self.listeners.lock().contains_key(endpoint)
    }

    /// Forget the connections that ended, and what was attempted.
    pub fn forget(&self) {
        let mut l = self.links.lock();
        l.retain(|l| !(l.a2b.reader_gone() && l.b2a.reader_gone() && l.a2b.writer_gone() && l.b2a.writer_gone()));
        l.shrink_to_fit();
        *self.attempts.lock() = vec![];
    }

    fn draw(&self, (lo, hi): (u64, u64)) -> u64 {
        if hi <= lo {
            lo
        } else {
            self.rng.lock().gen_range(lo..=hi)
        }
    }

    /// Connect as the harness (raw streams).
    pub async fn dial(self: &Arc<Self>, endpoint: &str) -> io::Result<(SimRead, SimWrite, Arc<Link>)> {
        self.dial_(endpoint, false).await
    }
    /// Connect, without ever doing our part of the handshake.
    pub async fn dial_mute(self: &Arc<Self>, endpoint: &str) -> io::Result<(SimRead, SimWrite, Arc<Link>)> {
        self.dial_(endpoint, true).await
    }
    async fn dial_(self: &Arc<Self>, endpoint: &str, mute: bool) -> io::Result<(SimRead, SimWrite, Arc<Link>)> {
        let wait = {
            let f = self.faults.lock().connect_us;
            self.draw(f)
        };
        if wait > 0 {
            tokio::time::sleep(Duration::from_micros(wait)).await;
        }
        if self.hang.lock().iter().any(|e| e == endpoint) {
            std::future::pending::<()>().await;
        }
        let refused = self.refuse.lock().iter().any(|e| e == endpoint);
        let tx = self.listeners.lock().get(endpoint).map(|l| l.tx.clone());
        let ok = !refused && tx.as_ref().is_some_and(|t| !t.is_closed());
        self.attempts.lock().push((Instant::now(), endpoint.to_string(), ok));
        let refused = || io::Error::new(io::ErrorKind::ConnectionRefused, "refused");
        if !ok {
            return Err(refused());
        }
        let tx = tx.ok_or_else(refused)?;
        let cap = self.faults.lock().capacity;
        let a2b = Pipe::new(self, cap);
        let b2a = Pipe::new(self, cap);
        let link = Arc::new(Link {
            id: NEXT.fetch_add(1, Ordering::SeqCst),
            endpoint: endpoint.to_string(),
            a2b: a2b.clone(),
            b2a: b2a.clone(),
            mute,
        });
        self.links.lock().push(link.clone());
        tx.send(SimUnfinalized { r: SimRead::new(a2b.clone()), w: SimWrite::new(b2a.clone()), link: link.clone() }).map_err(|_| refused())?;
        Ok((SimRead::new(b2a), SimWrite::new(a2b), link))
    }
}

#[derive(Default)]
struct PipeState {
    buf: VecDeque<(Instant2, VecDeque<u8>)>,
    queued: usize,
    writer_gone: bool,
    reader_gone: bool,
    reset: bool,
    stalled: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    head: Vec<u8>,
    total: u64,
    /// What the writer was told was written.
    accepted: u64,
    /// After this many more bytes the direction is cut (Some((n, reset))).
    cut_after: Option<(u64, bool)>,
    /// Flip a bit of the byte at this absolute offset.
    corrupt_at: Option<u64>,
}
type Instant2 = Instant;

/// One direction of a link.
pub struct Pipe {
    net: Weak<Net>,
    cap: AtomicUsize,
    st: Mutex<PipeState>,
}

impl Pipe {
    fn new(net: &Arc<Net>, cap: usize) -> Arc<Self> {
        Arc::new(Self { net: Arc::downgrade(net), cap: AtomicUsize::new(cap), st: Mutex::default() })
    }
    fn wake(st: &mut PipeState) {
        if let Some(w) = st.reader.take() {
            w.wake();
        }
        if let Some(w) = st.writer.take() {
            w.wake();
        }
    }
    pub fn cut(&self, reset: bool) {
        let mut st = self.st.lock();
        st.writer_gone = true;
        if reset {
            st.reset = true;
            st.buf.clear();
            st.queued = 0;
        }
        Self::wake(&mut st);
    }
    pub fn cut_after(&self, bytes: u64, reset: bool) {
        self.st.lock().cut_after = Some((bytes, reset));
    }
    pub fn corrupt_at(&self, offset: u64) {
        self.st.lock().corrupt_at = Some(offset);
    }
    pub fn stall(&self, on: bool) {
        let mut st = self.st.lock();
        st.stalled = on;
        Self::wake(&mut st);
    }
    pub fn is_open(&self) -> bool {
        let st = self.st.lock();
        !st.writer_gone && !st.reader_gone && !st.reset
    }
    fn is_writable(&self) -> bool {
        let st = self.st.lock();
        !(st.reset || st.reader_gone || st.writer_gone)
    }
    pub fn set_capacity(&self, cap: usize) {
        self.cap.store(cap, Ordering::SeqCst);
    }
    pub fn stalled(&self) -> bool {
        self.st.lock().stalled
    }
    pub fn reader_gone(&self) -> bool {
        self.st.lock().reader_gone
    }
    pub fn writer_gone(&self) -> bool {
        self.st.lock().writer_gone
    }
    pub fn total(&self) -> u64 {
        self.st.lock().total
    }
    pub fn accepted(&self) -> u64 {
        self.st.lock().accepted
    }
    pub fn queued(&self) -> usize {
        self.st.lock().queued
    }
    fn head_contains(&self, what: &str) -> bool {
        let st = self.st.lock();
        st.head.windows(what.len()).any(|w| w == what.as_bytes())
    }
}

pub struct SimRead {
    p: Arc<Pipe>,
    timer: Option<Pin<Box<Sleep>>>,
}
impl SimRead {
    fn new(p: Arc<Pipe>) -> Self {
        Self { p, timer: None }
    }
}
pub struct SimWrite {
    p: Arc<Pipe>,
    /// What was not flushed yet.
    own: Vec<u8>,
    buffer: usize,
}
impl SimWrite {
    fn new(p: Arc<Pipe>) -> Self {
        Self { p, own: vec![], buffer: 0 }
    }
    fn buffered(mut self) -> Self {
        self.buffer = self.p.net.upgrade().map_or(0, |n| n.faults.lock().buffer);
        self
    }
    fn poll_flush_own(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while !self.own.is_empty() {
            let n = match self.p.poll_write(cx, &self.own) {
                Poll::Ready(Ok(n)) => n,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            self.own.drain(..n);
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncRead for SimRead {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let p = self.p.clone();
        loop {
            let due = {
                let mut st = p.st.lock();
                if st.reset {
                    return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")));
                }
                if st.stalled {
                    st.reader = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                match st.buf.front() {
                    None => {
                        if st.writer_gone {
                            return Poll::Ready(Ok(()));
                        }
                        st.reader = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    Some((due, _)) if *due <= Instant::now() => {
                        let max = p.net.upgrade().map_or(usize::MAX, |n| {
                            let (lo, hi) = n.faults.lock().chunk;
                            n.draw((lo as u64, hi as u64)) as usize
                        });
                        let n = max.max(1).min(out.remaining());
                        let (_, front) = st.buf.front_mut().expect("seen");
                        let n = n.min(front.len());
                        let (s1, s2) = front.as_slices();
                        let k = n.min(s1.len());
                        out.put_slice(&s1[..k]);
                        out.put_slice(&s2[..n - k]);
                        front.drain(..n);
                        if front.is_empty() {
                            st.buf.pop_front();
                        }
                        st.queued -= n;
                        if let Some(w) = st.writer.take() {
                            w.wake();
                        }
                        return Poll::Ready(Ok(()));
                    }
                    Some((due, _)) => {
                        let due = *due;
                        st.reader = Some(cx.waker().clone());
                        due
                    }
                }
            };
            let mut t = Box::pin(sleep_until(due));
            if t.as_mut().poll(cx).is_pending() {
                self.timer = Some(t);
                return Poll::Pending;
            }
        }
    }
}

impl Pipe {
    fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let p = self;
        let (lat, _) = p.net.upgrade().map_or(((0, 0), ()), |n| (n.faults.lock().latency_us, ()));
        let lat = p.net.upgrade().map_or(0, |n| n.draw(lat));
        let mut st = p.st.lock();
        if st.reset || st.reader_gone || st.writer_gone {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")));
        }
        let cap = p.cap.load(Ordering::SeqCst);
        if st.queued >= cap {
            st.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = data.len().min(cap - st.queued);
        let mut keep = n as u64;
        let mut cut = None;
        if let Some((left, reset)) = st.cut_after {
            if keep >= left {
                keep = left;
                cut = Some(reset);
            } else {
                st.cut_after = Some((left - keep, reset));
            }
        }
        let mut bytes: VecDeque<u8> = data[..keep as usize].iter().copied().collect();
        if let Some(at) = st.corrupt_at {
            if at >= st.total && at < st.total + keep {
                bytes[(at - st.total) as usize] ^= 0x41;
                st.corrupt_at = None;
            }
        }
        if st.head.len() < 2048 {
            let room = 2048 - st.head.len();
            st.head.extend(data.iter().take(room));
        }
        st.total += keep;
        st.accepted += n as u64;
        st.queued += keep as usize;
        let mut due = Instant::now() + Duration::from_micros(lat);
        if let Some((last, _)) = st.buf.back() {
            due = due.max(*last);
        }
        if keep > 0 {
            st.buf.push_back((due, bytes));
        }
        if let Some(w) = st.reader.take() {
            w.wake();
        }
        if let Some(reset) = cut {
            drop(st);
            p.cut(reset);
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for SimWrite {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        if self.buffer == 0 {
            return self.p.poll_write(cx, data);
        }
        if self.own.len() >= self.buffer {
            std::task::ready!(self.poll_flush_own(cx))?;
        }
        if !self.p.is_writable() {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")));
        }
        let n = data.len().min(self.buffer - self.own.len());
        self.own.extend_from_slice(&data[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush_own(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        std::task::ready!(self.poll_flush_own(cx))?;
        self.p.cut(false);
        Poll::Ready(Ok(()))
    }
}

impl Drop for SimRead {
    fn drop(&mut self) {
        let mut st = self.p.st.lock();
        st.reader_gone = true;
        st.buf.clear();
        st.queued = 0;
        Pipe::wake(&mut st);
    }
}
impl Drop for SimWrite {
    fn drop(&mut self) {
        let mut st = self.p.st.lock();
        st.writer_gone = true;
        Pipe::wake(&mut st);
    }
}

/// The protocol the components under test are instantiated with.
#[derive(Clone, PartialEq, Eq)]
pub struct Sim;

pub struct SimUnfinalized {
    r: SimRead,
    w: SimWrite,
    link: Arc<Link>,
}

pub struct SimListener {
    net: Weak<Net>,
    endpoint: String,
    generation: u64,
    rx: tokio::sync::Mutex<mpsc::UnboundedReceiver<SimUnfinalized>>,
}

impl SimListener {
    pub async fn accept_raw(&self) -> Option<(SimRead, SimWrite)> {
        let u = self.rx.lock().await.recv().await?;
        Some((u.r, u.w))
    }
}

impl Drop for SimListener {
    fn drop(&mut self) {
        if let Some(net) = self.net.upgrade() {
            let mut l = net.listeners.lock();
            if l.get(&self.endpoint).is_some_and(|e| e.generation == self.generation) {
                l.remove(&self.endpoint);
            }
        }
    }
}

impl Net {
    pub fn listen(self: &Arc<Self>, endpoint: &str) -> SimListener {
        let (tx, rx) = mpsc::unbounded_channel();
        let generation = NEXT.fetch_add(1, Ordering::SeqCst);
        self.listeners.lock().insert(endpoint.to_string(), ListenerEntry { generation, tx });
        SimListener {
            net: Arc::downgrade(self),
            endpoint: endpoint.to_string(),
            generation,
            rx: tokio::sync::Mutex::new(rx),
        }
    }
}

#[async_trait]
impl Protocol for Sim {
    type UnfinalizedConnection = SimUnfinalized;
    type Listener = SimListener;

    async fn connect(remote_endpoint: &str, _: bool, limiter: Limiter) -> Result<Connection> {
        let Some(net) = Net::of(remote_endpoint) else {
            return Err(Error::Connection(format!("no such network: {remote_endpoint}")));
        };
        // As the real transports do.
        let dialed = tokio::time::timeout(Duration::from_secs(5), net.dial(remote_endpoint)).await;
        match dialed.unwrap_or_else(|_| Err(io::Error::new(io::ErrorKind::TimedOut, "timed out"))) {
            Ok((r, w, _)) => Ok(Connection::verif_from_streams(w.buffered(), r, limiter)),
            Err(e) => Err(Error::Connection(format!("failed to connect: {e}"))),
        }
    }

    async fn bind(
        bind_endpoint: &str,
        _: CertificateDer<'static>,
        _: PrivateKeyDer<'static>,
    ) -> Result<Self::Listener> {
        let Some(net) = Net::of(bind_endpoint) else {
            return Err(Error::Connection(format!("no such network: {bind_endpoint}")));
        };
        if net.busy.lock().iter().any(|b| b == bind_endpoint) {
            return Err(Error::Connection("address in use".into()));
        }
        // (A broker binds to another address than the one it is known by: see `World::broker_with`.)
        Ok(net.listen(bind_endpoint.strip_suffix(".bind").unwrap_or(bind_endpoint)))
    }
}

#[async_trait]
impl Listener<SimUnfinalized> for SimListener {
    async fn accept(&self) -> Result<SimUnfinalized> {
        self.rx.lock().await.recv().await.ok_or_else(|| Error::Connection("listener closed".into()))
    }
}

#[async_trait]
impl UnfinalizedConnection for SimUnfinalized {
    async fn finalize(self, limiter: Limiter) -> Result<Connection> {
        if self.link.mute {
            // As the real transports do.
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(5) && self.link.is_open() {
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
            return Err(Error::Connection("no handshake".into()));
        }
        Ok(Connection::verif_from_streams(self.w.buffered(), self.r, limiter))
    }
}
