//! In-memory stream with generated fragmentation, readiness, buffering, delays and faults,
//! connected to a synchronous in-process peer.
use crate::engine::{expand, Src};
use std::{
    collections::VecDeque,
    fmt,
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Debug)]
pub enum Seg {
    Data(Vec<u8>, usize),
    Delay(Duration),
    Eof,
    Err(io::ErrorKind),
    Stall,
}

#[derive(Default, Debug)]
pub struct Out {
    pub segs: VecDeque<Seg>,
    /// total bytes queued since the beginning
    pub queued: u64,
    /// every packet is its own segment: a read never crosses a packet boundary
    pub no_merge: bool,
}

impl Out {
    pub fn bytes(&mut self, b: Vec<u8>) {
        self.queued += b.len() as u64;
        if !b.is_empty() {
            if b.len() < 4096 && !self.no_merge {
                if let Some(Seg::Data(v, _)) = self.segs.back_mut() {
                    if v.len() < 65536 {
                        v.extend_from_slice(&b);
                        return;
                    }
                }
            }
            self.segs.push_back(Seg::Data(b, 0));
        }
    }
    pub fn seg(&mut self, s: Seg) {
        self.segs.push_back(s)
    }
    pub fn unread(&self) -> usize {
        self.segs.iter().map(|s| if let Seg::Data(v, p) = s { v.len() - p } else { 0 }).sum()
    }
}

pub trait Peer: Send {
    /// bytes sent by the client became visible
    fn input(&mut self, bytes: &[u8], out: &mut Out);
    fn start(&mut self, _out: &mut Out) {}
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
    Whole,
    One,
    /// 1..=n
    UpTo(u32),
    /// a cut at exactly this many bytes, then whole
    At(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    Eof,
    Err(io::ErrorKind),
    Stall,
    /// writes only: accept 0 bytes
    Zero,
}

#[derive(Clone, Debug)]
pub struct IoPlan {
    pub seed: u64,
    pub read: Chunk,
    pub write: Chunk,
    /// percent of polls answered with Pending (and an immediate wake)
    pub pend: u8,
    /// hold written bytes back until flushed (or more than this many are held)
    pub buffered: Option<usize>,
    /// fail/stall when this many bytes were read / accepted in total
    pub read_fault: Option<(u64, Fault)>,
    pub write_fault: Option<(u64, Fault)>,
    /// every write and flush takes this long
    pub write_delay: Option<Duration>,
    /// the fault happens once, afterwards the stream works again
    pub once: bool,
}

impl Default for IoPlan {
    fn default() -> Self {
        IoPlan { seed: 0, read: Chunk::Whole, write: Chunk::Whole, pend: 0, buffered: None, read_fault: None, write_fault: None, write_delay: None, once: false }
    }
}

fn gen_chunk(s: &mut Src) -> Chunk {
    match s.below(6) {
        0 | 1 => Chunk::Whole,
        2 => Chunk::One,
        3 => Chunk::UpTo(1 + s.below(8) as u32),
        4 => Chunk::UpTo(1 + s.below(5000) as u32),
        _ => Chunk::At(1 + s.below(40) as u32),
    }
}

impl IoPlan {
    pub fn gen(s: &mut Src) -> Self {
        if s.below(3) == 0 {
            return IoPlan::default();
        }
        IoPlan {
            seed: s.below(1 << 32),
            read: gen_chunk(s),
            write: gen_chunk(s),
            pend: *s.pick(&[0, 0, 10, 50, 90]),
            buffered: *s.pick(&[None, None, Some(0), Some(7), Some(64), Some(8192), Some(usize::MAX)]),
            ..IoPlan::default()
        }
    }
    /// as `gen`, but cheap enough for megabytes
    pub fn gen_big(s: &mut Src) -> Self {
        let mut p = Self::gen(s);
        let f = |c| match c {
            Chunk::One => Chunk::UpTo(70_000),
            Chunk::UpTo(n) if n < 1000 => Chunk::UpTo(n * 10_007),
            c => c,
        };
        p.read = f(p.read);
        p.write = f(p.write);
        if p.pend > 50 {
            p.pend = 50;
        }
        p
    }
    pub fn trivial(&self) -> bool {
        self.read == Chunk::Whole && self.write == Chunk::Whole && self.pend == 0 && self.buffered.is_none()
    }
    pub fn show(&self) -> String {
        if self.trivial() {
            "plain io".into()
        } else {
            format!("io(r={:?} w={:?} pend={}% buf={:?})", self.read, self.write, self.pend, self.buffered)
        }
    }
}

pub struct Shared {
    pub peer: Box<dyn Peer>,
    pub out: Out,
    pub plan: IoPlan,
    rng: u64,
    /// bytes accepted from the client and not yet handed to the peer (buffered mode)
    held: Vec<u8>,
    pub read_total: u64,
    pub write_total: u64,
    pub ops: u64,
    pub op_limit: u64,
    pub closed: bool,
    pub broken_reads: u64,
    /// every byte the client wrote
    pub record: Option<Vec<u8>>,
    first_read_cut: bool,
    first_write_cut: bool,
    pub flushes: u64,
    pub dropped: bool,
}

impl Shared {
    pub fn new(peer: Box<dyn Peer>, plan: IoPlan) -> Self {
        let mut s = Shared {
            peer,
            out: Out::default(),
            rng: plan.seed | 1,
            plan,
            held: Vec::new(),
            read_total: 0,
            write_total: 0,
            ops: 0,
            op_limit: 60_000_000,
            closed: false,
            broken_reads: 0,
            record: None,
            first_read_cut: false,
            first_write_cut: false,
            flushes: 0,
            dropped: false,
        };
        s.peer.start(&mut s.out);
        s
    }
    fn rnd(&mut self, n: u64) -> u64 {
        if self.plan.seed == 0 {
            return n - 1;
        }
        let b = expand(self.rng, 8);
        self.rng = u64::from_le_bytes(b.try_into().unwrap()) | 1;
        (self.rng >> 8) % n
    }
    fn chunk(&mut self, c: Chunk, want: usize, read: bool) -> usize {
        let n = match c {
            Chunk::Whole => want,
            Chunk::One => 1,
            Chunk::UpTo(k) => 1 + self.rnd(k as u64) as usize,
            Chunk::At(k) => {
                let f = if read { &mut self.first_read_cut } else { &mut self.first_write_cut };
                *f = !*f;
                if *f {
                    k as usize
                } else {
                    want
                }
            }
        };
        // fine fragmentation at the start of a long exchange, coarser later
        let total = if read { self.read_total } else { self.write_total };
        let n = if total > 30_000 { n.saturating_mul(997) } else { n };
        n.clamp(1, want.max(1))
    }
    fn op(&mut self) {
        self.ops += 1;
        if self.ops > self.op_limit {
            std::panic::panic_any(format!("PROPFAIL no-progress|more than {} stream operations", self.op_limit));
        }
    }
    fn deliver(&mut self) {
        if !self.held.is_empty() {
            let h = std::mem::take(&mut self.held);
            self.peer.input(&h, &mut self.out);
        }
    }
    pub fn peer<T: 'static>(&mut self) -> &mut T {
        self.peer.as_any().downcast_mut::<T>().expect("peer type")
    }
}

#[derive(Clone)]
pub struct Link(pub Arc<Mutex<Shared>>);
impl Link {
    pub fn new(peer: Box<dyn Peer>, plan: IoPlan) -> Link {
        Link(Arc::new(Mutex::new(Shared::new(peer, plan))))
    }
    pub fn lock(&self) -> MutexGuard<'_, Shared> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn with<T: 'static, R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(self.lock().peer::<T>())
    }
}
impl fmt::Debug for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Link")
    }
}

/// What `Stream::connect` uses.
pub enum Dial {
    Nowhere,
    One(Link),
    /// a new peer per connection
    Many(Arc<dyn Fn() -> Result<Link, io::Error> + Send + Sync>),
}
impl Default for Dial {
    fn default() -> Self {
        Dial::Nowhere
    }
}
impl fmt::Debug for Dial {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Dial")
    }
}

pub struct Mock<const SECURE: bool> {
    link: Link,
    timer: Option<Pin<Box<tokio::time::Sleep>>>,
    wtimer: Option<Pin<Box<tokio::time::Sleep>>>,
}

// The timer is only touched through `&mut self`.
unsafe impl<const S: bool> Sync for Mock<S> {}

impl<const S: bool> Mock<S> {
    pub fn new(link: Link) -> Self {
        Mock { link, timer: None, wtimer: None }
    }
}
impl<const S: bool> Mock<S> {
    fn wait_write(&mut self, cx: &mut Context<'_>) -> bool {
        let Some(d) = self.link.lock().plan.write_delay else { return true };
        let t = self.wtimer.get_or_insert_with(|| Box::pin(tokio::time::sleep(d)));
        let done = t.as_mut().poll(cx).is_ready();
        if done {
            self.wtimer = None;
        }
        done
    }
}
impl<const S: bool> Drop for Mock<S> {
    fn drop(&mut self) {
        self.link.lock().dropped = true;
    }
}

impl<const S: bool> fmt::Debug for Mock<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mock")
    }
}

impl<const S: bool> AsyncRead for Mock<S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        let link = this.link.clone();
        let mut s = link.lock();
        s.op();
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let mut limit = buf.remaining();
        if let Some((at, f)) = s.plan.read_fault.clone() {
            if s.read_total >= at {
                if s.plan.once {
                    s.plan.read_fault = None;
                }
                return match f {
                    Fault::Eof | Fault::Zero => {
                        s.broken_reads += 1;
                        Poll::Ready(Ok(()))
                    }
                    Fault::Err(k) => {
                        s.broken_reads += 1;
                        Poll::Ready(Err(k.into()))
                    }
                    Fault::Stall => Poll::Pending,
                };
            }
            limit = limit.min((at - s.read_total) as usize);
        }
        let pend = s.plan.pend;
        if pend > 0 && s.rnd(100) < pend as u64 && s.plan.seed != 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        loop {
            match s.out.segs.front() {
                None => {
                    if s.closed {
                        return Poll::Ready(Ok(()));
                    }
                    return Poll::Pending;
                }
                Some(Seg::Delay(d)) => {
                    let d = *d;
                    let t = this.timer.get_or_insert_with(|| Box::pin(tokio::time::sleep(d)));
                    match t.as_mut().poll(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(()) => {
                            this.timer = None;
                            s.out.segs.pop_front();
                        }
                    }
                }
                Some(Seg::Eof) => {
                    s.broken_reads += 1;
                    return Poll::Ready(Ok(()));
                }
                Some(Seg::Err(k)) => {
                    let k = *k;
                    s.broken_reads += 1;
                    return Poll::Ready(Err(k.into()));
                }
                Some(Seg::Stall) => return Poll::Pending,
                Some(Seg::Data(v, p)) => {
                    let avail = v.len() - p;
                    let want = limit.min(avail);
                    let c = s.plan.read;
                    let n = s.chunk(c, want, true);
                    if let Some(Seg::Data(v, p)) = s.out.segs.front_mut() {
                        buf.put_slice(&v[*p..*p + n]);
                        *p += n;
                        if *p == v.len() {
                            s.out.segs.pop_front();
                        }
                    }
                    s.read_total += n as u64;
                    return Poll::Ready(Ok(()));
                }
            }
        }
    }
}

impl<const S: bool> AsyncWrite for Mock<S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let this = self.get_mut();
        if !this.wait_write(cx) {
            return Poll::Pending;
        }
        let mut s = this.link.lock();
        s.op();
        let mut limit = data.len();
        if let Some((at, f)) = s.plan.write_fault.clone() {
            if s.write_total >= at {
                if s.plan.once {
                    s.plan.write_fault = None;
                }
                return match f {
                    Fault::Zero | Fault::Eof => Poll::Ready(Ok(0)),
                    Fault::Err(k) => Poll::Ready(Err(k.into())),
                    Fault::Stall => Poll::Pending,
                };
            }
            limit = limit.min((at - s.write_total) as usize);
        }
        let pend = s.plan.pend;
        if pend > 0 && s.plan.seed != 0 && s.rnd(100) < pend as u64 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if limit == 0 {
            return Poll::Ready(Ok(0));
        }
        let c = s.plan.write;
        let n = s.chunk(c, limit, false);
        s.write_total += n as u64;
        if let Some(r) = &mut s.record {
            r.extend_from_slice(&data[..n]);
        }
        let s = &mut *s;
        match s.plan.buffered {
            None => s.peer.input(&data[..n], &mut s.out),
            Some(cap) => {
                s.held.extend_from_slice(&data[..n]);
                if s.held.len() > cap {
                    // like a buffered writer: what was held goes out, the newest part stays
                    let keep = n.min(s.held.len()).min(cap);
                    let cut = s.held.len() - keep;
                    let rest = s.held.split_off(cut);
                    let head = std::mem::replace(&mut s.held, rest);
                    s.peer.input(&head, &mut s.out);
                }
            }
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        if !this.wait_write(cx) {
            return Poll::Pending;
        }
        let mut s = this.link.lock();
        s.op();
        if let Some((at, f)) = s.plan.write_fault.clone() {
            if s.write_total >= at {
                if s.plan.once && matches!(f, Fault::Err(_)) {
                    s.plan.write_fault = None;
                }
                match f {
                    Fault::Err(k) => return Poll::Ready(Err(k.into())),
                    Fault::Stall => return Poll::Pending,
                    _ => {}
                }
            }
        }
        let pend = s.plan.pend;
        if pend > 0 && s.plan.seed != 0 && s.rnd(100) < pend as u64 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.flushes += 1;
        s.deliver();
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.link.lock();
        s.deliver();
        Poll::Ready(Ok(()))
    }
}

impl<const SECURE: bool> mysql_connector::Stream for Mock<SECURE> {
    const SECURE: bool = SECURE;
    type Options = Dial;

    async fn connect(d: &Dial) -> Result<Self, io::Error> {
        match d {
            Dial::Nowhere => Err(io::ErrorKind::ConnectionRefused.into()),
            Dial::One(l) => Ok(Mock::new(l.clone())),
            Dial::Many(f) => Ok(Mock::new(f()?)),
        }
    }
}

// ---------------------------------------------------------------- running futures

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Stuck {
    /// pending with nothing left that could wake it (a day of virtual time passed)
    Hang,
    /// polled an absurd number of times
    Spin,
}

struct Budget<F> {
    f: Pin<Box<F>>,
    left: u64,
}
impl<F: Future> Future for Budget<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.f.as_mut().poll(cx).map(Some)
    }
}

/// Run to completion on a paused clock; detects hangs deterministically.
pub fn run<F: Future>(f: F) -> Result<F::Output, Stuck> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async move {
        tokio::select! {
            biased;
            r = Budget { f: Box::pin(f), left: 50_000_000 } => r.ok_or(Stuck::Spin),
            _ = tokio::time::sleep(Duration::from_secs(86_400 * 700)) => Err(Stuck::Hang),
        }
    })
}

/// Guard for one call inside `run`.
pub async fn guard<F: Future>(f: F) -> Result<F::Output, Stuck> {
    tokio::select! {
        biased;
        r = f => Ok(r),
        _ = tokio::time::sleep(Duration::from_secs(86_400)) => Err(Stuck::Hang),
    }
}
