//! C19 pool size and exclusivity, C20 pool progress, C21 recycled buffers.
use super::results::*;
use crate::{engine::*, ensure, gen::*, mock::*, must, server::*, wire::*};
use mysql_connector::{
    pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
    types::Value,
    Connection,
};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashMap},
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Barrier, Mutex,
    },
    task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker},
    time::{Duration, Instant},
};

// ------------------------------------------- one thread, every step under control

#[derive(Debug)]
struct Item {
    id: u64,
}
impl Drop for Item {
    fn drop(&mut self) {
        with(|w| {
            w.live.remove(&self.id);
            if !w.closing {
                w.log(format!("item {} is discarded", self.id));
                w.bad19("discarded", format!("item {} was discarded", self.id));
            }
        })
    }
}

#[derive(Debug)]
struct MockErr(u64);

struct Create {
    id: u64,
}
impl Future for Create {
    type Output = Result<Item, MockErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.id;
        hook("a creation is polled");
        let wk = cx.waker().clone();
        let done = with(|w| {
            let task = w.current;
            let c = w.creations.get_mut(&id).expect("polled after completion");
            c.waker = None;
            if task != c.owner {
                let o = c.owner;
                w.bad19("foreign-creation", format!("creation {id} of request {o} is polled by request {task}"));
            }
            w.creations[&id].outcome
        });
        match done {
            None => {
                with(|w| w.creations.get_mut(&id).unwrap().waker = Some(wk));
                Poll::Pending
            }
            Some(ok) => {
                let old = with(|w| {
                    let old = w.creations.remove(&id);
                    if ok {
                        w.live.insert(id);
                        w.log(format!("creation {id} succeeds"));
                    } else {
                        w.log(format!("creation {id} fails"));
                    }
                    old
                });
                drop(old);
                hook("a creation has ended");
                Poll::Ready(if ok { Ok(Item { id }) } else { Err(MockErr(id)) })
            }
        }
    }
}
impl Drop for Create {
    fn drop(&mut self) {
        hook("a creation is dropped");
        let old = with(|w| w.creations.remove(&self.id));
        drop(old);
    }
}
impl AsyncPoolContentError for Item {
    type Error = MockErr;
}
impl AsyncPoolContent<()> for Item {
    type Ctx = ();
    fn new<'a>(_: &'a ()) -> Pin<Box<dyn Future<Output = Result<Self, MockErr>> + 'a>> {
        let id = with(|w| {
            w.next += 1;
            let id = w.next;
            let idle = w.live.len() - w.held_count();
            if idle > 0 && w.idle_at_poll > 0 && w.nested == 0 {
                w.bad19("not-reused", format!("item {id} is created while {idle} items are idle"));
            }
            w.creations.insert(id, Creation { owner: w.current, outcome: w.plan_now, waker: None });
            w.log(format!("request {} starts creation {id}", w.current));
            w.check_size();
            id
        });
        hook("a creation starts");
        Box::pin(Create { id })
    }
}

struct Creation {
    owner: usize,
    outcome: Option<bool>,
    waker: Option<Waker>,
}

type Fut = Pin<Box<dyn Future<Output = Result<PoolItem<'static, Item>, MockErr>>>>;
type Pool = &'static dyn AsyncPoolTrait<Item>;

struct Task {
    fut: Option<Fut>,
    item: Option<PoolItem<'static, Item>>,
    /// number of the last poll; only its waker counts
    polls: usize,
    woken: bool,
    done: bool,
    failed: bool,
}

struct World {
    n: usize,
    next: u64,
    live: BTreeSet<u64>,
    creations: BTreeMap<u64, Creation>,
    held: BTreeMap<u64, usize>,
    tasks: Vec<Option<Task>>,
    current: usize,
    idle_at_poll: usize,
    nested: usize,
    plan_now: Option<bool>,
    closing: bool,
    src: Option<Src>,
    log: Vec<String>,
    bad: Option<(u8, Fail)>,
    pool: Option<Pool>,
    hooks: bool,
    hook_runs: usize,
}
impl World {
    fn log(&mut self, s: String) {
        if self.log.len() < 200 {
            self.log.push(s);
        }
    }
    fn bad(&mut self, p: u8, sig: &str, msg: String) {
        if self.bad.as_ref().is_none_or(|b| b.0 != p) || self.bad.is_none() {
            let m = format!("pool of {}: {msg}\n    {}", self.n, self.log.join("\n    "));
            if self.bad.is_none() || p == WANT.with(|w| w.get()) {
                self.bad = Some((p, Fail { sig: sig.into(), msg: m }));
            }
        }
    }
    fn bad19(&mut self, sig: &str, msg: String) {
        self.bad(19, sig, msg)
    }
    fn bad20(&mut self, sig: &str, msg: String) {
        self.bad(20, sig, msg)
    }
    fn held_count(&self) -> usize {
        self.held.len()
    }
    fn check_size(&mut self) {
        let (l, c) = (self.live.len(), self.creations.len());
        if l + c > self.n {
            self.bad19("too-many", format!("{l} items exist and {c} are being created"));
        }
    }
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static WANT: Cell<u8> = const { Cell::new(0) };
}
fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("outside of a simulation")))
}
fn draw<T>(f: impl FnOnce(&mut Src) -> T) -> T {
    let mut s = with(|w| w.src.take().unwrap());
    let r = f(&mut s);
    with(|w| w.src = Some(s));
    r
}

// wakers: task number and poll number packed into the data pointer
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, |_| ());
fn vt_clone(p: *const ()) -> RawWaker {
    // whoever stores a waker may be interrupted here
    hook("a waker is registered");
    RawWaker::new(p, &VT)
}
fn vt_wake(p: *const ()) {
    let x = p as usize;
    let (task, poll) = (x & 0xffff, x >> 16);
    with(|w| {
        if let Some(Some(t)) = w.tasks.get_mut(task) {
            if t.polls == poll {
                t.woken = true;
            }
        } else {
            w.log(format!("(request {task} is woken while it runs)"));
            WOKEN_RUNNING.with(|x| {
                let mut x = x.borrow_mut();
                x.push((task, poll));
            });
        }
    });
    hook("a waker is called");
}
thread_local! { static WOKEN_RUNNING: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) }; }

/// Something else happens in the middle of a pool operation, as another thread could do it.
fn hook(what: &str) {
    let go = with(|w| {
        if !w.hooks || w.nested > 0 || w.src.is_none() || w.closing {
            return false;
        }
        w.nested += 1;
        true
    });
    if !go {
        return;
    }
    if draw(|s| s.chance(1, 3)) {
        with(|w| {
            w.hook_runs += 1;
            w.log(format!("-- while {what}:"));
        });
        let saved = with(|w| (w.current, w.idle_at_poll, w.plan_now));
        for _ in 0..1 + draw(|s| s.usize(3)) {
            step();
        }
        with(|w| {
            (w.current, w.idle_at_poll, w.plan_now) = saved;
            w.log("--".into());
        });
    }
    with(|w| w.nested -= 1);
}

fn poll_task(i: usize) {
    let Some(mut t) = with(|w| w.tasks[i].take()) else { return };
    let Some(mut fut) = t.fut.take() else {
        with(|w| w.tasks[i] = Some(t));
        return;
    };
    t.polls += 1;
    t.woken = false;
    let poll = t.polls;
    // the outcome of a creation that this poll starts, if it is known at once
    let plan = draw(|s| match s.below(5) {
        0 => Some(false),
        1 | 2 => Some(true),
        _ => None,
    });
    with(|w| {
        w.current = i;
        w.plan_now = plan;
        w.idle_at_poll = w.live.len() - w.held_count();
        w.log(format!("poll request {i}"));
    });
    let waker = unsafe { Waker::from_raw(RawWaker::new((i | poll << 16) as *const (), &VT)) };
    let r = fut.as_mut().poll(&mut Context::from_waker(&waker));
    // creations that failed in this very poll belong to this request
    WOKEN_RUNNING.with(|x| {
        x.borrow_mut().retain(|(a, b)| {
            if *a == i {
                if *b == poll {
                    t.woken = true;
                }
                false
            } else {
                true
            }
        })
    });
    match r {
        Poll::Pending => {
            t.fut = Some(fut);
        }
        Poll::Ready(r) => {
            t.done = true;
            // the item must be registered before the request is dropped
            match r {
                Ok(item) => {
                    let id = item.id;
                    with(|w| {
                        w.log(format!("request {i} gets item {id}"));
                        if let Some(o) = w.held.insert(id, i) {
                            w.bad19("shared", format!("item {id} is held by the requests {o} and {i}"));
                        }
                        if !w.live.contains(&id) {
                            w.bad19("dead", format!("request {i} gets item {id}, which does not exist"));
                        }
                    });
                    t.item = Some(item);
                }
                Err(e) => with(|w| {
                    w.log(format!("request {i} fails with the error of creation {}", e.0));
                    t.failed = true;
                }),
            }
            drop(fut);
        }
    }
    with(|w| {
        w.tasks[i] = Some(t);
        w.check_size();
    });
}

fn release(i: usize) {
    let Some(mut t) = with(|w| w.tasks[i].take()) else { return };
    if let Some(item) = t.item.take() {
        with(|w| {
            w.log(format!("request {i} returns item {}", item.id));
            w.held.remove(&item.id);
        });
        drop(item);
    }
    with(|w| w.tasks[i] = Some(t));
}

fn cancel(i: usize) {
    let Some(mut t) = with(|w| w.tasks[i].take()) else { return };
    if let Some(f) = t.fut.take() {
        with(|w| {
            w.log(format!("request {i} is cancelled"));
            w.current = i;
        });
        t.done = true;
        drop(f);
    }
    with(|w| {
        w.tasks[i] = Some(t);
        w.check_size();
    });
}

fn resolve(id: u64, ok: bool) {
    let wk = with(|w| {
        let c = w.creations.get_mut(&id)?;
        if c.outcome.is_none() {
            c.outcome = Some(ok);
        }
        c.waker.take()
    });
    with(|w| w.log(format!("creation {id} can {}", if ok { "succeed" } else { "fail" })));
    if let Some(wk) = wk {
        wk.wake();
    }
}

fn request() {
    let pool = with(|w| w.pool.unwrap());
    let fut = pool.get();
    with(|w| {
        let i = w.tasks.len();
        w.log(format!("request {i}"));
        w.tasks.push(Some(Task { fut: Some(fut), item: None, polls: 0, woken: true, done: false, failed: false }));
    });
}

fn tasks(f: impl Fn(&Task) -> bool) -> Vec<usize> {
    with(|w| w.tasks.iter().enumerate().filter(|(_, t)| t.as_ref().is_some_and(&f)).map(|(i, _)| i).collect())
}

fn step() {
    let k = draw(|s| s.weighted(&[3, 5, 3, 2, 3, 1]));
    match k {
        0 => {
            if with(|w| w.tasks.len()) < 40 {
                request()
            }
        }
        1 => {
            let v = tasks(|t| t.fut.is_some() && t.woken);
            if !v.is_empty() {
                let i = draw(|s| *s.pick(&v));
                poll_task(i)
            }
        }
        2 => {
            let v = tasks(|t| t.item.is_some());
            if !v.is_empty() {
                let i = draw(|s| *s.pick(&v));
                release(i)
            }
        }
        3 => {
            let v = tasks(|t| t.fut.is_some());
            if !v.is_empty() {
                let i = draw(|s| *s.pick(&v));
                cancel(i)
            }
        }
        4 => {
            let v: Vec<u64> = with(|w| w.creations.iter().filter(|(_, c)| c.outcome.is_none()).map(|(i, _)| *i).collect());
            if !v.is_empty() {
                let (i, ok) = draw(|s| (*s.pick(&v), s.chance(2, 3)));
                resolve(i, ok)
            }
        }
        _ => {
            // a poll without being woken
            let v = tasks(|t| t.fut.is_some() && !t.woken);
            if !v.is_empty() {
                let i = draw(|s| *s.pick(&v));
                poll_task(i)
            }
        }
    }
}

/// polls woken requests until none is left, then nothing may be stuck
fn settle() {
    let mut budget = 20_000;
    loop {
        let v = tasks(|t| t.fut.is_some() && t.woken);
        if v.is_empty() {
            break;
        }
        for i in v {
            poll_task(i);
        }
        budget -= 1;
        if budget == 0 {
            with(|w| w.bad20("spin", "woken requests are polled without end".into()));
            return;
        }
    }
    with(|w| {
        let owners: BTreeSet<usize> = w.creations.values().map(|c| c.owner).collect();
        let waiting: Vec<usize> = w.tasks.iter().enumerate().filter(|(i, t)| t.as_ref().is_some_and(|t| t.fut.is_some()) && !owners.contains(i)).map(|(i, _)| i).collect();
        let idle = w.live.len() - w.held.len();
        let free = w.n as i64 - (w.live.len() + w.creations.len()) as i64;
        if !waiting.is_empty() && (idle > 0 || free > 0) {
            w.bad20("stuck", format!("the requests {waiting:?} wait and nobody wakes them, although {idle} items are idle and {free} more may be created"));
        }
        // a creation which can end has its request woken
        let stuck: Vec<u64> = w.creations.iter().filter(|(_, c)| c.outcome.is_some()).map(|(i, _)| *i).collect();
        if !stuck.is_empty() {
            w.bad20("stuck-creation", format!("the creations {stuck:?} can end, but nobody polls them"));
        }
    });
}

fn sim<const N: usize>(s: &mut Src, c: &mut Ctx, prop: u8, hooks: bool) -> Res {
    let pool: *mut AsyncPool<Item, (), N> = Box::into_raw(Box::new(AsyncPool::new(())));
    let steps = 1 + s.usize(50);
    WANT.with(|w| w.set(prop));
    WOKEN_RUNNING.with(|x| x.borrow_mut().clear());
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            n: N,
            next: 0,
            live: BTreeSet::new(),
            creations: BTreeMap::new(),
            held: BTreeMap::new(),
            tasks: vec![],
            current: usize::MAX,
            idle_at_poll: 0,
            nested: 0,
            plan_now: None,
            closing: false,
            src: Some(std::mem::replace(s, Src::replay(vec![]))),
            log: vec![],
            bad: None,
            pool: Some(unsafe { &*pool }),
            hooks,
            hook_runs: 0,
        })
    });
    let bad = || with(|w| w.bad.as_ref().is_some_and(|b| b.0 == prop));
    let mut settled = 0;
    for _ in 0..steps {
        step();
        if draw(|s| s.chance(1, 4)) {
            settle();
            settled += 1;
        }
        if bad() {
            break;
        }
    }
    // afterwards the whole capacity is there
    if !bad() {
        with(|w| {
            w.log("everything is cancelled and returned".into());
            w.hooks = false;
        });
        let n = with(|w| w.tasks.len());
        let returning_first = draw(|s| s.bool());
        for pass in 0..2 {
            for i in 0..n {
                if (pass == 0) == returning_first {
                    release(i)
                } else {
                    cancel(i)
                }
            }
        }
        settle();
        let (idle, creating) = with(|w| (w.live.len() - w.held.len(), w.creations.len()));
        if creating > 0 {
            with(|w| w.bad19("undead", format!("{creating} cancelled creations still run")));
        }
        let _ = idle;
        let before = with(|w| w.tasks.len());
        for _ in 0..N {
            request();
        }
        // a request whose creation failed asks again
        for _ in 0..200 {
            settle();
            let open: Vec<u64> = with(|w| w.creations.keys().copied().collect());
            for id in &open {
                resolve(*id, true);
            }
            let failed = with(|w| w.tasks[before..].iter_mut().flatten().map(|t| std::mem::take(&mut t.failed)).filter(|x| *x).count());
            for _ in 0..failed {
                request();
            }
            if open.is_empty() && failed == 0 {
                break;
            }
        }
        let held = with(|w| w.held.len());
        if held != N {
            with(|w| w.bad20("capacity", format!("only {held} of {N} requests are served although nobody else uses the pool")));
        }
    }
    // tear down
    with(|w| {
        w.closing = true;
        w.pool = None;
    });
    let ts: Vec<Option<Task>> = with(|w| std::mem::take(&mut w.tasks));
    drop(ts);
    drop(unsafe { Box::from_raw(pool) });
    let mut w = WORLD.with(|w| w.borrow_mut().take().unwrap());
    *s = w.src.take().unwrap();
    if w.bad.is_none() && !w.live.is_empty() {
        w.bad19("leaked", format!("the items {:?} outlive the pool", w.live));
    }
    c.nontrivial = w.next > 0 && w.log.len() > 8;
    c.evals += settled;
    c.label(format!("size {N}{}", if w.hook_runs > 0 { ", interrupted" } else { "" }));
    if w.log.iter().any(|l| l.contains("cancelled")) {
        c.label("cancellation");
    }
    if w.log.iter().any(|l| l.contains("fails")) {
        c.label("failed creation");
    }
    c.note(w.log.iter().take(14).cloned().collect::<Vec<_>>().join("; "));
    match w.bad.take() {
        Some((p, f)) if p == prop => Err(f),
        _ => Ok(()),
    }
}

fn run_sim(s: &mut Src, c: &mut Ctx, prop: u8, hooks: bool) -> Res {
    match s.below(4) {
        0 => sim::<1>(s, c, prop, hooks),
        1 => sim::<2>(s, c, prop, hooks),
        2 => sim::<3>(s, c, prop, hooks),
        _ => sim::<5>(s, c, prop, hooks),
    }
}

fn c19_steps(s: &mut Src, c: &mut Ctx) -> Res {
    run_sim(s, c, 19, false)
}
fn c19_interrupted(s: &mut Src, c: &mut Ctx) -> Res {
    run_sim(s, c, 19, true)
}
fn c20_steps(s: &mut Src, c: &mut Ctx) -> Res {
    run_sim(s, c, 20, false)
}
fn c20_interrupted(s: &mut Src, c: &mut Ctx) -> Res {
    run_sim(s, c, 20, true)
}

// ------------------------------------------- real threads

#[derive(Debug, Default)]
struct Shared {
    n: usize,
    live: AtomicUsize,
    creating: AtomicUsize,
    idle: AtomicI64,
    discarded: AtomicUsize,
    closing: AtomicBool,
    errors: Mutex<Vec<(u8, &'static str, String)>>,
    seed: AtomicU64,
    fail_every: u64,
}
impl Shared {
    fn bad(&self, p: u8, sig: &'static str, msg: String) {
        self.errors.lock().unwrap().push((p, sig, msg));
    }
}
#[derive(Debug)]
struct TItem {
    w: Arc<Shared>,
    used: AtomicBool,
}
impl Drop for TItem {
    fn drop(&mut self) {
        self.w.live.fetch_sub(1, SeqCst);
        if !self.w.closing.load(SeqCst) {
            self.w.discarded.fetch_add(1, SeqCst);
        }
    }
}
struct TCreate {
    w: Arc<Shared>,
    polls: u64,
    fail: bool,
    counted: bool,
}
impl Future for TCreate {
    type Output = Result<TItem, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.polls > 0 {
            self.polls -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.counted = false;
        if self.fail {
            self.w.creating.fetch_sub(1, SeqCst);
            return Poll::Ready(Err(()));
        }
        // counted as existing first: an observer never sees too few
        self.w.creating.fetch_sub(1, SeqCst);
        self.w.live.fetch_add(1, SeqCst);
        Poll::Ready(Ok(TItem { w: self.w.clone(), used: AtomicBool::new(false) }))
    }
}
impl Drop for TCreate {
    fn drop(&mut self) {
        if self.counted {
            self.w.creating.fetch_sub(1, SeqCst);
        }
    }
}
impl AsyncPoolContentError for TItem {
    type Error = ();
}
impl AsyncPoolContent<()> for TItem {
    type Ctx = Arc<Shared>;
    fn new<'a>(w: &'a Arc<Shared>) -> Pin<Box<dyn Future<Output = Result<Self, ()>> + 'a>> {
        let c = w.creating.fetch_add(1, SeqCst) + 1;
        let l = w.live.load(SeqCst);
        // `creating` alone can be judged exactly; together with `live` an item moves between the two readings
        if c > w.n {
            w.bad(19, "too-many", format!("{c} items are being created in a pool of {}", w.n));
        }
        let _ = l;
        let x = mix(w.seed.fetch_add(1, SeqCst), 77);
        Box::pin(TCreate { w: w.clone(), polls: x % 3, fail: w.fail_every > 0 && (x >> 8) % w.fail_every == 0, counted: true })
    }
}

/// a thread that waits: what the monitor looks at
#[derive(Default)]
struct Slot {
    woken: AtomicBool,
    blocked: AtomicBool,
    finished: AtomicBool,
    epoch: AtomicU64,
    thread: Mutex<Option<std::thread::Thread>>,
}
impl Wake for Slot {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, SeqCst);
        if let Some(t) = &*self.thread.lock().unwrap() {
            t.unpark();
        }
    }
}

/// When nobody else uses the pool: `None` when the future waits, although nobody is left who could wake it
fn alone<F: Future + ?Sized>(mut f: Pin<Box<F>>, slot: &Arc<Slot>) -> Option<F::Output> {
    let waker = Waker::from(slot.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..50 {
        slot.woken.store(false, SeqCst);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending if !slot.woken.load(SeqCst) => return None,
            Poll::Pending => (),
        }
    }
    None
}

/// `None`: cancelled, or the round was given up
fn block_on<F: Future + ?Sized>(mut f: Pin<Box<F>>, slot: &Arc<Slot>, cancel_after: Option<u64>, abort: &AtomicBool) -> Option<F::Output> {
    let waker = Waker::from(slot.clone());
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0;
    loop {
        slot.woken.store(false, SeqCst);
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
        polls += 1;
        if cancel_after.is_some_and(|c| polls >= c) {
            return None;
        }
        let mut spins = 0;
        while !slot.woken.load(SeqCst) {
            spins += 1;
            if spins < 200 {
                std::hint::spin_loop();
                continue;
            }
            slot.blocked.store(true, SeqCst);
            std::thread::park_timeout(Duration::from_millis(20));
            slot.blocked.store(false, SeqCst);
            if abort.load(SeqCst) {
                return None;
            }
        }
        slot.epoch.fetch_add(1, SeqCst);
    }
}

fn threads<const N: usize>(s: &mut Src, c: &mut Ctx, prop: u8) -> Res {
    let nt = 2 + s.usize(4);
    let rounds = 30;
    let ops = 1 + s.usize(4) as u64;
    let fail_every = *s.pick(&[0u64, 0, 3, 2]);
    let cancels = s.chance(1, 3);
    let seed = s.u64();
    c.nontrivial = nt > N;
    c.note(format!("{nt} threads, pool of {N}, {ops} requests each, creations fail {}, cancellations {cancels}", if fail_every == 0 { "never".into() } else { format!("one in {fail_every}") }));
    c.label(format!("{nt} threads, size {N}"));
    for round in 0..rounds {
        c.evals += 1;
        let w = Arc::new(Shared { n: N, fail_every, seed: AtomicU64::new(mix(seed, round)), ..Default::default() });
        let pool: AsyncPool<TItem, (), N> = AsyncPool::new(w.clone());
        let slots: Vec<Arc<Slot>> = (0..nt).map(|_| Arc::new(Slot::default())).collect();
        let barrier = Barrier::new(nt);
        let abort = AtomicBool::new(false);
        let failed: Option<Fail> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for (t, slot) in slots.iter().enumerate() {
                let (w, pool, barrier, slot, abort) = (w.clone(), &pool, &barrier, slot.clone(), &abort);
                hs.push(sc.spawn(move || {
                    *slot.thread.lock().unwrap() = Some(std::thread::current());
                    let mut r = mix(mix(seed, round), t as u64);
                    barrier.wait();
                    for k in 0..ops {
                        if abort.load(SeqCst) {
                            break;
                        }
                        r = mix(r, k);
                        let cancel = if cancels && r % 3 == 0 { Some(1 + (r >> 20) % 3) } else { None };
                        if let Some(Ok(item)) = block_on(pool.get(), &slot, cancel, abort) {
                            if item.used.swap(true, SeqCst) {
                                w.bad(19, "shared", "an item is held by two threads".into());
                            }
                            let l = w.live.load(SeqCst);
                            if l > N {
                                w.bad(19, "too-many", format!("{l} items exist in a pool of {N}"));
                            }
                            for _ in 0..(r >> 40) % 64 {
                                std::hint::spin_loop();
                            }
                            if (r >> 50) % 8 == 0 {
                                std::thread::yield_now();
                            }
                            item.used.store(false, SeqCst);
                            w.idle.fetch_add(0, SeqCst);
                            drop(item);
                        }
                    }
                    slot.finished.store(true, SeqCst);
                }));
            }
            // Nobody runs and nobody is woken, yet capacity exists: a lost wake-up. All items are back
            // once every thread waits, as a waiting thread holds none.
            let start = Instant::now();
            let mut quiet: Option<(Instant, Vec<u64>)> = None;
            let mut stuck = None;
            while !hs.iter().all(|h| h.is_finished()) {
                if start.elapsed() < Duration::from_millis(30) {
                    std::thread::yield_now();
                    continue;
                }
                std::thread::sleep(Duration::from_millis(5));
                let idle_all = slots.iter().all(|x| x.finished.load(SeqCst) || (!x.woken.load(SeqCst)));
                let ep: Vec<u64> = slots.iter().map(|x| x.epoch.load(SeqCst)).collect();
                let waiting = slots.iter().filter(|x| !x.finished.load(SeqCst)).count();
                if waiting == 0 || !idle_all {
                    quiet = None;
                    continue;
                }
                match &quiet {
                    Some((t, e)) if *e == ep => {
                        let blocked = slots.iter().all(|x| x.finished.load(SeqCst) || x.blocked.load(SeqCst));
                        if t.elapsed() > Duration::from_millis(400) && blocked {
                            stuck = Some(format!("{waiting} threads wait for an item and nobody wakes them, although no thread holds one ({} exist, {} are being created, the limit is {N})", w.live.load(SeqCst), w.creating.load(SeqCst)));
                            abort.store(true, SeqCst);
                            break;
                        }
                    }
                    _ => quiet = Some((Instant::now(), ep)),
                }
            }
            for h in hs {
                if h.join().is_err() {
                    return Some(Fail { sig: "panic".into(), msg: "a thread panicked".into() });
                }
            }
            stuck.filter(|_| prop == 20).map(|m| Fail { sig: "stuck".into(), msg: m })
        });
        if let Some(f) = failed {
            return Err(f);
        }
        let (live, creating) = (w.live.load(SeqCst), w.creating.load(SeqCst));
        if prop == 19 {
            ensure!(creating == 0, "undead", "{creating} creations are left after every request ended");
            ensure!(w.discarded.load(SeqCst) == 0, "discarded", "{} returned items were discarded", w.discarded.load(SeqCst));
            ensure!(live <= N, "too-many", "{live} items exist in a pool of {N}");
        } else {
            // every place is usable again
            let slot = Arc::new(Slot::default());
            *slot.thread.lock().unwrap() = Some(std::thread::current());
            let mut got = vec![];
            let mut tries = 0;
            while got.len() < N && tries < 1000 {
                tries += 1;
                // alone with the pool: whatever completes, completes without waiting for others
                match alone(pool.get(), &slot) {
                    Some(Ok(x)) => got.push(x),
                    Some(Err(())) => {}
                    None => return fail("capacity", format!("only {} of {N} requests are served although nobody else uses the pool", got.len())),
                }
            }
            ensure!(got.len() == N, "capacity", "only {} of {N} requests are served", got.len());
        }
        let e = w.errors.lock().unwrap().drain(..).find(|e| e.0 == prop);
        w.closing.store(true, SeqCst);
        if let Some((_, sig, m)) = e {
            return fail(sig, m);
        }
        drop(pool);
        if prop == 19 {
            ensure!(w.live.load(SeqCst) == 0, "leaked", "{} items outlive the pool", w.live.load(SeqCst));
        }
    }
    Ok(())
}

/// All places are requested at the same moment and kept until all are taken; a request may only
/// wait for an item to come back when as many as allowed exist.
fn together<const N: usize>(s: &mut Src, c: &mut Ctx) -> Res {
    static ONE: Mutex<()> = Mutex::new(());
    // the threads of one case get all processors
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let nt = N + s.usize(3).min(8 - N.min(8));
    let rounds = 60;
    let seed = s.u64();
    c.nontrivial = true;
    c.note(format!("{nt} threads request the {N} places of a pool at once"));
    c.label(format!("{nt} threads, size {N}"));
    struct Round<const N: usize> {
        w: Arc<Shared>,
        pool: AsyncPool<TItem, (), N>,
        got: AtomicUsize,
        dropped: AtomicUsize,
        arrived: AtomicUsize,
    }
    let all: Vec<Round<N>> = (0..rounds)
        .map(|k| {
            let w = Arc::new(Shared { n: N, seed: AtomicU64::new(mix(seed, k)), ..Default::default() });
            Round { pool: AsyncPool::new(w.clone()), w, got: 0.into(), dropped: 0.into(), arrived: 0.into() }
        })
        .collect();
    let current = AtomicUsize::new(0);
    let slots: Vec<Arc<Slot>> = (0..nt).map(|_| Arc::new(Slot { finished: true.into(), ..Slot::default() })).collect();
    let abort = AtomicBool::new(false);
    let spin = |f: &dyn Fn() -> bool| {
        let mut n = 0;
        while !f() && !abort.load(SeqCst) {
            n += 1;
            if n > 3000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    let stuck = std::thread::scope(|sc| {
        let mut hs = vec![];
        for slot in &slots {
            let (slot, all, current, abort, spin) = (slot.clone(), &all, &current, &abort, &spin);
            hs.push(sc.spawn(move || {
                *slot.thread.lock().unwrap() = Some(std::thread::current());
                for (k, r) in all.iter().enumerate() {
                    current.fetch_max(k, SeqCst);
                    r.arrived.fetch_add(1, SeqCst);
                    spin(&|| r.arrived.load(SeqCst) >= nt);
                    if abort.load(SeqCst) {
                        break;
                    }
                    slot.finished.store(false, SeqCst);
                    let item = block_on(r.pool.get(), &slot, None, abort);
                    slot.finished.store(true, SeqCst);
                    if item.is_some() {
                        r.got.fetch_add(1, SeqCst);
                    }
                    spin(&|| r.got.load(SeqCst) >= N);
                    let had = item.is_some();
                    drop(item);
                    if had {
                        r.dropped.fetch_add(1, SeqCst);
                    }
                }
            }));
        }
        let mut quiet: Option<(Instant, Vec<u64>)> = None;
        let mut stuck = None;
        while !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(2));
            let r = &all[current.load(SeqCst)];
            let (creating, live) = (r.w.creating.load(SeqCst), r.w.live.load(SeqCst));
            let waiting = slots.iter().filter(|x| !x.finished.load(SeqCst)).count();
            let parked = slots.iter().all(|x| x.finished.load(SeqCst) || (!x.woken.load(SeqCst) && x.blocked.load(SeqCst)));
            let (got, dropped) = (r.got.load(SeqCst), r.dropped.load(SeqCst));
            // capacity: a free place, or every item taken so far was returned
            let capacity = live + creating < N || (got >= N && got == dropped);
            let mut ep: Vec<u64> = slots.iter().map(|x| x.epoch.load(SeqCst)).collect();
            ep.extend([current.load(SeqCst) as u64, got as u64, dropped as u64, live as u64, creating as u64]);
            if waiting == 0 || !parked || !capacity {
                // a thread leaves the parked state for moments every 20 ms
                if waiting == 0 || !capacity || quiet.as_ref().is_some_and(|(_, e)| *e != ep) {
                    quiet = None;
                }
                continue;
            }
            match &quiet {
                Some((t, e)) if *e == ep => {
                    if t.elapsed() > Duration::from_millis(400) {
                        stuck = Some(format!("{waiting} of {nt} threads that requested an item of a pool of {N} at the same time wait and nobody wakes them, although {live} items exist and {creating} are being created, of which {} are in use", got - dropped));
                        abort.store(true, SeqCst);
                        break;
                    }
                }
                _ => quiet = Some((Instant::now(), ep)),
            }
        }
        abort.fetch_or(stuck.is_some(), SeqCst);
        for h in hs {
            if h.join().is_err() {
                return Some("a thread panicked".to_string());
            }
        }
        stuck
    });
    c.evals += all.len() as u64;
    for r in &all {
        r.w.closing.store(true, SeqCst);
    }
    match stuck {
        Some(m) => fail("stuck", m),
        None => Ok(()),
    }
}
fn c20_together(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(4) {
        0 => together::<2>(s, c),
        1 => together::<3>(s, c),
        2 => together::<5>(s, c),
        _ => together::<8>(s, c),
    }
}

fn run_threads(s: &mut Src, c: &mut Ctx, prop: u8) -> Res {
    match s.below(3) {
        0 => threads::<1>(s, c, prop),
        1 => threads::<2>(s, c, prop),
        _ => threads::<3>(s, c, prop),
    }
}
fn c19_threads(s: &mut Src, c: &mut Ctx) -> Res {
    run_threads(s, c, 19)
}
fn c20_threads(s: &mut Src, c: &mut Ctx) -> Res {
    run_threads(s, c, 20)
}

// ------------------------------------------- C21

#[derive(Debug, Default)]
struct Tally(AtomicI64);
#[derive(Debug)]
struct Tracked(Arc<Tally>, u64);
impl Tracked {
    fn new(t: &Arc<Tally>, x: u64) -> Self {
        t.0.fetch_add(1, SeqCst);
        Tracked(t.clone(), x)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.0 .0.fetch_sub(1, SeqCst);
    }
}

fn vec_pool<const N: usize>(s: &mut Src, c: &mut Ctx) -> Res {
    let ctx = VecPoolCtx { size_cap: *s.pick(&[0usize, 1, 8, 64, 1000]), init_size: *s.pick(&[0usize, 1, 8, 64, 1000]) };
    let (cap, init) = (ctx.size_cap, ctx.init_size);
    let bytes: SyncPool<Vec<u8>, N> = SyncPool::new(VecPoolCtx { size_cap: cap, init_size: init });
    let objects: SyncPool<Vec<Tracked>, N> = SyncPool::new(ctx);
    let tally = Arc::new(Tally::default());
    let mut a: Vec<(PoolItem<Vec<u8>>, Vec<u8>)> = vec![];
    let mut b: Vec<(PoolItem<Vec<Tracked>>, Vec<u64>)> = vec![];
    let n = 1 + s.usize(60);
    let mut recycled = 0;
    c.note(format!("{n} operations on pools of {N}, size cap {cap}, initial size {init}"));
    for i in 0..n {
        match s.below(6) {
            0 => {
                let x = bytes.get();
                ensure!(x.is_empty(), "not-empty", "operation {i}: a buffer comes with {} bytes", x.len());
                ensure!(x.capacity() <= cap.max(init), "capacity", "operation {i}: a buffer comes with a capacity of {}, kept are {cap}, new ones get {init}", x.capacity());
                for (y, _) in &a {
                    ensure!(y.capacity() == 0 || x.capacity() == 0 || x.as_ptr() != y.as_ptr(), "shared", "operation {i}: two users get the same buffer");
                }
                a.push((x, vec![]));
            }
            1 => {
                let x = objects.get();
                ensure!(x.is_empty(), "not-empty", "operation {i}: a vector comes with {} elements", x.len());
                ensure!(x.capacity() <= cap.max(init), "capacity", "operation {i}: a vector comes with a capacity of {}", x.capacity());
                b.push((x, vec![]));
            }
            2 if !a.is_empty() => {
                let k = s.usize(a.len());
                let d = match s.below(4) {
                    0 => s.blob(3000),
                    1 => s.blob(cap),
                    2 => s.blob(cap + 1),
                    _ => s.bytes(40),
                };
                a[k].0.extend_from_slice(&d);
                a[k].1.extend_from_slice(&d);
            }
            3 if !b.is_empty() => {
                let k = s.usize(b.len());
                for _ in 0..s.usize(70) {
                    let x = s.below(1000);
                    b[k].0.push(Tracked::new(&tally, x));
                    b[k].1.push(x);
                }
            }
            4 if !a.is_empty() => {
                let k = s.usize(a.len());
                let (x, want) = a.swap_remove(k);
                ensure!(**AsRef::<Vec<u8>>::as_ref(&x) == want[..], "shared", "operation {i}: a buffer holds other bytes than its user wrote");
                recycled += 1;
                drop(x);
            }
            5 if !b.is_empty() => {
                let k = s.usize(b.len());
                let (x, want) = b.swap_remove(k);
                ensure!(x.iter().map(|x| x.1).eq(want.iter().copied()), "shared", "operation {i}: a vector holds other elements than its user wrote");
                recycled += 1;
                drop(x);
                let alive: usize = b.iter().map(|x| x.1.len()).sum();
                ensure!(tally.0.load(SeqCst) == alive as i64, "retained", "operation {i}: {} elements are alive after a return, {alive} are in use", tally.0.load(SeqCst));
            }
            _ => {}
        }
        for (x, want) in &a {
            ensure!(x[..] == want[..], "shared", "operation {i}: a buffer changed under its user");
        }
    }
    c.nontrivial = recycled > 1;
    drop(a);
    drop(b);
    drop(objects);
    ensure!(tally.0.load(SeqCst) == 0, "retained", "elements are left when everything is gone");
    Ok(())
}

/// any content: reset on return, at most N kept, one user each
#[derive(Debug)]
struct Custom {
    ctx: CustomCtx,
    dirty: bool,
    used: AtomicBool,
}
#[derive(Debug, Clone)]
struct CustomCtx(Arc<(AtomicI64, AtomicI64, AtomicI64)>);
impl SyncPoolContent for Custom {
    type Ctx = CustomCtx;
    fn new(ctx: &CustomCtx) -> Self {
        ctx.0 .0.fetch_add(1, SeqCst);
        Custom { ctx: ctx.clone(), dirty: false, used: AtomicBool::new(false) }
    }
    fn reset(&mut self, ctx: &CustomCtx) {
        ctx.0 .1.fetch_add(1, SeqCst);
        self.dirty = false;
    }
}
impl Drop for Custom {
    fn drop(&mut self) {
        self.ctx.0 .0.fetch_sub(1, SeqCst);
        self.ctx.0 .2.fetch_add(1, SeqCst);
    }
}

fn custom_pool<const N: usize>(s: &mut Src, c: &mut Ctx) -> Res {
    let ctx = CustomCtx(Default::default());
    let pool: SyncPool<Custom, N> = SyncPool::new(ctx.clone());
    let nt = 1 + s.usize(4);
    let ops = 10 + s.below(80);
    let seed = s.u64();
    c.nontrivial = true;
    c.note(format!("{nt} threads x {ops} operations on a pool of {N}"));
    let errors = Mutex::new(vec![]);
    let barrier = Barrier::new(nt);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt {
            let (pool, errors, barrier) = (&pool, &errors, &barrier);
            hs.push(sc.spawn(move || {
                let mut held: Vec<PoolItem<Custom>> = vec![];
                let mut r = mix(seed, t as u64);
                barrier.wait();
                for k in 0..ops {
                    r = mix(r, k);
                    if r % 2 == 0 && held.len() < 6 {
                        let mut x = pool.get();
                        if x.dirty {
                            errors.lock().unwrap().push(("not-reset", "an item comes as its last user left it"));
                        }
                        if x.used.swap(true, SeqCst) {
                            errors.lock().unwrap().push(("shared", "an item is held by two users"));
                        }
                        x.dirty = true;
                        held.push(x);
                    } else if !held.is_empty() {
                        let i = (r >> 8) as usize % held.len();
                        let x = held.swap_remove(i);
                        x.used.store(false, SeqCst);
                        drop(x);
                    }
                }
                for x in &held {
                    x.used.store(false, SeqCst);
                }
            }));
        }
        for h in hs {
            if h.join().is_err() {
                errors.lock().unwrap().push(("panic", "a thread panicked"));
            }
        }
    });
    if let Some((sig, m)) = errors.lock().unwrap().first() {
        return fail(sig, *m);
    }
    let kept = ctx.0 .0.load(SeqCst);
    ensure!(kept <= N as i64, "retained", "{kept} items are kept in a pool of {N}");
    drop(pool);
    ensure!(ctx.0 .0.load(SeqCst) == 0, "leaked", "{} items outlive the pool", ctx.0 .0.load(SeqCst));
    Ok(())
}

fn c21_vec(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(3) {
        0 => vec_pool::<1>(s, c),
        1 => vec_pool::<2>(s, c),
        _ => vec_pool::<8>(s, c),
    }
}
fn c21_custom(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(3) {
        0 => custom_pool::<1>(s, c),
        1 => custom_pool::<3>(s, c),
        _ => custom_pool::<16>(s, c),
    }
}

struct All(Vec<Option<Pin<Box<dyn Future<Output = Res>>>>>, Src);
impl Future for All {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let this = &mut *self;
        let n = this.0.len();
        let first = this.1.usize(n);
        let mut open = false;
        for k in 0..n {
            let slot = &mut this.0[(first + k) % n];
            if let Some(f) = slot {
                match f.as_mut().poll(cx) {
                    Poll::Ready(Ok(())) => *slot = None,
                    Poll::Ready(e) => return Poll::Ready(e),
                    Poll::Pending => open = true,
                }
            }
        }
        if open {
            Poll::Pending
        } else {
            Poll::Ready(Ok(()))
        }
    }
}

/// the answer of connection `k` to its command `i`: recognisable everywhere
fn mark(k: u64, i: u64, len: usize) -> Vec<u8> {
    let pat = format!("<{k}.{i}>");
    pat.bytes().cycle().take(len).collect()
}

/// one connection with its own server: answers differ from everybody else's, requests are checked
struct Conv {
    k: u64,
    link: Link,
    plan: Vec<(usize, usize, bool)>,
    errs: Arc<Mutex<Vec<String>>>,
}
fn conversation(k: u64, s: &mut Src) -> Conv {
    let n = 1 + s.usize(4);
    let plan: Vec<(usize, usize, bool)> = (0..n)
        .map(|_| {
            let len = |s: &mut Src| match s.below(8) {
                0 => s.usize(70_000),
                1..=3 => s.usize(3000),
                _ => s.usize(60),
            };
            (len(s) + 4, len(s) + 4, s.bool())
        })
        .collect();
    let errs = Arc::new(Mutex::new(vec![]));
    let (e2, p2) = (errs.clone(), plan.clone());
    let mut at = 0;
    let mut long: HashMap<u16, Vec<u8>> = HashMap::new();
    let srv = Server::simple(Greeting::default(), move |cmd| {
        let text = match cmd {
            Cmd::Query(q) => q.clone(),
            Cmd::Prepare(q) => {
                let q = q.clone();
                if q != mark(k, at as u64, p2[at].0) {
                    e2.lock().unwrap().push(format!("connection {k}: statement {at} arrives as {:?}", String::from_utf8_lossy(&q[..q.len().min(60)])));
                }
                return Resp::Prepared { id: 1, params: vec![Col::new("?", ct::VAR_STRING)], cols: vec![Col::new("c", ct::BLOB)], warnings: 0 };
            }
            Cmd::LongData { idx, data, .. } => {
                long.entry(*idx).or_default().extend_from_slice(data);
                return Resp::None;
            }
            Cmd::Execute(x) => match decode_execute(x, 1, &std::mem::take(&mut long)).ok().and_then(|mut p| p.pop()).map(|p| p.value) {
                Some(Value::Bytes(b)) => b,
                _ => vec![],
            },
            _ => return Resp::ok(),
        };
        let i = at;
        at += 1;
        if i >= p2.len() || text != mark(k, i as u64, p2[i].0) {
            e2.lock().unwrap().push(format!("connection {k}: command {i} arrives as {:?}", String::from_utf8_lossy(&text[..text.len().min(60)])));
            return Resp::ok();
        }
        Resp::rows(vec![Col::new("c", ct::BLOB)], vec![vec![Value::Bytes(mark(k, 100 + i as u64, p2[i].1))]])
    });
    let link = Link::new(Box::new(srv), IoPlan::gen(s));
    Conv { k, link, plan, errs }
}
impl Conv {
    async fn go(self) -> Res {
        let Conv { k, link, plan, .. } = self;
        let mut conn: Connection = must!("connect", connect(&link).await);
        for (i, (a, b, prep)) in plan.into_iter().enumerate() {
            let q = mark(k, i as u64, a);
            let q = String::from_utf8(q).unwrap();
            let rows: Vec<Vec<Value>> = if prep {
                let mut st = must!("prepare", conn.prepare_statement(&q).await);
                let mut rs = must!("execute", st.query::<Value, Vec<Value>>(&[Value::Bytes(q.into_bytes())]).await);
                must!("collect", rs.collect().await)
            } else {
                let mut rs = must!("query", conn.query::<Vec<Value>>(&q).await);
                must!("collect", rs.collect().await)
            };
            let want = mark(k, 100 + i as u64, b);
            let got = rows.first().and_then(|r| r.first()).cloned();
            ensure!(got == Some(Value::Bytes(want)), "mixed", "connection {k}: command {i} returns {}", format!("{got:?}").chars().take(80).collect::<String>());
        }
        Ok(())
    }
}

fn c21_concurrent(s: &mut Src, c: &mut Ctx) -> Res {
    let n = 2 + s.usize(5);
    let threads = s.chance(1, 3);
    c.nontrivial = true;
    c.note(format!("{n} connections{}", if threads { " in threads" } else { " interleaved" }));
    let cs: Vec<_> = (0..n as u64).map(|k| conversation(k, s)).collect();
    let mut errs = vec![];
    if threads {
        let barrier = Barrier::new(n);
        let rs: Vec<Option<Res>> = std::thread::scope(|sc| {
            let hs: Vec<_> = cs
                .into_iter()
                .map(|x| {
                    errs.push(x.errs.clone());
                    let barrier = &barrier;
                    sc.spawn(move || {
                        barrier.wait();
                        run(x.go()).ok()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some(fail("panic", "a thread panicked")))).collect()
        });
        for r in rs {
            match r {
                Some(r) => r?,
                None => return Err(hang("one of several connections")),
            }
        }
    } else {
        let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Res>>>>> = vec![];
        for x in cs {
            errs.push(x.errs.clone());
            futs.push(Some(Box::pin(x.go())));
        }
        let seed = s.u64();
        match run(All(futs, Src::random(seed))) {
            Ok(r) => r?,
            Err(_) => return Err(hang("one of several connections")),
        }
    }
    for e in errs {
        if let Some(m) = e.lock().unwrap().first() {
            return fail("mixed", m.clone());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            level: "exploration",
            rule: "simulation: at least one creation and eight events; threads: more threads than places",
            assumptions: &["items and creations are stand-ins that only count", "a panicking constructor is out of domain"],
            parts: vec![part("steps", 150_000, 8_000_000, c19_steps), part("interrupted", 250_000, 12_000_000, c19_interrupted), part("threads", 500, 20_000, c19_threads)],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "simulation: at least one creation and eight events; threads: more threads than places; together: always",
            assumptions: &["wake-ups count only for the waker of a request's latest poll", "a lost wake-up between threads is concluded when every unfinished thread is parked unwoken for 400 ms"],
            parts: vec![part("steps", 150_000, 8_000_000, c20_steps), part("interrupted", 250_000, 12_000_000, c20_interrupted), part("threads", 500, 20_000, c20_threads), part("together", 160, 8_000, c20_together)],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "buffers: at least two were recycled; all others",
            assumptions: &["the process-wide buffers are observed through the connections that use them"],
            parts: vec![part("buffers", 40_000, 2_000_000, c21_vec), part("items", 4_000, 200_000, c21_custom), part("connections", 5_000, 300_000, c21_concurrent)],
        },
    ]
}
