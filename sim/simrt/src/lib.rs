//! Runtime of the oracle-service simulator: everything the service would get from the operating
//! system and the network comes from here instead. One thread, one seed, simulated time.
pub mod chan;
pub mod co;
pub mod sys;

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub type Inst = u32;

#[derive(Debug, Clone)]
pub enum RpcFail {
    /// no usable answer: connection refused, reset, timed out
    Transport(String),
    /// the node answered with an error
    Node(i64, String),
}
pub type RpcResult = Result<serde_json::Value, RpcFail>;

/// A program-account update as a feed delivers it.
#[derive(Debug, Clone)]
pub struct Update {
    pub slot: u64,
    pub key: [u8; 32],
    pub owner: [u8; 32],
    pub lamports: u64,
    pub data: Vec<u8>,
    /// the feed sends this instead of the account's data
    pub undecodable: bool,
    /// an identifier the world uses to know that this was taken out of the channel
    /// where a test harness got this from; `BAD_KEY`: the key cannot be read
    pub tag: u64,
}

#[derive(Debug, Clone)]
pub enum FeedItem {
    Update(Update),
    /// feed traffic that is not an account update
    Noise,
    Error(String),
}

pub struct AccountFilter {
    pub owners: Vec<String>,
    /// (offset, bytes)
    pub memcmp: Vec<(usize, Vec<u8>)>,
    pub data_size: Option<u64>,
    pub keys: Vec<String>,
}

/// What the simulated world offers to a service instance.
pub trait Node {
    fn rpc(
        &self,
        inst: Inst,
        url: &str,
        timeout: Duration,
        method: String,
        params: serde_json::Value,
    ) -> (u64, tokio::sync::oneshot::Receiver<RpcResult>);
    /// the service has the answer to this call
    fn replied(&self, call: u64);
    fn subscribe(&self, inst: Inst, kind: Feed, url: &str, filter: AccountFilter) -> Result<chan::Rx<FeedItem>, String>;
    fn http_listen(&self, inst: Inst, port: u16) -> tokio::sync::mpsc::UnboundedReceiver<tokio::io::DuplexStream>;
    /// an item was taken out of a feed
    fn delivered(&self, inst: Inst, item: &FeedItem);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Feed {
    WebSocket,
    Laser,
}

#[derive(Default)]
struct InstState {
    dead: bool,
    paused: bool,
    /// every thread the service's runtime has is blocked in a synchronous call
    main_blocked: bool,
    tasks_blocked: usize,
    workers: usize,
    single: bool,
    parked: Vec<Waker>,
    alive: Arc<AtomicUsize>,
    handles: Vec<tokio::task::AbortHandle>,
}

#[derive(Default)]
struct Ctx {
    rng: u64,
    /// out of 256
    jitter: u64,
    insts: BTreeMap<Inst, InstState>,
    node: Option<Rc<dyn Node>>,
    epoch: Option<tokio::time::Instant>,
    polls_here: u64,
    last_now: u64,
    polls: u64,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static CUR: Cell<Option<(Inst, bool)>> = const { Cell::new(None) };
    static WAKER: RefCell<Option<Waker>> = const { RefCell::new(None) };
}

pub const BAD_KEY: u64 = 99;
pub const SPIN_LIMIT: u64 = 300_000;

/// Start a run on this thread. Must be called inside the runtime.
pub fn begin(seed: u64, jitter: u64, node: Rc<dyn Node>) {
    CTX.with(|c| {
        *c.borrow_mut() = Ctx {
            rng: seed ^ 0x5EED_0F_7A5C,
            jitter,
            node: Some(node),
            epoch: Some(tokio::time::Instant::now()),
            ..Default::default()
        }
    });
    tick();
}

pub fn node() -> Rc<dyn Node> {
    CTX.with(|c| c.borrow().node.clone()).expect("outside the simulation")
}

pub fn try_node() -> Option<Rc<dyn Node>> {
    CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.node.clone())).ok().flatten()
}

/// Simulated milliseconds since the start of the run.
pub fn now_ms() -> u64 {
    let e = CTX.with(|c| c.borrow().epoch);
    match e {
        Some(e) => (tokio::time::Instant::now() - e).as_millis() as u64,
        None => 0,
    }
}

pub fn epoch() -> tokio::time::Instant {
    CTX.with(|c| c.borrow().epoch.unwrap())
}

/// Bring the clock the service reads up to date.
pub fn tick() {
    let ms = now_ms();
    sys::set_now(ms);
    let spin = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.polls += 1;
        if c.last_now != ms {
            c.last_now = ms;
            c.polls_here = 0;
        }
        c.polls_here += 1;
        c.polls_here > SPIN_LIMIT
    });
    if spin {
        sys::die("the service spins without letting time pass");
    }
}

pub fn polls() -> u64 {
    CTX.with(|c| c.borrow().polls)
}

pub fn rnd(n: u64) -> u64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.rng = c.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = c.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        ((z as u128 * n as u128) >> 64) as u64
    })
}

pub fn jitters() -> bool {
    let j = CTX.with(|c| c.borrow().jitter);
    j > 0 && CUR.with(|c| c.get()).is_some() && rnd(256) < j
}

/// A scheduling point.
pub async fn maybe_yield() {
    let mut n = 0;
    while n < 4 && jitters() {
        n += 1;
        yield_once().await;
    }
}

async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub fn current_inst() -> Option<Inst> {
    CUR.with(|c| c.get()).map(|x| x.0)
}

pub fn current_waker() -> Option<Waker> {
    WAKER.with(|w| w.borrow().clone())
}

struct Alive(Arc<AtomicUsize>);
impl Drop for Alive {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

/// A task of a service instance: every poll runs on its own stack, so that the blocking calls of
/// the service suspend only that task.
pub struct CoFuture<F: Future> {
    inner: Option<Pin<Box<F>>>,
    job: Option<Box<co::Job>>,
    out: Box<Option<Poll<F::Output>>>,
    inst: Inst,
    main: bool,
    skipped: u8,
    _alive: Alive,
}
// one thread only; the bounds of tokio::spawn ask for it
unsafe impl<F: Future> Send for CoFuture<F> {}
impl<F: Future> Unpin for CoFuture<F> {}

impl<F: Future> CoFuture<F> {
    pub fn new(inst: Inst, main: bool, f: F) -> Self {
        let alive = CTX.with(|c| c.borrow_mut().insts.entry(inst).or_default().alive.clone());
        alive.fetch_add(1, Ordering::SeqCst);
        CoFuture {
            inner: Some(Box::pin(f)),
            job: None,
            out: Box::new(None),
            inst,
            main,
            skipped: 0,
            _alive: Alive(alive),
        }
    }
}

fn held(inst: Inst, main: bool, w: &Waker) -> bool {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let Some(s) = c.insts.get_mut(&inst) else { return false };
        let threads = s.workers.max(1);
        let stuck = if s.single {
            s.main_blocked || s.tasks_blocked > 0
        } else {
            !main && s.tasks_blocked >= threads
        };
        if s.dead {
            return true;
        }
        if s.paused || stuck {
            s.parked.push(w.clone());
            return true;
        }
        false
    })
}

fn blocked(inst: Inst, main: bool, on: bool) {
    let wake = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let Some(s) = c.insts.get_mut(&inst) else { return vec![] };
        if main {
            s.main_blocked = on;
        } else if on {
            s.tasks_blocked += 1;
        } else {
            s.tasks_blocked -= 1;
        }
        if on {
            vec![]
        } else {
            std::mem::take(&mut s.parked)
        }
    });
    for w in wake {
        w.wake();
    }
}

impl<F: Future> Future for CoFuture<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        tick();
        let (inst, main) = (self.inst, self.main);
        let was_blocked = self.job.is_some();
        if !was_blocked && held(inst, main, cx.waker()) {
            return Poll::Pending;
        }
        if was_blocked && CTX.with(|c| c.borrow().insts.get(&inst).map(|s| s.dead || s.paused).unwrap_or(false)) {
            held(inst, main, cx.waker());
            return Poll::Pending;
        }
        let old = CUR.with(|c| c.replace(Some((inst, main))));
        if !was_blocked && self.skipped < 6 && jitters() {
            self.skipped += 1;
            CUR.with(|c| c.set(old));
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.skipped = 0;
        let old_w = WAKER.with(|w| w.borrow_mut().replace(cx.waker().clone()));
        let this = &mut *self;
        let mut job = match this.job.take() {
            Some(j) => {
                blocked(inst, main, false);
                j
            }
            None => {
                let fut: *mut Pin<Box<F>> = this.inner.as_mut().unwrap();
                let out: *mut Option<Poll<F::Output>> = &mut *this.out;
                let waker = cx.waker().clone();
                let work: Box<dyn FnOnce() + '_> = Box::new(move || unsafe {
                    let mut cx = Context::from_waker(&waker);
                    *out = Some((*fut).as_mut().poll(&mut cx));
                });
                // what it points to lives in boxes that this future owns or leaks
                co::Job::new(unsafe { std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce()>>(work) })
            }
        };
        let end = job.run();
        WAKER.with(|w| *w.borrow_mut() = old_w);
        CUR.with(|c| c.set(old));
        match end {
            co::End::Suspended => {
                this.job = Some(job);
                blocked(inst, main, true);
                Poll::Pending
            }
            co::End::Done => this.out.take().expect("polled"),
            co::End::Panicked(p) => std::panic::resume_unwind(p),
        }
    }
}

impl<F: Future> Drop for CoFuture<F> {
    fn drop(&mut self) {
        let dead = CTX
            .try_with(|c| c.try_borrow().ok().map(|c| c.insts.get(&self.inst).map(|s| s.dead).unwrap_or(true)))
            .ok()
            .flatten()
            .unwrap_or(true);
        if let Some(j) = self.job.take() {
            // suspended in a blocking call: the frames on its stack never end
            if !dead {
                blocked(self.inst, self.main, false);
            }
            std::mem::forget(j);
            std::mem::forget(self.inner.take());
        } else if dead {
            // a crashed process runs no destructors
            std::mem::forget(self.inner.take());
        }
    }
}

/// tokio::spawn of the service.
pub fn spawn<F>(f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    match current_inst() {
        None => tokio::spawn(f),
        Some(i) => {
            let h = tokio::spawn(CoFuture::new(i, false, f));
            track(i, h.abort_handle());
            h
        }
    }
}

pub fn track(i: Inst, h: tokio::task::AbortHandle) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.insts.entry(i).or_default();
        if s.handles.len() > 512 {
            s.handles.retain(|h| !h.is_finished());
        }
        s.handles.push(h);
    })
}

/// Start a service process. `single`: its runtime has one thread; `workers`: threads for tasks.
pub fn start<F>(i: Inst, single: bool, workers: usize, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: Send + 'static,
{
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.insts.entry(i).or_default();
        s.single = single;
        s.workers = workers;
    });
    let h = tokio::spawn(CoFuture::new(i, true, f));
    track(i, h.abort_handle());
    h
}

/// Kill a service process: nothing of it runs any more.
pub fn kill(i: Inst) {
    let hs = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.insts.entry(i).or_default();
        s.dead = true;
        s.parked.clear();
        std::mem::take(&mut s.handles)
    });
    for h in hs {
        h.abort();
    }
}

/// Stop or resume a service process (a stalled machine).
pub fn pause(i: Inst, on: bool) {
    let wake = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.insts.entry(i).or_default();
        s.paused = on;
        if on {
            vec![]
        } else {
            std::mem::take(&mut s.parked)
        }
    });
    for w in wake {
        w.wake();
    }
}

pub fn alive(i: Inst) -> usize {
    CTX.with(|c| c.borrow().insts.get(&i).map(|s| s.alive.load(Ordering::SeqCst)).unwrap_or(0))
}

/// Wait for a reply of the node, at most `d`. A node that never answers drops the call.
pub async fn reply_within(d: Duration, rx: tokio::sync::oneshot::Receiver<RpcResult>) -> Option<RpcResult> {
    match tokio::time::timeout(d, rx).await {
        Ok(Ok(r)) => Some(r),
        Ok(Err(_)) => Some(Err(RpcFail::Transport("connection reset".into()))),
        Err(_) => None,
    }
}
