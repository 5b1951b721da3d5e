//! Virtual clock, timers, trace, and the seeded single-threaded executor.

use crate::rng::{hash, Rng};
use futures::future::LocalBoxFuture;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::ThreadId;

/// Work not attributable to a simulated actor (tasks an engine spawned by itself).
pub const BACKGROUND: u32 = 999_999;
/// Actors below this are writers, the others read.
pub const FIRST_READER: u32 = 100;

/// Bumped on every scheduling step; a watchdog outside the simulated thread looks at it.
pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

pub struct Core {
    inner: Mutex<Inner>,
    owner: ThreadId,
    actor: AtomicU32,
}

struct Timer {
    fired: bool,
    waker: Option<Waker>,
}

struct Inner {
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    timers: BTreeMap<u64, Timer>,
    hash: u64,
    steps: u64,
    log: Option<Vec<String>>,
}

impl Core {
    pub fn new(log: bool) -> Arc<Core> {
        Arc::new(Core {
            inner: Mutex::new(Inner {
                now: 0,
                seq: 0,
                heap: BinaryHeap::new(),
                timers: BTreeMap::new(),
                hash: 0,
                steps: 0,
                log: log.then(Vec::new),
            }),
            owner: std::thread::current().id(),
            actor: AtomicU32::new(BACKGROUND),
        })
    }
    pub fn foreign(&self) -> bool {
        std::thread::current().id() != self.owner
    }
    /// Simulated microseconds since the start.
    pub fn now(&self) -> u64 {
        self.inner.lock().unwrap().now
    }
    pub fn actor(&self) -> u32 {
        self.actor.load(Ordering::Relaxed)
    }
    pub fn set_actor(&self, a: u32) -> u32 {
        self.actor.swap(a, Ordering::Relaxed)
    }
    pub fn steps(&self) -> u64 {
        self.inner.lock().unwrap().steps
    }
    pub fn step(&self) -> u64 {
        HEARTBEAT.fetch_add(1, Ordering::Relaxed);
        let mut i = self.inner.lock().unwrap();
        i.steps += 1;
        i.steps
    }
    /// Fold an event into the trace hash, and into the log when one is kept.
    pub fn trace(&self, code: u64, f: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        i.hash = hash(&[i.hash, i.now, code]);
        let now = i.now;
        if let Some(l) = i.log.as_mut() {
            l.push(format!("{:>10}us {}", now, f()));
        }
    }
    pub fn trace_hash(&self) -> u64 {
        self.inner.lock().unwrap().hash
    }
    pub fn take_log(&self) -> Vec<String> {
        self.inner.lock().unwrap().log.take().unwrap_or_default()
    }
    pub fn sleep(self: &Arc<Self>, us: u64) -> Sleep {
        Sleep {
            core: self.clone(),
            us,
            id: None,
        }
    }
    /// Advance the clock to the earliest timer and fire it. False when there is none.
    pub fn fire_next(&self) -> bool {
        self.fire_within(u64::MAX)
    }
    /// The same for timers due within the next `us` microseconds.
    pub fn fire_within(&self, us: u64) -> bool {
        let waker = {
            let mut i = self.inner.lock().unwrap();
            loop {
                let Some(Reverse((at, id))) = i.heap.pop() else {
                    return false;
                };
                if !i.timers.contains_key(&id) {
                    continue; // dropped
                }
                if at > i.now.saturating_add(us) {
                    i.heap.push(Reverse((at, id)));
                    return false;
                }
                i.now = i.now.max(at);
                let t = i.timers.get_mut(&id).unwrap();
                t.fired = true;
                break t.waker.take();
            }
        };
        if let Some(w) = waker {
            w.wake();
        }
        true
    }
}

pub struct Sleep {
    core: Arc<Core>,
    us: u64,
    id: Option<u64>,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.core.foreign() {
            return Poll::Ready(()); // another OS thread, while the simulated one waits for it
        }
        let core = self.core.clone();
        let mut i = core.inner.lock().unwrap();
        match self.id {
            None => {
                i.seq += 1;
                let id = i.seq;
                let at = i.now + self.us;
                i.heap.push(Reverse((at, id)));
                i.timers.insert(
                    id,
                    Timer {
                        fired: false,
                        waker: Some(cx.waker().clone()),
                    },
                );
                self.id = Some(id);
                Poll::Pending
            }
            Some(id) => {
                let t = i.timers.get_mut(&id).unwrap();
                if t.fired {
                    Poll::Ready(())
                } else {
                    t.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            if let Ok(mut i) = self.core.inner.lock() {
                i.timers.remove(&id);
            }
        }
    }
}

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<BTreeSet<usize>>>,
    outer: Arc<Mutex<Option<Waker>>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.ready.lock().unwrap().insert(self.id);
        if let Some(w) = self.outer.lock().unwrap().as_ref() {
            w.wake_by_ref();
        }
    }
}

struct Task {
    fut: LocalBoxFuture<'static, ()>,
    actor: u32,
    waker: Waker,
}

type SpawnQueue = Rc<RefCell<Vec<(u32, LocalBoxFuture<'static, ()>)>>>;

/// Lets tasks start tasks.
#[derive(Clone)]
pub struct Spawner(SpawnQueue);

impl Spawner {
    pub fn spawn(&self, actor: u32, fut: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((actor, Box::pin(fut)));
    }
}

#[derive(Debug, PartialEq)]
pub enum Outcome {
    Done,
    /// Tasks are left, none is runnable and no event is due.
    Stuck,
    TooManySteps,
}

pub struct Exec {
    core: Arc<Core>,
    tasks: Vec<Option<Task>>,
    live: usize,
    ready: Arc<Mutex<BTreeSet<usize>>>,
    outer: Arc<Mutex<Option<Waker>>>,
    rng: Rng,
    queue: SpawnQueue,
    /// Per mille: fire an event although tasks are runnable.
    eager_events: u64,
    /// Per mille: poll a task nobody woke.
    spurious: u64,
    max_steps: u64,
    spins: u64,
    spun_at: u64,
}

impl Exec {
    pub fn new(
        core: Arc<Core>,
        seed: u64,
        eager_events: u64,
        spurious: u64,
        max_steps: u64,
    ) -> Self {
        Exec {
            core,
            tasks: Vec::new(),
            live: 0,
            ready: Arc::new(Mutex::new(BTreeSet::new())),
            outer: Arc::new(Mutex::new(None)),
            rng: Rng::new(seed),
            queue: Rc::new(RefCell::new(Vec::new())),
            eager_events,
            spurious,
            max_steps,
            spins: 0,
            spun_at: 0,
        }
    }
    pub fn spawner(&self) -> Spawner {
        Spawner(self.queue.clone())
    }
    fn accept(&mut self) {
        let new: Vec<_> = self.queue.borrow_mut().drain(..).collect();
        for (actor, fut) in new {
            let id = self.tasks.len();
            let waker = Waker::from(Arc::new(TaskWaker {
                id,
                ready: self.ready.clone(),
                outer: self.outer.clone(),
            }));
            self.tasks.push(Some(Task { fut, actor, waker }));
            self.live += 1;
            self.ready.lock().unwrap().insert(id);
        }
    }
    fn poll_task(&mut self, id: usize) {
        let Some(mut t) = self.tasks[id].take() else {
            return;
        };
        let prev = self.core.set_actor(t.actor);
        let waker = t.waker.clone();
        let done = t
            .fut
            .as_mut()
            .poll(&mut Context::from_waker(&waker))
            .is_ready();
        self.core
            .trace(id as u64 ^ 0x51ED, || format!("poll task {id} done={done}"));
        if done {
            self.live -= 1;
            drop(t);
        } else {
            self.tasks[id] = Some(t);
        }
        self.core.set_actor(prev);
    }
    /// Poll one task chosen by the seed. False when none is runnable.
    fn step(&mut self) -> bool {
        self.accept();
        if self.spurious > 0 && self.rng.pm(self.spurious) {
            let ids: Vec<usize> = (0..self.tasks.len())
                .filter(|i| self.tasks[*i].is_some())
                .collect();
            if !ids.is_empty() {
                let id = *self.rng.pick(&ids);
                self.poll_task(id);
                self.accept();
            }
        }
        let id = {
            let mut r = self.ready.lock().unwrap();
            if r.is_empty() {
                return false;
            }
            let k = self.rng.below(r.len() as u64) as usize;
            let id = *r.iter().nth(k).unwrap();
            r.remove(&id);
            id
        };
        self.poll_task(id);
        true
    }
    /// Drive everything to the end.
    pub fn run(&mut self) -> Outcome {
        loop {
            self.accept();
            if self.live == 0 {
                return Outcome::Done;
            }
            if self.core.step() > self.max_steps {
                return Outcome::TooManySteps;
            }
            if self.eager_events > 0 && self.rng.pm(self.eager_events) {
                // not the patience timers: a runnable task is never an hour late
                self.core.fire_within(60_000_000);
            }
            if !self.step() && self.live > 0 && !self.core.fire_next() {
                return Outcome::Stuck;
            }
        }
    }
    /// Drive under an outer runtime that also owns tasks: run what is runnable here, then yield.
    /// The outer runtime fires timers when everything is idle.
    pub fn poll_outer(&mut self, cx: &mut Context<'_>) -> Poll<Outcome> {
        *self.outer.lock().unwrap() = Some(cx.waker().clone());
        let mut n = 0;
        loop {
            self.accept();
            if self.live == 0 {
                return Poll::Ready(Outcome::Done);
            }
            if self.core.step() > 3 * self.max_steps {
                return Poll::Ready(Outcome::TooManySteps);
            }
            // DataFusion's merges poll again and again while they wait, so time has to pass
            if self.rng.pm(self.eager_events.max(10)) {
                self.core.fire_within(60_000_000);
            }
            let now = self.core.now();
            self.spins = if now == self.spun_at {
                self.spins + 1
            } else {
                0
            };
            self.spun_at = now;
            if self.spins > 2_000_000 {
                self.core.fire_next();
            }
            if !self.step() && self.live > 0 {
                return Poll::Pending;
            }
            n += 1;
            if n >= 1 + (self.rng.below(4)) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
    }
    /// Drop what is left (after a failed run), attributing side effects to nobody.
    pub fn abandon(&mut self) {
        for t in self.tasks.iter_mut() {
            *t = None;
        }
        self.queue.borrow_mut().clear();
    }
}

/// `fut` or `None` after `us` simulated microseconds.
pub async fn timeout<T>(core: &Arc<Core>, us: u64, fut: impl Future<Output = T>) -> Option<T> {
    let s = core.sleep(us);
    futures::pin_mut!(fut);
    futures::pin_mut!(s);
    match futures::future::select(fut, s).await {
        futures::future::Either::Left((v, _)) => Some(v),
        futures::future::Either::Right(_) => None,
    }
}

/// Polls `fut` at most `n` times, then drops it and yields `None`.
pub struct PollLimit<F> {
    pub fut: Option<Pin<Box<F>>>,
    pub left: u32,
}

impl<F: Future> Future for PollLimit<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            self.fut = None;
            return Poll::Ready(None);
        }
        self.left -= 1;
        let r = self.fut.as_mut().unwrap().as_mut().poll(cx);
        match r {
            Poll::Ready(v) => {
                self.fut = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending if self.left == 0 => {
                self.fut = None;
                Poll::Ready(None)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
