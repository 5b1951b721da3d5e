//! Threads that call into the binding, one at a time: a thread gives the turn back where the
//! binding would block, and the seed decides who goes on or which storage answer comes next.
//! A thread that blocks without having released the interpreter lock keeps all others out of Python.

use hsim::core::Core;
use hsim::rng::{hash, Rng};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

extern "C" {
    fn PyGILState_Check() -> i32;
}

const MAIN: usize = usize::MAX;
/// Longer than any answer takes, shorter than the patience of other clients.
const LONG: u64 = 3_000_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// In front of a call, or back from one that released the lock.
    Outside,
    Blocked {
        locked: bool,
    },
    Done,
}

struct Th {
    at: At,
    ready: bool,
}

struct St {
    turn: usize,
    th: Vec<Th>,
    abort: bool,
}

pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}

struct Woken {
    s: Arc<Sched>,
    id: usize,
}

impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.s.m.lock().unwrap().th[self.id].ready = true;
    }
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

impl Sched {
    fn give_back(&self, id: usize, at: At) {
        let mut g = self.m.lock().unwrap();
        g.th[id].at = at;
        g.turn = MAIN;
        self.cv.notify_all();
        while g.turn != id {
            g = self.cv.wait(g).unwrap();
        }
    }
}

fn me() -> (Arc<Sched>, usize) {
    ME.with(|m| m.borrow().clone())
        .expect("harness: a thread of the simulation")
}

/// In place of the binding's runtime.
pub fn block_on(mut f: Pin<&mut dyn Future<Output = ()>>) {
    let (s, id) = me();
    let locked = unsafe { PyGILState_Check() } == 1;
    let waker = Waker::from(Arc::new(Woken { s: s.clone(), id }));
    let mut cx = Context::from_waker(&waker);
    loop {
        {
            let mut g = s.m.lock().unwrap();
            if g.abort {
                drop(g);
                panic!("simulation: abandoned");
            }
            g.th[id].ready = false;
        }
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(()) => break,
            Poll::Pending => s.give_back(id, At::Blocked { locked }),
        }
    }
    if !locked {
        s.give_back(id, At::Outside);
    }
}

/// Between two calls of a thread. It must not hold the lock.
pub fn pause() {
    let (s, id) = me();
    s.give_back(id, At::Outside);
}

pub enum Ended {
    All,
    /// Nobody could go on.
    Stuck,
    Runaway,
}

type Job = Box<dyn FnOnce() + Send>;

/// Runs the jobs to their ends.
pub fn run(core: &Arc<Core>, seed: u64, jobs: Vec<Job>) -> Ended {
    let mut r = Rng::new(seed);
    let eager = *r.pick(&[0, 0, 50, 300]);
    let spurious = *r.pick(&[0, 0, 30]);
    let s = Arc::new(Sched {
        m: Mutex::new(St {
            turn: MAIN,
            th: jobs
                .iter()
                .map(|_| Th {
                    at: At::Outside,
                    ready: false,
                })
                .collect(),
            abort: false,
        }),
        cv: Condvar::new(),
    });
    let mut hs = Vec::new();
    for (id, job) in jobs.into_iter().enumerate() {
        let s2 = s.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .name("sim".into())
                .spawn(move || {
                    hsim::interpose::seed_entropy(hash(&[seed, id as u64, 0xE18]));
                    ME.with(|m| *m.borrow_mut() = Some((s2.clone(), id)));
                    {
                        let mut g = s2.m.lock().unwrap();
                        while g.turn != id {
                            g = s2.cv.wait(g).unwrap();
                        }
                    }
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    let mut g = s2.m.lock().unwrap();
                    g.th[id].at = At::Done;
                    g.turn = MAIN;
                    s2.cv.notify_all();
                })
                .expect("thread"),
        );
    }
    let mut out = Ended::All;
    let first = core.steps();
    loop {
        if core.step() > first + 1_000_000 && matches!(out, Ended::All) {
            out = Ended::Runaway;
            s.m.lock().unwrap().abort = true;
        }
        if eager > 0 && r.pm(eager) {
            core.fire_within(LONG);
        }
        let next = {
            let g = s.m.lock().unwrap();
            if g.th.iter().all(|t| t.at == At::Done) {
                break;
            }
            let holder =
                g.th.iter()
                    .position(|t| t.at == At::Blocked { locked: true });
            let any = g.abort || (spurious > 0 && r.pm(spurious));
            let can: Vec<usize> = (0..g.th.len())
                .filter(|i| match g.th[*i].at {
                    At::Done => false,
                    At::Outside => holder.is_none(),
                    At::Blocked { locked } => {
                        (any && (locked || !g.abort || holder.is_none())) || g.th[*i].ready
                    }
                })
                .collect();
            if can.is_empty() {
                None
            } else {
                Some(*r.pick(&can))
            }
        };
        let Some(id) = next else {
            if !core.fire_within(LONG) {
                out = Ended::Stuck;
                s.m.lock().unwrap().abort = true;
            }
            continue;
        };
        core.trace(hash(&[id as u64, 0x7443]), || format!("thread {id}"));
        let mut g = s.m.lock().unwrap();
        g.turn = id;
        s.cv.notify_all();
        while g.turn != MAIN {
            g = s.cv.wait(g).unwrap();
        }
    }
    for h in hs {
        let _ = h.join();
    }
    out
}

/// Drives a future of the Rust API on the simulation's own thread. None when it never ends.
pub fn drive<T>(core: &Arc<Core>, f: impl Future<Output = T>) -> Option<T> {
    struct Flag(std::sync::atomic::AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, std::sync::atomic::Ordering::Relaxed);
        }
    }
    let flag = Arc::new(Flag(false.into()));
    let waker = Waker::from(flag.clone());
    let mut f = std::pin::pin!(f);
    loop {
        core.step();
        flag.0.store(false, std::sync::atomic::Ordering::Relaxed);
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Some(x);
        }
        while !flag.0.load(std::sync::atomic::Ordering::Relaxed) {
            if !core.fire_within(LONG) {
                return None;
            }
        }
    }
}
