//! The SQL property: the same simulator, with queries through `HudiDataSource` executed by
//! DataFusion on a single-threaded runtime whose idle moments advance the simulated clock.

mod query;
mod sql;

use hsim::core::{Core, Exec, Outcome};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

/// Everything runnable runs, in the executor or in tasks DataFusion spawned; when nothing is,
/// the next event is due.
fn drive(exec: &mut Exec, core: &Arc<Core>) -> Outcome {
    let stuck = Arc::new(AtomicBool::new(false));
    let outer: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
    let rt = {
        let (core, stuck, outer) = (core.clone(), stuck.clone(), outer.clone());
        tokio::runtime::Builder::new_current_thread()
            .on_thread_park(move || {
                if !core.fire_next() {
                    stuck.store(true, Ordering::Relaxed);
                    if let Some(w) = outer.lock().unwrap().as_ref() {
                        w.wake_by_ref();
                    }
                }
            })
            .build()
            .expect("runtime")
    };
    // the executor polls many tasks in one go: tokio's budget per poll would be used up
    let out = rt.block_on(tokio::task::unconstrained(futures::future::poll_fn(|cx| {
        *outer.lock().unwrap() = Some(cx.waker().clone());
        match exec.poll_outer(cx) {
            Poll::Ready(o) => Poll::Ready(o),
            Poll::Pending if stuck.load(Ordering::Relaxed) => Poll::Ready(Outcome::Stuck),
            Poll::Pending => Poll::Pending,
        }
    })));
    exec.abandon();
    drop(rt);
    out
}

fn main() {
    hsim::run::set_hooks(hsim::run::Hooks {
        drive,
        sql: Some(sql::run),
        py: None,
    });
    hsim::driver::main(hsim::run::isolated)
}
