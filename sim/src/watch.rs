//! Looks at the simulated thread from outside: a thread that is blocked, or computes for very long
//! without reaching a scheduling point, will never be seen by the simulated clock.

use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static TID: AtomicI64 = AtomicI64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

pub const BLOCKED_SECS: u64 = 6;
pub const SPIN_SECS: u64 = 60;
/// Exit code of a process whose simulated thread hangs.
pub const HUNG: i32 = 42;

pub fn enter() {
    TID.store(unsafe { libc::syscall(libc::SYS_gettid) }, Ordering::SeqCst);
}
pub fn leave() {
    TID.store(0, Ordering::SeqCst);
}
pub fn set_last_panic(m: &str) {
    if let Ok(mut p) = PANIC.lock() {
        *p = m.to_string();
    }
}
pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}

/// (state, cpu ticks) of a thread of this process.
fn stat(tid: i64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((
        f[0].chars().next()?,
        f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?,
    ))
}

/// CPU time of the whole process, in ticks, and whether any thread is running.
fn busy() -> (u64, bool) {
    let mut sum = 0;
    let mut run = false;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Some((s, c)) = e
                .file_name()
                .to_str()
                .and_then(|t| t.parse().ok())
                .and_then(stat)
            {
                // this watchdog itself is always running here
                if e.file_name().to_str()
                    != Some(&unsafe { libc::syscall(libc::SYS_gettid) }.to_string())
                {
                    sum += c;
                    run |= s == 'R' || s == 'D';
                }
            }
        }
    }
    (sum, run)
}

pub fn start(on_hang: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen = (0i64, 0u64);
        let mut since = Instant::now();
        let mut cpu = 0u64;
        let mut idle_since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(300));
            let tid = TID.load(Ordering::SeqCst);
            let now = (tid, crate::core::HEARTBEAT.load(Ordering::Relaxed));
            let (c, running) = busy();
            if tid == 0 || now != seen {
                seen = now;
                since = Instant::now();
                idle_since = since;
                cpu = c;
                continue;
            }
            if c != cpu || running {
                cpu = c;
                idle_since = Instant::now();
            }
            if idle_since.elapsed() > Duration::from_secs(BLOCKED_SECS) {
                on_hang("the executing thread is blocked");
                std::process::exit(HUNG);
            }
            if since.elapsed() > Duration::from_secs(SPIN_SECS) {
                on_hang("the executing thread computes without end");
                std::process::exit(HUNG);
            }
        }
    });
}
