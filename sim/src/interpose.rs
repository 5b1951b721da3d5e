//! Operating-system nondeterminism replaced at link time. `getrandom` feeds std's and ahash's hash
//! keys, hence map iteration order; here it is a per-thread stream seeded by the simulation.

use crate::rng::Rng;
use std::cell::RefCell;

thread_local! {
    static ENTROPY: RefCell<Rng> = RefCell::new(Rng::new(0));
}

/// Seed the calling thread's entropy. Threads that never call this see one fixed stream.
pub fn seed_entropy(seed: u64) {
    ENTROPY.with(|e| *e.borrow_mut() = Rng::new(seed));
}

fn fill(buf: *mut u8, len: usize) {
    let _ = ENTROPY.try_with(|e| {
        if let Ok(mut r) = e.try_borrow_mut() {
            for i in 0..len {
                unsafe { *buf.add(i) = (r.next() >> 24) as u8 };
            }
        }
    });
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    fill(buf as *mut u8, len);
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> i32 {
    fill(buf as *mut u8, len);
    0
}
