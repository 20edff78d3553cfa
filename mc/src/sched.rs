//! A scheduler for the real code: a thread can be suspended at each of its memory allocations, and others run meanwhile.
use std::cell::Cell;

pub const OFF: u64 = u64::MAX;
/// called when the count reaches zero; returns the distance to the next point
type Hook = *mut dyn FnMut() -> u64;

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(OFF) };
    static HOOK: Cell<Option<Hook>> = const { Cell::new(None) };
}

/// Called by the allocator.
#[inline]
pub fn point() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n != OFF {
            if n == 0 {
                l.set(OFF);
                if let Some(h) = HOOK.with(|h| h.get()) {
                    let next = unsafe { (*h)() };
                    l.set(next);
                }
            } else {
                l.set(n - 1);
            }
        }
    });
}

/// How many points f passes.
pub fn points<R>(f: impl FnOnce() -> R) -> (R, u64) {
    LEFT.with(|l| l.set(OFF - 1));
    let r = f();
    let n = LEFT.with(|l| l.replace(OFF));
    (r, OFF - 1 - n)
}

/// Runs f; `hook` is called at its point number `k`, and says how many points later it is called again.
pub fn interrupted<R>(k: u64, hook: &mut dyn FnMut() -> u64, f: impl FnOnce() -> R) -> R {
    // the hook outlives its use: it is taken away below
    let h: Hook = unsafe { std::mem::transmute(hook as *mut dyn FnMut() -> u64) };
    HOOK.with(|c| c.set(Some(h)));
    LEFT.with(|l| l.set(k));
    let r = f();
    LEFT.with(|l| l.set(OFF));
    HOOK.with(|c| c.set(None));
    r
}
