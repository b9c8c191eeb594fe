//! Controls the keys of hash containers: std draws them with getrandom once per thread, and this
//! definition takes precedence over libc's.
use std::cell::Cell;
thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x5eed) };
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.try_with(|s| s.get()).unwrap_or(1);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (x >> 56) as u8;
    }
    len as isize
}

/// Runs `f` on a fresh thread whose hash containers get their keys from `seed`.
pub fn with<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|s| s.set(seed));
                ctlrand::control(&[], seed ^ 0x77);
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}
