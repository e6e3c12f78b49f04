//! Control over the seeds of hash maps: the standard library draws them, once per thread, from `getrandom`, which
//! this executable provides. A thread started with a seed gets that one; all others get real random bytes.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// # Safety
/// Called by libc users with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match SEED.try_with(|s| s.get()).ok().flatten() {
        None => syscall(318, buf, len, flags) as isize,
        Some(s) => {
            // splitmix64
            let mut x = s.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            for i in 0..len {
                if i % 8 == 0 {
                    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                }
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^= z >> 31;
                *buf.add(i) = (z >> (8 * (i % 8))) as u8;
            }
            len as isize
        }
    }
}

/// Runs `f` in a thread of its own whose hash maps are seeded from `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        s.spawn(move || {
            SEED.with(|x| x.set(Some(seed)));
            crate::engine::guarded(f)
        })
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
    })
}

/// Whether seeds really determine the order of hash maps in this build.
pub fn effective() -> bool {
    let order = |s: u64| {
        seeded(s, || {
            let m: std::collections::HashMap<u32, ()> = (0..12).map(|i| (i, ())).collect();
            m.into_keys().collect::<Vec<_>>()
        })
        .unwrap()
    };
    (0..4).all(|s| order(s) == order(s)) && (1..8).any(|s| order(s) != order(0))
}
