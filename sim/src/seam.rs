//! The operating system's clock and random source as seen by the library. The client uses neither (its random
//! numbers come through the `getrandom` crate); should it begin to, the simulator decides here too, so that a
//! seed remains one exactly repeatable execution. Outside of library code the real ones answer.

extern "C" {
    fn syscall(n: i64, a: i64, b: i64, c: i64) -> i64;
}

static mut NOW_MS: u64 = 0;
static mut MIX: u64 = 0;

/// Simulated time of the object that is running.
pub fn set_now(ms: u64) {
    unsafe { NOW_MS = ms }
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if crate::runner::in_library() {
        // 2031-01-01, and the time that has passed in the simulation
        *ts = [1_924_992_000 + (NOW_MS / 1000) as i64, (NOW_MS % 1000 * 1_000_000) as i64];
        return 0;
    }
    syscall(228, clk as i64, ts as i64, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut u8) -> i32 {
    if crate::runner::in_library() {
        *tv = [1_924_992_000 + (NOW_MS / 1000) as i64, (NOW_MS % 1000 * 1000) as i64];
        return 0;
    }
    syscall(96, tv as i64, tz as i64, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0; 2];
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts[0];
    }
    ts[0]
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if crate::runner::in_library() {
        for i in 0..len {
            MIX = (MIX ^ i as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ MIX >> 29;
            *buf.add(i) = (MIX >> 56) as u8;
        }
        return len as isize;
    }
    syscall(318, buf as i64, len as i64, flags as i64) as isize
}
