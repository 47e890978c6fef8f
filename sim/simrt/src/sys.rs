//! Clock and randomness of the simulated processes. Only active while a run is going on; a run has
//! a process of its own.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
static RAND: AtomicU64 = AtomicU64::new(0);
/// the simulated clocks start here
const BASE: u64 = 1_800_000_000;

pub fn enter(seed: u64) {
    RAND.store(seed, Ordering::SeqCst);
    NOW.store(0, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
}
pub fn leave() {
    ON.store(false, Ordering::SeqCst);
}
pub fn set_now(ms: u64) {
    NOW.store(ms, Ordering::Relaxed);
}

pub const DIE_CODE: i32 = 77;
/// The run cannot go on.
pub fn die(why: &str) -> ! {
    let s = format!("{why}\n");
    unsafe {
        libc::write(2, s.as_ptr() as *const _, s.len());
        libc::_exit(DIE_CODE)
    }
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.load(Ordering::Relaxed)
        && matches!(
            clk,
            libc::CLOCK_MONOTONIC | libc::CLOCK_REALTIME | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_REALTIME_COARSE
        )
    {
        let ms = NOW.load(Ordering::Relaxed);
        (*ts).tv_sec = (BASE + ms / 1000) as libc::time_t;
        (*ts).tv_nsec = ((ms % 1000) * 1_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ON.load(Ordering::Relaxed) {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in b.chunks_mut(8) {
            let x = RAND.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^= z >> 31;
            c.copy_from_slice(&z.to_le_bytes()[..c.len()]);
        }
        return n as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, n, flags) as libc::ssize_t
}

unsafe fn nap(req: *const libc::timespec) -> bool {
    if ON.load(Ordering::Relaxed) && crate::co::can_suspend() {
        let d = std::time::Duration::new((*req).tv_sec as u64, (*req).tv_nsec as u32);
        crate::co::block_for(d);
        return true;
    }
    false
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if nap(req) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if flags == 0 && nap(req) {
        return 0;
    }
    match libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}
