//! What the program under test may use of the machine: the runtime gives a program a heap of
//! 32 KiB from which nothing is ever handed back, and a bounded number of instructions.
//!
//! The heap is metered by the allocator. Instructions are counted by single-stepping the thread,
//! where asked for (it is slow). Natively compiled code needs fewer instructions than the
//! virtual machine's, so that the count is a lower bound. What syscalls do is not counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// the runtime's heap, and some slack for what is a syscall on chain but not here
pub const HEAP: usize = 32 * 1024 + 8 * 1024;
/// what a transaction may ask for at most, and some slack for deriving addresses, a syscall too
pub const STEPS: u64 = 1_400_000 + 600_000;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
    /// count instructions of the program under test
    pub static COUNT: Cell<bool> = const { Cell::new(false) };
}

pub struct Heap;

fn used(n: usize) {
    if ON.with(|o| o.get()) {
        USED.with(|u| u.set(u.get() + n));
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        used(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        used(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        used(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static HEAP_OF_ALL: Heap = Heap;

#[derive(Clone, Copy, Default)]
pub struct Reading {
    pub heap: usize,
    pub steps: u64,
}

/// A program begins with an empty heap. Returns the state to go back to.
#[inline(never)]
pub fn begin(metered: bool) -> (bool, usize, bool) {
    let s = (ON.with(|o| o.get()), USED.with(|u| u.get()), STEPPING.with(|s| s.get()));
    stop();
    USED.with(|u| u.set(0));
    TAKEN.with(|t| t.set(0));
    ON.with(|o| o.set(metered));
    if metered && COUNT.with(|c| c.get()) {
        STEPPING.with(|s| s.set(true));
        go();
    }
    s
}

#[inline(never)]
pub fn end(back: (bool, usize, bool)) -> Reading {
    stop();
    let r = Reading { heap: USED.with(|u| u.get()), steps: TAKEN.with(|t| t.get()) };
    ON.with(|o| o.set(back.0));
    USED.with(|u| u.set(back.1));
    STEPPING.with(|s| s.set(back.2));
    r
}

/// Not the program's own work while this lives.
pub struct Pause(bool, bool);
#[inline(never)]
pub fn pause() -> Pause {
    stop();
    Pause(ON.with(|o| o.replace(false)), STEPPING.with(|s| s.replace(false)))
}
impl Drop for Pause {
    #[inline(never)]
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
        STEPPING.with(|s| s.set(self.1));
        if self.1 {
            go();
        }
    }
}

#[cfg(target_arch = "x86_64")]
mod step {
    use super::*;
    use std::arch::asm;
    use std::sync::Once;

    const TRAP: i64 = 0x100;

    extern "C" fn stepped(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        let n = TAKEN.with(|t| {
            t.set(t.get() + 1);
            t.get()
        });
        if n > STEPS {
            // far enough
            let c = unsafe { &mut *(ctx as *mut libc::ucontext_t) };
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TRAP;
        }
    }

    #[inline(always)]
    pub fn go() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = stepped as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        });
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }

    #[inline(always)]
    pub fn stop() {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }
}
#[cfg(not(target_arch = "x86_64"))]
mod step {
    pub fn go() {}
    pub fn stop() {}
}
use step::{go, stop};
