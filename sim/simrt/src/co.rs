//! Stackful coroutines (x86-64).
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

const STACK: usize = 2 << 20;

core::arch::global_asm!(
    ".global simrt_switch",
    "simrt_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn simrt_switch(save: *mut *mut u8, to: *mut u8);
}

struct Co {
    sp: *mut u8,
    host: *mut u8,
    work: Option<Box<dyn FnOnce()>>,
    panic: Option<Box<dyn Any + Send>>,
    done: bool,
}

thread_local! {
    static POOL: RefCell<Vec<Box<Co>>> = const { RefCell::new(Vec::new()) };
    static CURRENT: Cell<*mut Co> = const { Cell::new(std::ptr::null_mut()) };
}

extern "C" fn entry() -> ! {
    loop {
        let co = CURRENT.with(|c| c.get());
        unsafe {
            let work = (*co).work.take().expect("work");
            if let Err(p) = catch_unwind(AssertUnwindSafe(work)) {
                (*co).panic = Some(p);
            }
            (*co).done = true;
            simrt_switch(&mut (*co).sp, (*co).host);
        }
    }
}

fn fresh() -> Box<Co> {
    unsafe {
        let base = libc::mmap(
            std::ptr::null_mut(),
            STACK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(base != libc::MAP_FAILED);
        libc::mprotect(base, 4096, libc::PROT_NONE);
        let top = (base as usize + STACK) & !15;
        // [r15 r14 r13 r12 rbx rbp ret pad]
        let sp = (top - 64) as *mut u64;
        for i in 0..8 {
            *sp.add(i) = 0;
        }
        *sp.add(6) = entry as *const () as usize as u64;
        Box::new(Co {
            sp: sp as *mut u8,
            host: std::ptr::null_mut(),
            work: None,
            panic: None,
            done: false,
        })
    }
}

pub enum End {
    Done,
    Panicked(Box<dyn Any + Send>),
    Suspended,
}

pub struct Job {
    co: Option<Box<Co>>,
}

impl Job {
    pub fn new(work: Box<dyn FnOnce()>) -> Box<Job> {
        let mut co = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(fresh);
        co.work = Some(work);
        co.done = false;
        Box::new(Job { co: Some(co) })
    }
    pub fn run(&mut self) -> End {
        let co: *mut Co = &mut **self.co.as_mut().unwrap();
        let old = CURRENT.with(|c| c.replace(co));
        unsafe {
            simrt_switch(&mut (*co).host, (*co).sp);
        }
        CURRENT.with(|c| c.set(old));
        let c = self.co.as_mut().unwrap();
        if !c.done {
            return End::Suspended;
        }
        let p = c.panic.take();
        POOL.with(|p| p.borrow_mut().push(self.co.take().unwrap()));
        match p {
            Some(p) => End::Panicked(p),
            None => End::Done,
        }
    }
}

pub fn can_suspend() -> bool {
    !CURRENT.with(|c| c.get()).is_null()
}

/// Leave the current task's poll until it is woken.
pub fn suspend() {
    let co = CURRENT.with(|c| c.get());
    assert!(!co.is_null(), "a blocking call outside a task");
    unsafe { simrt_switch(&mut (*co).sp, (*co).host) }
}

/// Let simulated time pass while blocking the calling thread.
pub fn block_for(d: std::time::Duration) {
    let until = tokio::time::Instant::now() + d;
    let w = crate::current_waker().expect("in a task");
    tokio::spawn(async move {
        tokio::time::sleep_until(until).await;
        w.wake();
    });
    while tokio::time::Instant::now() < until {
        suspend();
    }
}
