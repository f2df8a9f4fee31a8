//! Reports a case that hangs or kills the process.
//!
//! A panic is caught by the engine; a stack overflow, an allocation failure
//! (the driver limits address space) or an abort arrives here as SIGABRT, and a
//! case that takes longer than a minute is found by a watchdog. Both write the
//! case to the crash file and end the process, with status 77 or 78.

use std::{
    cell::Cell,
    sync::atomic::{AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst},
    time::{Duration, Instant},
};

const SLOTS: usize = 64;
const HANG_SECS: u64 = 60;

struct Slot {
    facet: AtomicPtr<u8>,
    facet_len: AtomicUsize,
    case: AtomicU64,
    /// Seconds + 1 since start of the process, 0: idle.
    since: AtomicU64,
}

static TABLE: [Slot; SLOTS] = [const {
    Slot {
        facet: AtomicPtr::new(std::ptr::null_mut()),
        facet_len: AtomicUsize::new(0),
        case: AtomicU64::new(0),
        since: AtomicU64::new(0),
    }
}; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static FD: AtomicI32 = AtomicI32::new(-1);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs() + 1
}

pub fn thread() {
    let n = NEXT.fetch_add(1, SeqCst) + 1;
    SLOT.with(|s| s.set(n % SLOTS));
}

pub fn case(facet: &'static str, i: u64) {
    let s = &TABLE[SLOT.with(|s| s.get())];
    s.facet.store(facet.as_ptr() as *mut u8, SeqCst);
    s.facet_len.store(facet.len(), SeqCst);
    s.case.store(i, SeqCst);
}

pub fn enter() {
    TABLE[SLOT.with(|s| s.get())].since.store(now(), SeqCst);
}

pub fn leave() {
    TABLE[SLOT.with(|s| s.get())].since.store(0, SeqCst);
}

/// Only async-signal-safe calls.
fn report(slot: usize, what: &[u8]) {
    let s = &TABLE[slot];
    let fd = FD.load(SeqCst);
    let put = |b: &[u8]| unsafe {
        libc::write(fd, b.as_ptr().cast(), b.len());
    };
    put(what);
    put(b"\n");
    let mut n = s.case.load(SeqCst);
    let mut buf = [0u8; 20];
    let mut k = 20;
    loop {
        k -= 1;
        buf[k] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    put(&buf[k..]);
    put(b"\n");
    let p = s.facet.load(SeqCst);
    if !p.is_null() {
        put(unsafe { std::slice::from_raw_parts(p, s.facet_len.load(SeqCst)) });
    }
    put(b"\n");
}

extern "C" fn on_abort(_: i32) {
    report(SLOT.with(|s| s.get()), b"process aborted (stack overflow, allocation failure or abort)");
    unsafe { libc::_exit(77) }
}

pub fn install(crash_file: &str) {
    use std::os::fd::IntoRawFd;
    if let Ok(f) = std::fs::File::create(crash_file) {
        FD.store(f.into_raw_fd(), SeqCst);
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as extern "C" fn(i32) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
    }
    now();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        for (i, s) in TABLE.iter().enumerate() {
            let t = s.since.load(SeqCst);
            if t != 0 && now() > t + HANG_SECS {
                report(i, b"case does not end (over 60 seconds)");
                unsafe { libc::_exit(78) }
            }
        }
    });
}
