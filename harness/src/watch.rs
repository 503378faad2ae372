//! Watchdog on the processor time of a single case, and a handler for fatal
//! signals that says which case was running. Processor time, not wall time:
//! a loaded machine does not set it off.

use crate::core::{CUR_IDX, CUR_STAGE, MAX_WORKERS, WORKER};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

/// Nanoseconds of processor time one case may take. Cases take milliseconds,
/// the largest a few seconds.
pub static LIMIT_NS: AtomicI64 = AtomicI64::new(90_000_000_000);

static CLOCK: [AtomicI64; MAX_WORKERS] = [const { AtomicI64::new(i64::MIN) }; MAX_WORKERS];
static BEGAN: [AtomicI64; MAX_WORKERS] = [const { AtomicI64::new(-1) }; MAX_WORKERS];
static TID: [AtomicI64; MAX_WORKERS] = [const { AtomicI64::new(0) }; MAX_WORKERS];
static CASE: [AtomicU64; MAX_WORKERS] = [const { AtomicU64::new(0) }; MAX_WORKERS];

#[cfg(all(target_os = "linux", not(miri)))]
mod sys {
    #[repr(C)]
    pub struct Timespec {
        pub sec: i64,
        pub nsec: i64,
    }
    #[repr(C)]
    pub struct Rlimit {
        pub cur: u64,
        pub max: u64,
    }
    extern "C" {
        pub fn pthread_self() -> usize;
        pub fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
        pub fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32;
        pub fn signal(sig: i32, handler: usize) -> usize;
        pub fn _exit(code: i32) -> !;
        pub fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
        pub fn gettid() -> i32;
        pub fn setrlimit(res: i32, r: *const Rlimit) -> i32;
    }
    pub fn now(clock: i32) -> i64 {
        let mut ts = Timespec { sec: 0, nsec: 0 };
        if unsafe { clock_gettime(clock, &mut ts) } != 0 {
            return -1;
        }
        ts.sec * 1_000_000_000 + ts.nsec
    }
}

#[cfg(all(target_os = "linux", not(miri)))]
pub fn register(w: usize) {
    let mut c = 0i32;
    unsafe {
        TID[w].store(sys::gettid() as i64, Ordering::Relaxed);
        if sys::pthread_getcpuclockid(sys::pthread_self(), &mut c) == 0 {
            CLOCK[w].store(c as i64, Ordering::Relaxed);
        }
    }
}

#[cfg(all(target_os = "linux", not(miri)))]
pub fn begin(w: usize) {
    // CLOCK_THREAD_CPUTIME_ID
    BEGAN[w].store(sys::now(3), Ordering::Relaxed);
    CASE[w].fetch_add(1, Ordering::Relaxed);
}

/// Processor time of the calling thread.
#[cfg(all(target_os = "linux", not(miri)))]
pub fn thread_ns() -> i64 {
    sys::now(3)
}

#[cfg(not(all(target_os = "linux", not(miri))))]
pub fn thread_ns() -> i64 {
    0
}

#[cfg(not(all(target_os = "linux", not(miri))))]
pub fn register(_: usize) {}
#[cfg(not(all(target_os = "linux", not(miri))))]
pub fn begin(_: usize) {}

pub fn end(w: usize) {
    BEGAN[w].store(-1, Ordering::Relaxed);
}

#[cfg(all(target_os = "linux", not(miri)))]
fn say(prefix: &str, w: usize, names: &[&'static str]) {
    let si = CUR_STAGE[w].load(Ordering::Relaxed) as usize;
    let idx = CUR_IDX[w].load(Ordering::Relaxed);
    let name = names.get(si).copied().unwrap_or("?");
    let mut buf = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for &b in s {
            if n < buf.len() {
                buf[n] = b;
                n += 1;
            }
        }
    };
    put(prefix.as_bytes());
    put(b" stage=");
    put(name.as_bytes());
    put(b" idx=");
    let mut digits = [0u8; 20];
    let mut d = 0;
    let mut v = idx;
    loop {
        digits[d] = b'0' + (v % 10) as u8;
        d += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    for i in (0..d).rev() {
        put(&digits[i..i + 1]);
    }
    put(b"\n");
    unsafe {
        sys::write(1, buf.as_ptr() as *const std::ffi::c_void, n);
    }
}

static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();

#[cfg(all(target_os = "linux", not(miri)))]
extern "C" fn on_signal(sig: i32) {
    let w = WORKER.try_with(|c| c.get()).unwrap_or(usize::MAX);
    let names: &[&'static str] = NAMES.get().map(|v| &v[..]).unwrap_or(&[]);
    let p = match sig {
        11 => "CRASH SIGSEGV",
        7 => "CRASH SIGBUS",
        4 => "CRASH SIGILL",
        8 => "CRASH SIGFPE",
        _ => "CRASH SIGABRT",
    };
    say(p, if w < MAX_WORKERS { w } else { 0 }, names);
    unsafe { sys::_exit(86) }
}

#[cfg(feature = "san")]
#[cfg(all(target_os = "linux", not(miri)))]
extern "C" fn on_death() {
    let w = WORKER.try_with(|c| c.get()).unwrap_or(usize::MAX);
    let names: &[&'static str] = NAMES.get().map(|v| &v[..]).unwrap_or(&[]);
    say("CRASH sanitizer", if w < MAX_WORKERS { w } else { 0 }, names);
}

#[cfg(feature = "san")]
#[cfg(all(target_os = "linux", not(miri)))]
extern "C" {
    fn __sanitizer_set_death_callback(f: extern "C" fn());
}

/// Half seconds a case may be asleep. Cases wait for other threads and for
/// child processes, each of which takes well below a second.
#[cfg(all(target_os = "linux", not(miri)))]
const IDLE_SAMPLES: u32 = 150;

#[cfg(all(target_os = "linux", not(miri)))]
fn asleep(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(") ").next().map_or(false, |r| r.starts_with('S')),
        Err(_) => false,
    }
}

#[cfg(all(target_os = "linux", not(miri)))]
pub fn start(names: Vec<&'static str>, limit_memory: bool) {
    let _ = NAMES.set(names);
    unsafe {
        #[cfg(feature = "san")]
        __sanitizer_set_death_callback(on_death);
        for s in [6, 4, 8] {
            sys::signal(s, on_signal as *const () as usize);
        }
        if !cfg!(feature = "san") {
            for s in [11, 7] {
                sys::signal(s, on_signal as *const () as usize);
            }
        }
        if limit_memory && !cfg!(feature = "san") {
            let r = sys::Rlimit { cur: 12 << 30, max: 12 << 30 };
            sys::setrlimit(9, &r);
        }
    }
    let mut idle = [(0u64, 0i64, 0u32); MAX_WORKERS];
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for w in 0..MAX_WORKERS {
            let b = BEGAN[w].load(Ordering::Relaxed);
            let c = CLOCK[w].load(Ordering::Relaxed);
            if b < 0 || c == i64::MIN {
                continue;
            }
            let case = CASE[w].load(Ordering::Relaxed);
            let now = sys::now(c as i32);
            // Asleep without interruption in the same case: a deadlock. What
            // counts is what the samples see, not the time that passes.
            if idle[w].0 != case || idle[w].1 != now || !asleep(TID[w].load(Ordering::Relaxed)) {
                idle[w] = (case, now, 0);
            } else {
                idle[w].2 += 1;
                if idle[w].2 > IDLE_SAMPLES && CASE[w].load(Ordering::Relaxed) == case && BEGAN[w].load(Ordering::Relaxed) == b {
                    let names: &[&'static str] = NAMES.get().map(|v| &v[..]).unwrap_or(&[]);
                    say("BLOCKED", w, names);
                    unsafe { sys::_exit(88) }
                }
            }
            if now > 0
                && now - b > LIMIT_NS.load(Ordering::Relaxed)
                && CASE[w].load(Ordering::Relaxed) == case
                && BEGAN[w].load(Ordering::Relaxed) == b
            {
                let names: &[&'static str] = NAMES.get().map(|v| &v[..]).unwrap_or(&[]);
                say("HANG", w, names);
                unsafe { sys::_exit(87) }
            }
        }
    });
}

#[cfg(not(all(target_os = "linux", not(miri))))]
pub fn start(names: Vec<&'static str>, _: bool) {
    let _ = NAMES.set(names);
    let _ = (&LIMIT_NS, &CLOCK, &CASE);
}
