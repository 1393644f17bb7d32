//! The few libc calls the monitors need, declared by hand (no extra crate).
#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    fn setrlimit(res: i32, r: *const Rlimit) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    pub fn _exit(c: i32) -> !;
    pub fn dup2(a: i32, b: i32) -> i32;
}
/// CPU seconds used by this process.
pub fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
/// CPU seconds used by this thread.
pub fn thread_cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
pub fn limit_as(bytes: u64) {
    // the sanitizer's shadow is larger than any limit
    if cfg!(mon_asan) {
        return;
    }
    unsafe { setrlimit(9, &Rlimit { cur: bytes, max: bytes }) };
}
pub fn limit_cpu(secs: u64) {
    unsafe { setrlimit(0, &Rlimit { cur: secs, max: secs }) };
}
/// Files may not grow past `bytes`; writes beyond fail with EFBIG.
pub fn limit_fsize(bytes: u64) {
    unsafe {
        signal(25, 1); // SIGXFSZ ignored
        setrlimit(1, &Rlimit { cur: bytes, max: bytes });
    }
}

/// Lookups of environment variables, watched and answered: this definition
/// takes the place of the C library's.
#[cfg(not(any(miri, mon_asan)))]
mod env {
    use super::*;
    extern "C" {
        static environ: *const *const u8;
    }
    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        let len = |p: *const u8| (0..).find(|i| unsafe { *p.add(*i) } == 0).unwrap();
        let name = unsafe { std::slice::from_raw_parts(name, len(name)) };
        if WATCHING.load(Ordering::SeqCst) {
            let mut w = WATCH.lock().unwrap_or_else(|e| e.into_inner());
            if !w.seen.iter().any(|s| s == name) {
                w.seen.push(name.to_vec());
            }
            if let Some((n, v)) = &w.answer {
                if n == name {
                    // the text lives until the next answer is set
                    return v.as_ptr();
                }
            }
        }
        let mut e = unsafe { environ };
        while !e.is_null() && !unsafe { *e }.is_null() {
            let s = unsafe { *e };
            let t = unsafe { std::slice::from_raw_parts(s, len(s)) };
            if t.len() > name.len() && t.starts_with(name) && t[name.len()] == b'=' {
                return unsafe { s.add(name.len() + 1) };
            }
            e = unsafe { e.add(1) };
        }
        std::ptr::null()
    }
}
use std::sync::atomic::{AtomicBool, Ordering};
struct Watch {
    seen: Vec<Vec<u8>>,
    answer: Option<(Vec<u8>, Vec<u8>)>,
}
static WATCHING: AtomicBool = AtomicBool::new(false);
static WATCH: std::sync::Mutex<Watch> = std::sync::Mutex::new(Watch { seen: vec![], answer: None });
/// Run `f`, with one environment variable set to a value of our choice; the
/// names of all that were looked up meanwhile. One thread at a time.
pub fn watch_env<A>(answer: Option<(&str, &str)>, f: impl FnOnce() -> A) -> (A, Vec<String>) {
    {
        let mut w = WATCH.lock().unwrap_or_else(|e| e.into_inner());
        w.seen.clear();
        w.answer = answer.map(|(n, v)| (n.as_bytes().to_vec(), [v.as_bytes(), b"\0"].concat()));
    }
    WATCHING.store(true, Ordering::SeqCst);
    let a = f();
    WATCHING.store(false, Ordering::SeqCst);
    let seen = WATCH.lock().unwrap_or_else(|e| e.into_inner()).seen.clone();
    (a, seen.into_iter().map(|s| String::from_utf8_lossy(&s).into_owned()).collect())
}
