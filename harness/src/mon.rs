//! Monitors: compiler-inserted edge/compare callbacks, allocation accounting, panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- steps
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub const MAX_GUARDS: usize = 1 << 16;
pub static mut HITS: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
pub static NEW_EDGES: AtomicU64 = AtomicU64::new(0);
pub static GUARDS: AtomicUsize = AtomicUsize::new(0);
/// exit status used when a call exceeds its logical step budget
#[allow(dead_code)]
pub const EXIT_STEPS: i32 = 77;
#[allow(dead_code)]
pub const EXIT_MEM: i32 = 78;

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
pub fn new_edges() -> u64 {
    NEW_EDGES.load(Relaxed)
}

const CT: usize = 1 << 14;
/// constants the code under test compared something with (open addressing, lossy)
pub static mut CONSTS: [u64; CT] = [0; CT];

#[inline]
#[allow(dead_code)]
fn note_const(c: u64) {
    if c < 2 {
        return;
    }
    let mut h = (crate::rng::mix(c) as usize) & (CT - 1);
    for _ in 0..8 {
        unsafe {
            let p = std::ptr::addr_of_mut!(CONSTS) as *mut u64;
            let v = *p.add(h);
            if v == c {
                return;
            }
            if v == 0 {
                *p.add(h) = c;
                return;
            }
        }
        h = (h + 1) & (CT - 1);
    }
}

pub fn consts() -> Vec<u64> {
    if cfg!(miri) {
        return Vec::new();
    }
    let mut v: Vec<u64> = unsafe {
        let p = std::ptr::addr_of!(CONSTS) as *const u64;
        (0..CT).map(|i| *p.add(i)).filter(|&c| c != 0).collect()
    };
    v.sort();
    v
}

#[allow(dead_code)]
pub fn edges_hit() -> usize {
    unsafe {
        let p = std::ptr::addr_of!(HITS) as *const u8;
        (0..MAX_GUARDS).filter(|&i| *p.add(i) != 0).count()
    }
}

pub fn edge_list() -> Vec<usize> {
    if cfg!(miri) {
        return Vec::new();
    }
    unsafe {
        let p = std::ptr::addr_of!(HITS) as *const u8;
        (0..MAX_GUARDS).filter(|&i| *p.add(i) != 0).collect()
    }
}

#[cfg(feature = "sancov")]
mod sancov {
    use super::*;
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
        if s == e || *s != 0 {
            return;
        }
        while s < e {
            let g = GUARDS.fetch_add(1, Relaxed) + 1;
            *s = (g as u32).min(MAX_GUARDS as u32 - 1);
            s = s.add(1);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        let n = STEPS.load(Relaxed) + 1;
        STEPS.store(n, Relaxed);
        let p = std::ptr::addr_of_mut!(HITS) as *mut u8;
        let p = p.add(*g as usize);
        if *p == 0 {
            *p = 1;
            NEW_EDGES.store(NEW_EDGES.load(Relaxed) + 1, Relaxed);
        }
        if n > STEP_LIMIT.load(Relaxed) {
            exit_steps();
        }
    }
    #[cold]
    fn exit_steps() -> ! {
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        unsafe { _exit(EXIT_STEPS) }
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_cmp1(_a: u8, _b: u8) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_cmp2(_a: u16, _b: u16) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_cmp4(_a: u32, _b: u32) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_cmp8(_a: u64, _b: u64) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _b: u8) {
        note_const(a as u64);
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _b: u16) {
        note_const(a as u64);
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _b: u32) {
        note_const(a as u64);
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _b: u64) {
        note_const(a);
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, c: *const u64) {
        let n = *c as usize;
        for i in 0..n.min(64) {
            note_const(*c.add(2 + i));
        }
    }
}

// ---------------------------------------------------------------- allocation
pub struct Counting;
pub static CUR: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
#[allow(dead_code)]
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
#[allow(dead_code)]
pub const MEM_LIMIT: i64 = 3 << 29;

#[cfg(not(miri))]
#[global_allocator]
static A: Counting = Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[inline]
#[allow(dead_code)]
fn add(n: i64) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if n > 0 {
        TOTAL.fetch_add(n as u64, Relaxed);
    }
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
        if c > MEM_LIMIT {
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            unsafe { _exit(EXIT_MEM) }
        }
    }
}

pub fn mem_mark() -> i64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
pub fn mem_peak_since(mark: i64) -> i64 {
    PEAK.load(Relaxed) - mark
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Run code of the library, turning a panic into an error with its message.
pub fn guarded<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(format!("panic in {what}: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

// ---------------------------------------------------------------- effects
/// Watches the C library's doors to the outside: while armed, a call through one of them by this thread is noted.
pub mod effects {
    use std::cell::Cell;
    #[allow(unused_imports)]
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

    pub const DOORS: [&str; 22] = [
        "write", "writev", "read", "open", "open64", "openat", "openat64", "getenv", "setenv", "unsetenv", "clock_gettime", "nanosleep", "clock_nanosleep",
        "pthread_create", "fork", "posix_spawnp", "socket", "unlink", "mkdir", "rename", "getcwd", "exit",
    ];
    pub static SEEN: [AtomicU64; 22] = [const { AtomicU64::new(0) }; 22];
    #[allow(dead_code)]
    static REAL: [AtomicUsize; 22] = [const { AtomicUsize::new(0) }; 22];
    thread_local! {
        static ARMED: Cell<bool> = const { Cell::new(false) };
    }

    /// run f; the doors it used
    pub fn watched<R>(f: impl FnOnce() -> R) -> (R, Vec<&'static str>) {
        let before: Vec<u64> = SEEN.iter().map(|s| s.load(Relaxed)).collect();
        ARMED.with(|a| a.set(true));
        let r = f();
        ARMED.with(|a| a.set(false));
        (r, (0..DOORS.len()).filter(|&i| SEEN[i].load(Relaxed) != before[i]).map(|i| DOORS[i]).collect())
    }

    #[cfg(feature = "effects")]
    #[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
    mod doors {
        use super::*;
        type P = *mut u8;
        extern "C" {
            fn dlsym(h: isize, name: *const u8) -> usize;
        }
        fn real(i: usize) -> usize {
            if ARMED.with(|a| a.get()) {
                SEEN[i].fetch_add(1, Relaxed);
            }
            let r = REAL[i].load(Relaxed);
            if r != 0 {
                return r;
            }
            let mut n = [0u8; 24];
            n[..DOORS[i].len()].copy_from_slice(DOORS[i].as_bytes());
            let r = unsafe { dlsym(-1, n.as_ptr()) };
            REAL[i].store(r, Relaxed);
            r
        }
        macro_rules! door {
            ($i:expr, $name:ident, ($($a:ident: $t:ty),*) -> $r:ty) => {
                #[no_mangle]
                pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
                    let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real($i));
                    f($($a),*)
                }
            };
        }
        door!(0, write, (fd: i32, b: P, n: usize) -> isize);
        door!(1, writev, (fd: i32, b: P, n: i32) -> isize);
        door!(2, read, (fd: i32, b: P, n: usize) -> isize);
        door!(3, open, (p: P, f: i32, m: u32) -> i32);
        door!(4, open64, (p: P, f: i32, m: u32) -> i32);
        door!(5, openat, (d: i32, p: P, f: i32, m: u32) -> i32);
        door!(6, openat64, (d: i32, p: P, f: i32, m: u32) -> i32);
        door!(7, getenv, (n: P) -> P);
        door!(8, setenv, (n: P, v: P, o: i32) -> i32);
        door!(9, unsetenv, (n: P) -> i32);
        door!(10, clock_gettime, (c: i32, t: P) -> i32);
        door!(11, nanosleep, (a: P, b: P) -> i32);
        door!(12, clock_nanosleep, (c: i32, f: i32, a: P, b: P) -> i32);
        door!(13, pthread_create, (a: P, b: P, c: P, d: P) -> i32);
        door!(14, fork, () -> i32);
        door!(15, posix_spawnp, (a: P, b: P, c: P, d: P, e: P, f: P) -> i32);
        door!(16, socket, (a: i32, b: i32, c: i32) -> i32);
        door!(17, unlink, (p: P) -> i32);
        door!(18, mkdir, (p: P, m: u32) -> i32);
        door!(19, rename, (a: P, b: P) -> i32);
        door!(20, getcwd, (b: P, n: usize) -> P);
        door!(21, exit, (c: i32) -> ());
    }

    /// whether the doors are watched, tried out
    pub fn self_test() -> Result<u64, String> {
        if !cfg!(feature = "effects") {
            return Err("inconclusive: this flavour does not watch the doors".into());
        }
        let d = std::env::temp_dir();
        let f = d.join(format!("dvmon-selftest-{}", std::process::id()));
        let ((), seen) = watched(|| {
            use std::io::Write;
            let _ = std::env::var("DVMON_SELF_TEST");
            let _ = std::time::Instant::now();
            let _ = std::fs::write(&f, b"x");
            let _ = std::fs::read(&f);
            let _ = std::fs::remove_file(&f);
            let _ = std::io::stderr().write(b" ").map(|_| std::io::stderr().flush());
            let _ = std::thread::spawn(|| ()).join();
            let _ = std::env::current_dir();
            let _ = std::net::UdpSocket::bind("127.0.0.1:0");
            std::thread::sleep(std::time::Duration::from_nanos(1));
        });
        for want in ["write", "read", "getenv", "clock_gettime", "pthread_create", "unlink", "getcwd", "socket"] {
            if !seen.contains(&want) {
                return Err(format!("inconclusive: the monitor does not see {want} being used"));
            }
        }
        Ok(seen.len() as u64)
    }
}
