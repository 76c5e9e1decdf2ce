//! Process-level runtime of the harness: sanitizer-coverage callbacks of the instrumented crate
//! under test, a counting allocator, and a settable system clock. All workers are single-threaded
//! processes, so plain statics are used.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};

pub const EXIT_EDGES: i32 = 77;
pub const EXIT_ALLOC: i32 = 78;

// ---- coverage ---------------------------------------------------------------------------------
pub const MAXG: usize = 1 << 16;
pub static mut NGUARDS: usize = 0;
pub static mut MAP: [u8; MAXG] = [0; MAXG];
pub static mut EDGES: u64 = 0;
pub static mut EDGE_LIMIT: u64 = u64::MAX;
/// Comparison operands seen in this case: (constant, value)
pub const NCMP: usize = 512;
pub static mut CMPS: [(u64, u64); NCMP] = [(0, 0); NCMP];
pub static mut NCMPS: usize = 0;
pub static mut CMPLOG: bool = false;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let n = b.offset_from(a) as usize;
    for i in 0..n {
        let p = a.add(i);
        if *p == 0 && NGUARDS + 1 < MAXG {
            NGUARDS += 1;
            *p = NGUARDS as u32;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    EDGES += 1;
    if EDGES > EDGE_LIMIT {
        libc::_exit(EXIT_EDGES);
    }
    let i = *g as usize;
    let m = MAP.get_unchecked_mut(i & (MAXG - 1));
    *m = m.saturating_add(1);
}

#[inline(always)]
unsafe fn cmp(a: u64, b: u64) {
    if CMPLOG && NCMPS < NCMP && a != b {
        CMPS[NCMPS] = (a, b);
        NCMPS += 1;
    }
}
macro_rules! cmps { ($($n:ident $t:ty),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(a:$t,b:$t){ cmp(a as u64,b as u64) } )* } }
cmps!(__sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
__sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, c: *const u64) {
    if CMPLOG {
        let n = *c as usize;
        // a bounded sample of the cases, so that a big table does not fill the log
        let step = 1 + n / 16;
        let mut i = (EDGES as usize) % step;
        while i < n {
            cmp(*c.add(2 + i), v);
            i += step;
        }
    }
}

// ---- allocator --------------------------------------------------------------------------------
pub struct Counting;
pub static mut LIVE: i64 = 0;
pub static mut TOTAL: u64 = 0;
pub static mut TOTAL_LIMIT: u64 = u64::MAX;
pub static mut LIVE_PEAK: i64 = 0;

#[inline(always)]
unsafe fn count(n: usize) {
    LIVE += n as i64;
    TOTAL += n as u64;
    if LIVE > LIVE_PEAK {
        LIVE_PEAK = LIVE;
    }
    if TOTAL > TOTAL_LIMIT {
        libc::_exit(EXIT_ALLOC);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as i64;
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE -= l.size() as i64;
        count(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn live() -> i64 {
    unsafe { LIVE }
}

// ---- clock ------------------------------------------------------------------------------------
/// (seconds, nanoseconds) reported as CLOCK_REALTIME while the flag is set
pub static mut CLOCK: Option<(i64, i64)> = None;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some((s, n)) = CLOCK {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    if r == 0 && id != libc::CLOCK_REALTIME {
        (*ts).tv_sec += MONO;
    }
    r
}
/// Seconds added to the other clocks (the monotonic one above all) within a case.
pub static mut MONO: i64 = 0;
/// Time passes for the code under test.
pub fn pass(s: i64) {
    unsafe {
        if let Some(c) = CLOCK.as_mut() {
            c.0 += s;
        }
        MONO += s;
    }
}
/// The real monotonic clock.
pub fn real_s() -> i64 {
    unsafe {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut libc::timespec);
        ts.tv_sec
    }
}

// ---- budgets of one parser call -----------------------------------------------------------------
pub struct Work {
    pub edges: u64,
    pub alloc: u64,
    pub peak: i64,
}

/// Hard limits for one call of the parser: far above anything proportional to the input.
pub fn guarded<T>(len: usize, f: impl FnOnce() -> T) -> (T, Work) {
    unsafe {
        let e0 = EDGES;
        let t0 = TOTAL;
        let l0 = LIVE;
        EDGE_LIMIT = EDGES + 20_000_000 + 10_000 * len as u64;
        TOTAL_LIMIT = TOTAL + (1 << 30) + 100_000 * len as u64;
        LIVE_PEAK = LIVE;
        let r = f();
        EDGE_LIMIT = u64::MAX;
        TOTAL_LIMIT = u64::MAX;
        (r, Work { edges: EDGES - e0, alloc: TOTAL - t0, peak: LIVE_PEAK - l0 })
    }
}

// ---- hash keys ----------------------------------------------------------------------------------
/// The standard library asks the system for the keys of its hash tables once per thread; here they
/// follow from the seed (each table still gets its own), so that a run is repeatable.
pub static mut HASH_SEED: u64 = 1;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let p = buf as *mut u8;
    for i in 0..len {
        HASH_SEED = HASH_SEED.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (HASH_SEED >> 56) as u8;
    }
    len as libc::ssize_t
}

// ---- logging ------------------------------------------------------------------------------------
/// Users install loggers: the arguments of the crate's log calls are only evaluated then. Every
/// record is formatted and thrown away.
struct Sink;
static SINK: Sink = Sink;
struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::write(&mut Null, *r.args());
    }
    fn flush(&self) {}
}
pub fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
pub fn install_logger() {
    let _ = log::set_logger(&SINK);
    logging(true);
}
