//! FFI to the simulation runtime (`rt/rt.c`), and the heap seam.
use std::alloc::{GlobalAlloc, Layout};

pub const NPOINT: usize = 9;
pub const NFAULT: usize = 24;
pub const MAXPCT: usize = 8;
pub const P_ATOMIC: usize = 0;
pub const P_RMW: usize = 1;
pub const P_ALLOC: usize = 2;
pub const P_FUTEX: usize = 3;
pub const P_SPAWN: usize = 6;
pub const P_USER: usize = 7;
pub const P_IO: usize = 8;
pub const POINT_NAMES: [&str; NPOINT] = ["atomic", "rmw", "alloc", "futex", "block", "yield", "spawn", "user", "io"];

pub const SERIAL: i32 = 0;
pub const RANDOM: i32 = 1;
pub const PCT: i32 = 2;

pub const DEADLOCK: i32 = 1;

pub const F_SPURIOUS: usize = 0;
pub const F_WAKE_ORDER: usize = 1;
pub const F_STALL: usize = 2;
pub const F_CLOCK_REAL: usize = 4;
pub const F_CLOCK_MONO: usize = 5;
pub const F_OPEN: usize = 6;
pub const F_READ_ERR: usize = 7;
pub const F_READ_SHORT: usize = 8;
pub const F_READ_EINTR: usize = 9;
pub const F_WRITE_ERR: usize = 10;
pub const F_WRITE_SHORT: usize = 11;
pub const F_WRITE_EINTR: usize = 12;
pub const F_ENOSPC: usize = 13;
pub const F_CLOSE: usize = 14;
pub const F_FSYNC: usize = 15;
pub const F_RENAME: usize = 16;
pub const F_CORRUPT: usize = 17;
pub const F_CRASH: usize = 18;
pub const F_CB_ERR: usize = 19;
pub const F_CB_PANIC: usize = 20;
pub const F_USER1: usize = 21;
pub const F_USER2: usize = 22;
pub const F_USER3: usize = 23;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "spurious_futex_wakeup", "unfair_wake_order", "stalled_thread", "random_bytes_requested", "realtime_clock_jump",
    "monotonic_clock_leap", "open_error", "read_io_error", "short_read", "read_eintr", "write_io_error", "short_write",
    "write_eintr", "disk_full", "close_error", "fsync_error", "rename_error", "corrupt_stored_bytes", "process_crash",
    "callback_error", "callback_panic", "client_gap", "clock_advance_between_ops", "other",
];

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Rec {
    pub at: u64,
    pub kind: u32,
    #[serde(skip)]
    pub pad: u32,
    pub val: u64,
}

#[repr(C)]
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Config {
    pub seed: u64,
    pub max_steps: u64,
    pub tick_ns: u64,
    pub mono0: u64,
    pub real0: u64,
    pub mono_granularity: u64,
    pub real_granularity: u64,
    pub disk_capacity: u64,
    pub replay: i32,
    pub strategy: i32,
    pub pct_d: i32,
    pub p_stall: i32,
    pub pct_at: [u64; MAXPCT],
    pub p_switch: [u32; NPOINT],
    pub p_fault: [u32; NFAULT],
}

#[repr(C)]
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempt: u64,
    pub futex_waits: u64,
    pub clock_reads: u64,
    pub sim_ns: u64,
    pub fault_queries: u64,
    pub nthreads: u64,
    pub rec_overflow: u64,
    pub io_calls: u64,
    pub points: [u64; NPOINT],
    pub fired: [u64; NFAULT],
}

mod ffi {
    use super::*;
    extern "C" {
        pub fn rt_begin(c: *const Config, s: *const Rec, ns: u64, f: *const Rec, nf: u64);
        pub fn rt_snapshot();
        pub fn rt_enter();
        pub fn rt_leave();
        pub fn rt_point(kind: i32);
        pub fn rt_yield();
        pub fn rt_fault(kind: i32, n: u64) -> u64;
        pub fn rt_calm(c: i32);
        pub fn rt_self() -> i32;
        pub fn rt_steps() -> u64;
        pub fn rt_mono() -> u64;
        pub fn rt_real() -> u64;
        pub fn rt_advance(ns: u64);
        pub fn rt_set_real(ns: u64);
        pub fn rt_wait_clients() -> i32;
        pub fn rt_heap_limit(n: usize);
        pub fn rt_alloc(n: usize, a: usize) -> *mut u8;
        pub fn rt_dealloc(p: *mut u8, n: usize, a: usize);
        pub fn rt_thread_state(i: i32, addr: *mut u64) -> i32;
        pub fn rt_fs_reset();
        pub fn rt_fs_alias(p: *const i8);
        pub fn rt_fs_close_all();
        pub fn rt_fs_put(p: *const i8, b: *const u8, n: usize) -> i32;
        pub fn rt_fs_mkdir(p: *const i8) -> i32;
        pub fn rt_fs_get(p: *const i8, b: *mut u8, n: usize) -> i64;
        pub fn rt_fs_unlink(p: *const i8) -> i32;
        pub fn rt_fs_list(i: i32, out: *mut i8) -> i32;
        pub fn rt_fs_open_count() -> i32;
        pub fn rt_fs_capacity(c: u64);
        pub static mut rt_st: Stats;
        pub static mut rt_sched_rec: [Rec; 65536];
        pub static mut rt_nsched: u64;
        pub static mut rt_fault_rec: [Rec; 65536];
        pub static mut rt_nfault: u64;
        pub static mut rt_hash_state: u64;
    }
}

/// Heap seam: reproducible addresses, and a preemption point at every allocation.
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ffi::rt_point(P_ALLOC as i32);
        ffi::rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ffi::rt_dealloc(p, l.size(), l.align())
    }
}

/// From here on this process may take `n` bytes more.
pub fn heap_limit(n: usize) {
    unsafe { ffi::rt_heap_limit(n) }
}
/// While held, nothing this thread does is a preemption point or reaches a simulated seam.
pub struct Quiet(());
impl Quiet {
    pub fn new() -> Quiet {
        unsafe { ffi::rt_enter() };
        Quiet(())
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { ffi::rt_leave() };
    }
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::new();
    f()
}
pub fn begin(c: &Config, s: &[Rec], f: &[Rec]) {
    unsafe { ffi::rt_begin(c, s.as_ptr(), s.len() as u64, f.as_ptr(), f.len() as u64) }
}
pub fn stats() -> Stats {
    unsafe {
        ffi::rt_snapshot();
        #[allow(static_mut_refs)]
        ffi::rt_st.clone()
    }
}
#[allow(static_mut_refs)]
pub fn trace() -> (Vec<Rec>, Vec<Rec>, u64) {
    unsafe {
        (
            ffi::rt_sched_rec[..ffi::rt_nsched as usize].to_vec(),
            ffi::rt_fault_rec[..ffi::rt_nfault as usize].to_vec(),
            ffi::rt_hash_state,
        )
    }
}
pub fn point() {
    unsafe { ffi::rt_point(P_USER as i32) }
}
pub fn yield_now() {
    unsafe { ffi::rt_yield() }
}
pub fn fault(kind: usize, n: u64) -> u64 {
    unsafe { ffi::rt_fault(kind as i32, n) }
}
/// No more faults from now on.
pub fn calm() {
    unsafe { ffi::rt_calm(1) }
}
pub fn self_id() -> i32 {
    unsafe { ffi::rt_self() }
}
pub fn steps() -> u64 {
    unsafe { ffi::rt_steps() }
}
pub fn mono() -> u64 {
    unsafe { ffi::rt_mono() }
}
pub fn real() -> u64 {
    unsafe { ffi::rt_real() }
}
pub fn advance(ns: u64) {
    unsafe { ffi::rt_advance(ns) }
}
pub fn set_real(ns: u64) {
    unsafe { ffi::rt_set_real(ns) }
}
pub fn wait_clients() -> bool {
    unsafe { ffi::rt_wait_clients() != 0 }
}
pub fn thread_state(i: i32) -> (i32, u64) {
    let mut a = 0;
    let s = unsafe { ffi::rt_thread_state(i, &mut a) };
    (s, a)
}

/// Faults so far that may legitimately make an I/O call fail.
#[allow(static_mut_refs)]
pub fn io_failures() -> u64 {
    unsafe { [F_OPEN, F_READ_ERR, F_WRITE_ERR, F_ENOSPC, F_FSYNC, F_RENAME].iter().map(|k| ffi::rt_st.fired[*k]).sum() }
}

pub mod fs {
    use super::ffi;
    use std::ffi::CString;
    fn c(p: &str) -> CString {
        CString::new(p).unwrap()
    }
    /// Serve the files under this real directory from the simulated disk from now on.
    pub fn alias(p: &str) {
        unsafe { ffi::rt_fs_alias(c(p).as_ptr() as *const i8) }
    }
    pub fn reset() {
        unsafe { ffi::rt_fs_reset() }
    }
    pub fn close_all() {
        unsafe { ffi::rt_fs_close_all() }
    }
    pub fn put(p: &str, b: &[u8]) {
        super::quiet(|| unsafe { ffi::rt_fs_put(c(p).as_ptr() as *const i8, b.as_ptr(), b.len()) });
    }
    pub fn mkdir(p: &str) {
        super::quiet(|| unsafe { ffi::rt_fs_mkdir(c(p).as_ptr() as *const i8) });
    }
    pub fn get(p: &str) -> Option<Vec<u8>> {
        super::quiet(|| unsafe {
            let p = c(p);
            let n = ffi::rt_fs_get(p.as_ptr() as *const i8, std::ptr::null_mut(), 0);
            if n < 0 {
                return None;
            }
            let mut v = vec![0u8; n as usize];
            ffi::rt_fs_get(p.as_ptr() as *const i8, v.as_mut_ptr(), v.len());
            Some(v)
        })
    }
    pub fn unlink(p: &str) {
        super::quiet(|| unsafe { ffi::rt_fs_unlink(c(p).as_ptr() as *const i8) });
    }
    pub fn list() -> Vec<String> {
        super::quiet(|| {
            let mut v = vec![];
            let mut buf = [0u8; 512];
            while unsafe { ffi::rt_fs_list(v.len() as i32, buf.as_mut_ptr() as *mut i8) } == 1 {
                let n = buf.iter().position(|b| *b == 0).unwrap();
                v.push(String::from_utf8_lossy(&buf[..n]).into_owned());
            }
            v.sort();
            v
        })
    }
    pub fn open_count() -> i32 {
        unsafe { ffi::rt_fs_open_count() }
    }
    pub fn capacity(c: u64) {
        unsafe { ffi::rt_fs_capacity(c) }
    }
}
