//! The simulator. One forked process is one run: real OS threads call the real
//! library, but only the thread holding the baton runs, and it can lose it at every
//! instrumented basic-block edge, memory access, allocation, futex wait and call
//! boundary. Who runs next, which allocation fails, who stalls and who dies is decided
//! here from the plan and nothing else.
use crate::plan::*;
use crate::prng::{fnv, mix, Rng};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

// ---------------------------------------------------------------- shared records
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct OpRec {
    pub status: u32,
    /// allocations asked for / refused by injection / refused by the heap cap
    pub allocs: u32,
    pub failed: u32,
    pub capfail: u32,
    pub steps: u64,
    pub start_seq: u64,
    pub end_seq: u64,
    pub peak: i64,
    pub live_before: i64,
    pub live_after: i64,
    pub woff: u64,
    pub wlen: u64,
    pub preempted: u32,
    pub waited: u32,
    /// stack used, in bytes
    pub stack: u64,
}
pub const NOTRUN: u32 = 0;
pub const DONE: u32 = 1;
pub const PANIC: u32 = 2;
pub const KILLED: u32 = 3;
pub const BUDGET: u32 = 4;
pub const RUNNING: u32 = 5;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Head {
    pub finished: u32,
    pub deadlock: u32,
    pub blocked_on_stalled: u32,
    pub mutated: u32,
    pub mutated_uid: u32,
    pub overrun: u32,
    pub overrun_uid: u32,
    pub cur_uid: u32,
    pub panics: u32,
    pub nsw: u64,
    pub nwords: u64,
    pub gsteps: u64,
    pub preempts: u64,
    pub hot: u64,
    pub kills: u64,
    pub stalls: u64,
    pub interrupts: u64,
    pub allocs: u64,
    pub failed: u64,
    pub capfail: u64,
    pub futex_waits: u64,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub live_end: i64,
    pub probes: [u64; 24],
}
pub const MAXSW: usize = 1 << 19;
pub const MAXWORDS: usize = 3 << 20;
#[repr(C)]
pub struct Shared {
    pub head: Head,
    pub recs: [OpRec; MAX_UID],
    pub sw: [[u64; 3]; MAXSW],
    pub words: [u64; MAXWORDS],
}
pub fn new_shared() -> &'static mut Shared {
    unsafe { &mut *(sys::shared(std::mem::size_of::<Shared>()) as *mut Shared) }
}

// ---------------------------------------------------------------- per-thread context
pub struct Ctx {
    left: Cell<i64>,
    s0: Cell<u64>,
    n: Cell<i64>,
    in_lib: Cell<bool>,
    sim: Cell<bool>,
    faults_off: Cell<bool>,
    in_slow: Cell<bool>,
    guard: Cell<u32>,
    uid: Cell<u32>,
    task: Cell<u32>,
    thread: Cell<u32>,
    allocs: Cell<u32>,
    cur: Cell<i64>,
    peak: Cell<i64>,
    sp0: Cell<usize>,
    deep: Cell<usize>,
    hots: Cell<u64>,
}
thread_local! {
    static CTX: Ctx = const { Ctx {
        left: Cell::new(i64::MAX), s0: Cell::new(0), n: Cell::new(i64::MAX), in_lib: Cell::new(false), sim: Cell::new(false),
        faults_off: Cell::new(false), in_slow: Cell::new(false), guard: Cell::new(0), uid: Cell::new(0), task: Cell::new(0),
        thread: Cell::new(0), allocs: Cell::new(0), cur: Cell::new(0), peak: Cell::new(0),
        sp0: Cell::new(0), deep: Cell::new(0), hots: Cell::new(0) } };
}
impl Ctx {
    #[inline(always)]
    fn s(&self) -> u64 {
        self.s0.get() + (self.n.get() - self.left.get()) as u64
    }
}

// ---------------------------------------------------------------- instrumentation
pub const MAXCOV: usize = 1 << 15;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;
static mut HOT_LO: usize = 0;
static mut HOT_LEN: usize = 0;
static mut TLS_LEN: usize = 0;
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub fn nguards() -> u32 {
    unsafe { NGUARDS }
}
pub fn set_cov(p: *mut u8) {
    unsafe { COV = p }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    CTX.with(|c| {
        if !c.in_lib.get() {
            return; // a generic instance shared with the harness
        }
        let id = *g;
        c.guard.set(id);
        let deep = c.sp0.get().wrapping_sub(sp());
        if deep > c.deep.get() {
            c.deep.set(deep);
        }
        if !COV.is_null() && (id as usize) < MAXCOV {
            *COV.add(id as usize) = 1;
        }
        step(c);
    })
}
#[inline(always)]
fn sp() -> usize {
    let x: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) x, options(nomem, nostack, preserves_flags)) };
    x
}
#[inline(always)]
fn step(c: &Ctx) {
    let l = c.left.get() - 1;
    c.left.set(l);
    if l <= 0 {
        slow(c, b'P');
    }
}
#[inline(always)]
unsafe fn access(a: usize) {
    CTX.with(|c| {
        if !c.in_lib.get() {
            return;
        }
        step(c);
        if c.sim.get() && (a.wrapping_sub(HOT_LO) < HOT_LEN || thread_pointer().wrapping_sub(a).wrapping_sub(1) < TLS_LEN) {
            hot(c);
        }
    })
}
/// An atomic operation: also of what is on the heap, behind an `Arc` or a leaked box.
fn atomic() {
    CTX.with(|c| {
        if c.in_lib.get() {
            step(c);
            if c.sim.get() {
                hot(c);
            }
        }
    })
}
/// Just above this thread's copy of the executable's thread-local segment.
#[inline(always)]
fn thread_pointer() -> usize {
    let x: usize;
    unsafe { std::arch::asm!("mov {}, fs:[0]", out(reg) x, options(nostack, preserves_flags, readonly)) };
    x
}
#[repr(C)]
struct PhdrInfo {
    addr: usize,
    name: *const u8,
    phdr: *const [u64; 7],
    phnum: u16,
}
extern "C" {
    fn dl_iterate_phdr(f: unsafe extern "C" fn(*const PhdrInfo, usize, usize) -> i32, d: usize) -> i32;
}
unsafe extern "C" fn tls_segment(i: *const PhdrInfo, _: usize, _: usize) -> i32 {
    for n in 0..(*i).phnum as usize {
        let p = &*(*i).phdr.add(n);
        if p[0] as u32 == 7 {
            TLS_LEN = (p[5] as usize).next_multiple_of((p[6] as usize).max(1));
        }
    }
    1 // the executable comes first
}
macro_rules! atomics {
    ($($t:ident $a:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t { atomic(); $a::from_ptr(p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) { atomic(); $a::from_ptr(p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t { atomic(); $a::from_ptr(p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            atomic();
            $a::from_ptr(p).compare_exchange(c, v, SeqCst, SeqCst).unwrap_or_else(|x| x)
        }
    )* };
}
atomics! {
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    atomic();
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}
macro_rules! acc { ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(a: usize) { access(a) } )* } }
acc!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;
static LIVE: AtomicI64 = AtomicI64::new(0);
const TAG_LIB: u64 = 0x6c69_6221_6c69_6221;
const TAG_OWN: u64 = 0x6f77_6e21_6f77_6e21;

/// What nobody may touch, after each block: half of it looks used, half of it free.
const TAIL: usize = 64;
const CANARY: [u64; 4] = [0x6361_6e61_7279_2121, 0, 0, 0x2121_7972_616e_6163];
unsafe fn tail(q: *mut u8, size: usize) -> *mut [[u64; 4]; TAIL / 32] {
    q.add(size) as *mut _
}
/// What a fresh block contains: nothing one can rely on, and different in every run.
unsafe fn dirty(q: *mut u8, size: usize, run: u64) {
    let n = size.min(1 << 18);
    match run % 4 {
        0 => q.write_bytes(0, n),
        1 => q.write_bytes(0xA5, n),
        2 => q.write_bytes(0xFF, n),
        _ => {
            // what an earlier answer may have left behind
            for i in 0..n / 8 {
                let r = mix(run ^ i as u64);
                let w = if i % 2 == 0 { 0x0800_0000_0000_0000 | r >> 12 } else { r % 3 };
                (q as *mut u64).add(i).write_unaligned(w);
            }
        }
    }
}
fn hdr(l: &Layout) -> usize {
    l.align().max(16)
}
unsafe fn raw_alloc(l: Layout, zero: bool) -> *mut u8 {
    let h = hdr(&l);
    let (lib, c) = CTX.with(|c| (c.sim.get() && c.in_lib.get(), c as *const Ctx));
    if lib && !lib_alloc(&*c, l.size()) {
        return std::ptr::null_mut();
    }
    let Some(total) = l.size().checked_add(h + TAIL) else { return std::ptr::null_mut() };
    let Ok(full) = Layout::from_size_align(total, h) else { return std::ptr::null_mut() };
    let p = if zero { System.alloc_zeroed(full) } else { System.alloc(full) };
    if p.is_null() {
        return p;
    }
    let q = p.add(h);
    *(q.sub(16) as *mut u64) = l.size() as u64;
    *(q.sub(8) as *mut u64) = if lib { TAG_LIB } else { TAG_OWN };
    if lib {
        tail(q, l.size()).write_unaligned([CANARY; TAIL / 32]);
        if !zero {
            dirty(q, l.size(), sim().plan.run);
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        let c = &*c;
        c.cur.set(c.cur.get() + l.size() as i64);
        if c.cur.get() > c.peak.get() && !c.faults_off.get() {
            c.peak.set(c.cur.get());
        }
    }
    q
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        raw_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        raw_alloc(l, true)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = hdr(&l);
        if *(q.sub(8) as *const u64) == TAG_LIB {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            if tail(q, l.size()).read_unaligned() != [CANARY; TAIL / 32] {
                let s = sim();
                s.sh.head.overrun += 1;
                s.sh.head.overrun_uid = s.sh.head.cur_uid;
            }
            q.write_bytes(0x5A, l.size().min(1 << 18));
            CTX.with(|c| {
                if c.in_lib.get() {
                    c.cur.set(c.cur.get() - l.size() as i64)
                }
            });
        }
        System.dealloc(q.sub(h), Layout::from_size_align_unchecked(l.size() + h + TAIL, h));
    }
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Does this allocation by the library succeed? Also a scheduling point.
fn lib_alloc(c: &Ctx, size: usize) -> bool {
    step(c);
    c.allocs.set(c.allocs.get() + 1);
    let s = sim();
    let r = rec(c.uid.get());
    r.allocs += 1;
    s.sh.head.allocs += 1;
    if c.faults_off.get() {
        return true;
    }
    let n = c.allocs.get();
    let fail = match s.tasks[c.task.get() as usize].fault {
        Fault::None => false,
        Fault::Nth(k) => n == k,
        Fault::From(k) => n >= k,
        Fault::Rand(seed, ppm) => mix(seed ^ ((n as u64) << 32)) % 1_000_000 < ppm as u64,
    };
    if fail {
        r.failed += 1;
        s.sh.head.failed += 1;
        return false;
    }
    if size as i64 > s.plan.heapcap as i64 - live() {
        r.capfail += 1;
        s.sh.head.capfail += 1;
        return false;
    }
    true
}

// ---------------------------------------------------------------- simulated system calls
unsafe fn fail_errno(r: i64) -> i64 {
    if r < 0 {
        *sys::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let simulated = CTX.try_with(|x| x.sim.get() && x.in_lib.get()).unwrap_or(false);
    if simulated && n == sys::SYS_FUTEX {
        let op = b & 127;
        if op == 0 || op == 9 {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                return fail_errno(-11);
            }
            let deadline = if d == 0 {
                u64::MAX
            } else {
                let ts = &*(d as *const [i64; 2]);
                let ns = (ts[0] as u64).saturating_mul(1_000_000_000).saturating_add(ts[1] as u64);
                let s = sim();
                let rest = if op == 0 { ns } else { ns.saturating_sub(s.wall.at(s.gstep, if b & 256 != 0 { 0 } else { 1 })) };
                s.now().saturating_add(rest / s.wall.pace)
            };
            return CTX.with(|x| futex_block(x, a as usize, deadline));
        }
        if op == 1 || op == 10 {
            return sim().wake(a as usize, c as u64) as i64;
        }
    }
    fail_errno(sys::raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    // hash seeds differ from run to run; an execution always has the same
    let run = CTX.try_with(|x| if x.sim.get() && x.in_lib.get() { sim().plan.run } else { 0 }).unwrap_or(0);
    for i in 0..len {
        *buf.add(i) = mix(mix(run) ^ (i as u64 / 8 + 1)).to_le_bytes()[i % 8];
    }
    len as isize
}
const EPOCH: u64 = 1_700_000_000_000_000_000;
/// The clocks that library code can read. They start anywhere, run at any pace, and
/// jump ahead at a reading (the reader was descheduled, or the machine asleep); the
/// wall clock is also set back and forth.
struct Wall {
    run: u64,
    base: u64,
    pace: u64,
    reads: u64,
    ahead: u64,
    skew: i64,
}
impl Wall {
    fn new(run: u64) -> Wall {
        let r = mix(run ^ 0xc10c);
        // alone in a fresh process: a plain clock
        let plain = run == 0;
        Wall {
            run,
            base: if plain { EPOCH } else { [EPOCH, 5_000_000_000, 1, 4_100_000_000_000_000_000][(r & 3) as usize] },
            pace: if plain { 1 } else { [1, 50, 1000, 1_000_000][(r >> 2 & 3) as usize] },
            reads: 0,
            ahead: 0,
            skew: 0,
        }
    }
    fn at(&self, steps: u64, id: i32) -> u64 {
        let t = self.base.saturating_add(steps.saturating_mul(self.pace)).saturating_add(self.ahead);
        if id == 0 {
            t.saturating_add_signed(self.skew)
        } else {
            t
        }
    }
    fn read(&mut self, steps: u64, id: i32) -> u64 {
        self.reads += 1;
        let r = mix(self.run.rotate_left(20) ^ self.reads);
        if self.run != 0 && r % 6 == 0 {
            let log = |x: u64| (x >> 20) >> (x % 44);
            self.ahead = self.ahead.saturating_add(log(mix(r ^ 1))).min(1 << 58);
            self.skew = (log(mix(r ^ 2)) as i64) * if r >> 32 & 1 == 0 { 1 } else { -1 };
        }
        self.at(steps, id)
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    let simulated = CTX.try_with(|x| x.sim.get() && x.in_lib.get()).unwrap_or(false);
    if simulated {
        let s = sim();
        // (the wall clock in any of its resolutions, or a monotonic one)
        let now = CTX.with(|x| s.gsteps(x));
        let t = s.wall.read(now, if matches!(id, 0 | 5 | 11) { 0 } else { id });
        *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    fail_errno(sys::raw6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ts: *const [i64; 2], absolute: bool) {
    let t = &*ts;
    let ns = (t[0] as u64).saturating_mul(1_000_000_000).saturating_add(t[1] as u64);
    CTX.with(|x| {
        step(x);
        let s = sim();
        let now = s.gsteps(x);
        let rest = if absolute { ns.saturating_sub(s.wall.at(now, 1)) } else { ns };
        let until = now.saturating_add(rest / s.wall.pace);
        let in_lib = x.in_lib.replace(false);
        s.tasks[x.task.get() as usize].st = St::Sleeping(until);
        s.reschedule(x, b'N');
        x.in_lib.set(in_lib);
    })
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if CTX.try_with(|x| x.sim.get() && x.in_lib.get()).unwrap_or(false) {
        sim_sleep(ts, false);
        return 0;
    }
    fail_errno(sys::raw6(35, ts as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if CTX.try_with(|x| x.sim.get() && x.in_lib.get()).unwrap_or(false) {
        sim_sleep(ts, flags & 1 == 1);
        return 0;
    }
    -(sys::raw6(230, id as i64, flags as i64, ts as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if CTX.try_with(|x| x.sim.get() && x.in_lib.get()).unwrap_or(false) {
        CTX.with(|x| {
            step(x);
            let in_lib = x.in_lib.replace(false);
            sim().reschedule(x, b'Y');
            x.in_lib.set(in_lib);
        });
        return 0;
    }
    sys::raw6(24, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------- scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, deadline: u64 },
    Sleeping(u64),
    Done,
}
pub enum Kept {
    Cells(Vec<u64>),
    Pairs(Vec<(u64, u32)>),
}
impl Kept {
    fn hash(&self) -> u64 {
        match self {
            Kept::Cells(v) => v.iter().fold(1, |h, x| fnv(h, *x)),
            Kept::Pairs(v) => v.iter().fold(2, |h, x| fnv(fnv(h, x.0), x.1 as u64)),
        }
    }
}
struct Task {
    ops: &'static [Op],
    next: usize,
    st: St,
    thread: u32,
    prio: u64,
    fault: Fault,
    /// op-step of the next scheduled preemption, and of the next event
    next_pre: u64,
    acc: u64,
    timed_out: bool,
    /// many calls in one op, with few preemptions
    calm: bool,
    out: Vec<u64>,
    kept: Vec<(u32, u64, Kept)>,
}
const NTHREADS: usize = 512;
pub struct Sim {
    pub plan: &'static Plan,
    pub sh: &'static mut Shared,
    tasks: Vec<Task>,
    words: Vec<AtomicU32>,
    nthreads: u32,
    rng: Rng,
    cur: usize,
    seq: u64,
    gstep: u64,
    wall: Wall,
    fired: Vec<bool>,
    /// the step of each event's op at which it happens, as far as it is known
    at: Vec<u64>,
    trace: HashMap<(u32, u8, u64), u32>,
    trace_steps: HashMap<u32, Vec<u64>>,
    seeded: bool,
    mean: u64,
    hot_ppm: u64,
    end_ppm: u64,
    pct: bool,
    prio_low: u64,
    done: AtomicU32,
    pub apps: crate::apps::Apps,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn rec(uid: u32) -> &'static mut OpRec {
    &mut sim().sh.recs[uid as usize]
}
const QUANTUM: u64 = 60_000;
const STACK: usize = 2 << 20;

impl Sim {
    fn gsteps(&mut self, c: &Ctx) -> u64 {
        let s = c.s();
        let t = &mut self.tasks[c.task.get() as usize];
        self.gstep += s.saturating_sub(t.acc);
        t.acc = s;
        self.gstep
    }
    fn now(&self) -> u64 {
        EPOCH + self.gstep
    }
    fn wake(&mut self, addr: usize, n: u64) -> u64 {
        let mut woken = 0;
        for t in self.tasks.iter_mut() {
            if woken == n {
                break;
            }
            if let St::Blocked { addr: a, .. } = t.st {
                if a == addr {
                    t.st = St::Ready;
                    t.timed_out = false;
                    woken += 1;
                }
            }
        }
        woken
    }
    fn log(&mut self, a: u64, b: u64, c: u64) {
        let h = self.sh.head.log_hash;
        self.sh.head.log_hash = fnv(fnv(fnv(h, a), b), c);
    }
    /// Tasks that can run now; wakes expired sleepers; jumps the clock when nobody can.
    fn runnable(&mut self) -> Vec<usize> {
        loop {
            for t in self.tasks.iter_mut() {
                match t.st {
                    St::Sleeping(u) if u <= self.gstep => t.st = St::Ready,
                    St::Blocked { deadline, .. } if deadline != u64::MAX && deadline <= EPOCH + self.gstep => {
                        t.st = St::Ready;
                        t.timed_out = true;
                    }
                    _ => {}
                }
            }
            let r: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].st == St::Ready).collect();
            if !r.is_empty() {
                return r;
            }
            let next = self
                .tasks
                .iter()
                .filter_map(|t| match t.st {
                    St::Sleeping(u) if u != u64::MAX => Some(u),
                    St::Blocked { deadline, .. } if deadline != u64::MAX => Some(deadline.saturating_sub(EPOCH)),
                    _ => None,
                })
                .min();
            if let Some(u) = next {
                self.gstep = self.gstep.max(u);
                continue;
            }
            // Nothing but callers stalled for ever: let them go on, but first note who
            // was waiting for them.
            if self.tasks.iter().any(|t| t.st == St::Sleeping(u64::MAX)) {
                for t in &self.tasks {
                    if let St::Blocked { .. } = t.st {
                        self.sh.head.blocked_on_stalled += 1;
                    }
                }
                for t in self.tasks.iter_mut() {
                    if t.st == St::Sleeping(u64::MAX) {
                        t.st = St::Ready;
                    }
                }
                continue;
            }
            return vec![];
        }
    }
    fn choose(&mut self, c: &Ctx, kind: u8) -> Option<usize> {
        let me = c.task.get() as usize;
        let s = c.s();
        let r = self.runnable();
        if r.is_empty() {
            return None;
        }
        let stay = kind == b'E' || kind == b'S';
        let cyc = *r.iter().find(|x| **x > me).unwrap_or(&r[0]);
        let default = if stay && r.contains(&me) { me } else { cyc };
        let uid = c.uid.get();
        let key_s = if kind == b'E' || kind == b'D' { 0 } else { s };
        let to = if !self.seeded {
            match self.trace.get(&(uid, kind, key_s)) {
                Some(t) if r.contains(&(*t as usize)) => *t as usize,
                _ => default,
            }
        } else if self.pct {
            if kind == b'P' || kind == b'Y' || kind == b'Q' {
                self.prio_low -= 1;
                self.tasks[me].prio = self.prio_low;
            }
            *r.iter().max_by_key(|x| self.tasks[**x].prio).unwrap()
        } else {
            let others: Vec<usize> = r.iter().copied().filter(|x| *x != me).collect();
            if others.is_empty() {
                me
            } else if kind == b'E' || kind == b'S' {
                if self.rng.below(1_000_000) < self.end_ppm || !r.contains(&me) {
                    *self.rng.pick(&r)
                } else {
                    me
                }
            } else {
                *self.rng.pick(&others)
            }
        };
        if to != default || ((kind == b'P' || kind == b'H') && to != me) {
            let n = self.sh.head.nsw as usize;
            if n < MAXSW {
                self.sh.sw[n] = [uid as u64 | (kind as u64) << 32, key_s, to as u64];
                self.sh.head.nsw += 1;
            }
        }
        if to != me {
            if matches!(kind, b'P' | b'Q' | b'Y' | b'H') {
                self.sh.head.preempts += 1;
                rec(uid).preempted += 1;
            }
            let h = self.sh.head.sched_hash;
            self.sh.head.sched_hash = fnv(fnv(h, (kind as u64) << 32 | c.guard.get() as u64), to as u64);
        }
        if to != me {
            self.log(uid as u64, (kind as u64) << 56 | s, to as u64);
        }
        Some(to)
    }
    /// Hand the baton to whoever the plan says; returns when this thread has it again.
    fn reschedule(&mut self, c: &Ctx, kind: u8) {
        self.gsteps(c);
        match self.choose(c, kind) {
            None => self.finish(kind, c),
            Some(to) => self.switch(c, to),
        }
    }
    fn switch(&mut self, c: &Ctx, to: usize) {
        self.cur = to;
        let th = self.tasks[to].thread;
        let me = c.thread.get();
        if th == me {
            return;
        }
        let w = &self.words[th as usize];
        w.store(1, Release);
        sys::futex_wake(w.as_ptr(), 1);
        self.wait_baton(me);
    }
    fn wait_baton(&self, me: u32) {
        let w = &self.words[me as usize];
        while w.swap(0, Acquire) == 0 {
            sys::futex_wait(w.as_ptr(), 0);
        }
    }
    fn finish(&mut self, _kind: u8, c: &Ctx) {
        if self.tasks.iter().any(|t| matches!(t.st, St::Blocked { .. })) {
            self.sh.head.deadlock = 1;
        }
        self.done.store(1, Release);
        sys::futex_wake(self.done.as_ptr(), 1);
        park(c);
    }
    fn next_event(&self, uid: u32, from: u64) -> u64 {
        let mut m = u64::MAX;
        for (i, e) in self.plan.events.iter().enumerate() {
            if e.uid == uid && !self.fired[i] && self.at[i] >= from && self.at[i] < m {
                m = self.at[i];
            }
        }
        m
    }
    /// Set the countdown to the next step at which something must be decided.
    fn arm(&mut self, c: &Ctx, s: u64) {
        let uid = c.uid.get();
        let ev = self.next_event(uid, s + 1);
        let t = &self.tasks[c.task.get() as usize];
        let q = (s / QUANTUM + 1) * QUANTUM;
        let next = ev.min(t.next_pre).min(q).min(self.plan.budget).max(s + 1);
        let n = (next - s) as i64;
        c.s0.set(s);
        c.n.set(n);
        c.left.set(n);
    }
    fn draw_pre(&mut self, c: &Ctx, s: u64) {
        let uid = c.uid.get();
        let v = if self.seeded {
            if self.mean == 0 {
                u64::MAX
            } else {
                let calm = self.tasks[c.task.get() as usize].calm;
                s.saturating_add(self.rng.interval(if calm { self.mean.max(20_000) } else { self.mean }))
            }
        } else {
            self.trace_steps
                .get(&uid)
                .and_then(|v| v.iter().copied().find(|x| *x > s))
                .unwrap_or(u64::MAX)
        };
        self.tasks[c.task.get() as usize].next_pre = v;
    }
    fn flush(&mut self, task: usize, uid: u32) {
        let out = std::mem::take(&mut self.tasks[task].out);
        let off = self.sh.head.nwords as usize;
        let n = out.len().min(MAXWORDS - off);
        self.sh.words[off..off + n].copy_from_slice(&out[..n]);
        self.sh.head.nwords += n as u64;
        let r = rec(uid);
        r.woff = off as u64;
        r.wlen = out.len() as u64;
        let h = out.iter().fold(uid as u64, |h, x| fnv(h, *x));
        self.log(0xeeee, uid as u64, h);
    }
}
fn park(c: &Ctx) -> ! {
    let _ = c;
    let w = AtomicU32::new(0);
    loop {
        sys::futex_wait(w.as_ptr(), 0);
    }
}
#[cold]
#[inline(never)]
fn slow(c: &Ctx, kind: u8) {
    if !c.sim.get() || c.in_slow.get() {
        c.s0.set(c.s());
        c.n.set(i64::MAX / 2);
        c.left.set(i64::MAX / 2);
        return;
    }
    let in_lib = c.in_lib.replace(false);
    c.in_slow.set(true);
    let sm = sim();
    let s = c.s();
    sm.gsteps(c);
    let uid = c.uid.get();
    let task = c.task.get() as usize;
    // events placed exactly here
    for i in 0..sm.plan.events.len() {
        let e = sm.plan.events[i];
        if e.uid == uid && sm.at[i] == s && !sm.fired[i] {
            sm.fired[i] = true;
            match e.kind {
                EvKind::Kill => {
                    sm.sh.head.kills += 1;
                    die(c, KILLED, s);
                }
                EvKind::Call(h) => interrupt(c, task, h),
                EvKind::Stall(d) => {
                    sm.sh.head.stalls += 1;
                    sm.tasks[task].st = St::Sleeping(sm.gstep.saturating_add(d));
                    if d == u64::MAX {
                        sm.tasks[task].st = St::Sleeping(u64::MAX);
                    }
                    c.in_slow.set(false);
                    sm.reschedule(c, b'L');
                    c.in_slow.set(true);
                }
            }
        }
    }
    if s >= sm.plan.budget {
        die(c, BUDGET, s);
    }
    if s >= sm.tasks[task].next_pre {
        c.in_slow.set(false);
        sm.reschedule(c, kind);
        c.in_slow.set(true);
        sm.draw_pre(c, s);
    } else if s % QUANTUM == 0 {
        c.in_slow.set(false);
        sm.reschedule(c, b'Q');
        c.in_slow.set(true);
    }
    sm.arm(c, s);
    c.in_slow.set(false);
    c.in_lib.set(in_lib);
}
/// A signal handler makes a call on this thread, in the middle of another one.
fn interrupt(c: &Ctx, task: usize, h: u32) {
    let sm = sim();
    let Some(op) = sm.plan.handlers.iter().find(|o| o.uid == h) else { return };
    if c.faults_off.get() {
        return; // not while a panic is on its way
    }
    sm.sh.head.interrupts += 1;
    let cells = (c.uid.get(), c.s0.get(), c.n.get(), c.left.get(), c.allocs.get(), c.cur.get(), c.peak.get(), c.sp0.get(), c.deep.get());
    let (guard, hots) = (c.guard.get(), c.hots.get());
    let t = &mut sm.tasks[task];
    let (fault, acc, next_pre, calm, out) = (t.fault, t.acc, t.next_pre, t.calm, std::mem::take(&mut t.out));
    c.in_slow.set(false);
    run_op(c, task, op);
    c.in_slow.set(true);
    let t = &mut sm.tasks[task];
    (t.fault, t.acc, t.next_pre, t.calm, t.out) = (fault, acc, next_pre, calm, out);
    c.uid.set(cells.0);
    c.s0.set(cells.1);
    c.n.set(cells.2);
    c.left.set(cells.3);
    c.allocs.set(cells.4);
    c.cur.set(cells.5);
    c.peak.set(cells.6);
    c.sp0.set(cells.7);
    c.deep.set(cells.8);
    c.guard.set(guard);
    c.hots.set(hots);
    c.faults_off.set(false);
    sm.sh.head.cur_uid = cells.0;
}
/// This thread never continues; the rest of its task goes to a fresh thread.
fn die(c: &Ctx, status: u32, s: u64) -> ! {
    let sm = sim();
    let (uid, task) = (c.uid.get(), c.task.get() as usize);
    sm.flush(task, uid);
    let seq = sm.seq;
    sm.seq += 1;
    let r = rec(uid);
    r.status = status;
    r.steps = s;
    r.end_seq = seq;
    r.peak = c.peak.get();
    r.stack = c.deep.get() as u64;
    r.live_after = live();
    sm.log(0xdead, uid as u64, s);
    spawn(task);
    let me = c.task.get() as usize;
    sm.gsteps(c);
    match sm.choose(c, b'K') {
        None => sm.finish(b'K', c),
        Some(to) => {
            sm.cur = to;
            let th = sm.tasks[to].thread;
            let w = &sm.words[th as usize];
            w.store(1, Release);
            sys::futex_wake(w.as_ptr(), 1);
        }
    }
    let _ = me;
    park(c)
}
#[cold]
#[inline(never)]
fn hot(c: &Ctx) {
    if c.in_slow.get() || !c.in_lib.get() {
        return;
    }
    let sm = sim();
    sm.sh.head.hot += 1;
    c.hots.set(c.hots.get() + 1);
    let mut known = false;
    for (i, e) in sm.plan.events.iter().enumerate() {
        if e.uid == c.uid.get() && e.s >= AT_STATIC && (e.s & !AT_STATIC) >> 16 == c.hots.get() {
            sm.at[i] = c.s() + (e.s & 0xffff).max(1);
            known = true;
        }
    }
    if known {
        sm.arm(c, c.s());
    }
    let ppm = if sm.tasks[c.task.get() as usize].calm { sm.hot_ppm / 64 } else { sm.hot_ppm };
    if sm.seeded && ppm > 0 && sm.rng.below(1_000_000) < ppm {
        let s = c.s();
        let t = c.task.get() as usize;
        if sm.tasks[t].next_pre > s {
            c.in_lib.set(false);
            c.in_slow.set(true);
            // a step of its own, so that the switch has its own place in the trace
            c.in_slow.set(false);
            sm.reschedule(c, b'H');
            let s = c.s();
            sm.draw_pre(c, s);
            sm.arm(c, s);
            c.in_lib.set(true);
        }
    } else if !sm.seeded {
        let s = c.s();
        if let Some(_) = sm.trace.get(&(c.uid.get(), b'H', s)) {
            c.in_lib.set(false);
            sm.reschedule(c, b'H');
            sm.arm(c, s);
            c.in_lib.set(true);
        }
    }
}
fn futex_block(c: &Ctx, addr: usize, deadline: u64) -> i64 {
    step(c);
    let in_lib = c.in_lib.replace(false);
    let sm = sim();
    sm.sh.head.futex_waits += 1;
    rec(c.uid.get()).waited += 1;
    sm.tasks[c.task.get() as usize].st = St::Blocked { addr, deadline };
    sm.tasks[c.task.get() as usize].timed_out = false;
    sm.reschedule(c, b'B');
    c.in_lib.set(in_lib);
    if sm.tasks[c.task.get() as usize].timed_out {
        unsafe { *sys::__errno_location() = 110 };
        return -1;
    }
    0
}

// ---------------------------------------------------------------- what ops use
/// Run library code.
#[inline(never)]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let was = CTX.with(|c| {
        c.in_lib.set(true);
        c.sp0.replace(sp())
    });
    let r = f();
    CTX.with(|c| {
        c.in_lib.set(false);
        c.sp0.set(was);
    });
    r
}
/// Leave library mode (inside a callback the library called).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = CTX.with(|c| c.in_lib.replace(false));
    let r = f();
    CTX.with(|c| c.in_lib.set(was));
    r
}
/// Wait until every task with such an op has reached it; the last one notes how much
/// memory the library holds.
pub fn barrier(id: u64) {
    CTX.with(|c| {
        step(c);
        let sm = sim();
        let want = sm.plan.ops().filter(|o| o.f == crate::ops::BARRIER && o.a[0] == id).count();
        let at = usize::MAX - id as usize;
        let here = sm.tasks.iter().filter(|t| matches!(t.st, St::Blocked { addr, .. } if addr == at)).count();
        if here + 1 >= want {
            sm.wake(at, u64::MAX);
            emit(live() as u64);
        } else {
            sm.tasks[c.task.get() as usize].st = St::Blocked { addr: at, deadline: u64::MAX };
            sm.reschedule(c, b'W');
        }
    })
}
pub fn not_in_lib() {
    CTX.with(|c| c.in_lib.set(false));
}
/// A scheduling and crash point in the workload itself.
pub fn point() {
    CTX.with(|c| step(c));
}
pub fn emit(w: u64) {
    let t = CTX.with(|c| c.task.get()) as usize;
    sim().tasks[t].out.push(w);
}
pub fn emit_all(w: &[u64]) {
    let t = CTX.with(|c| c.task.get()) as usize;
    sim().tasks[t].out.extend_from_slice(w);
}
/// How far the current op has come.
pub fn steps() -> u64 {
    CTX.with(|c| c.s())
}
/// How much the current op has reported so far, and what it reported since.
pub fn reported() -> usize {
    let t = CTX.with(|c| c.task.get()) as usize;
    sim().tasks[t].out.len()
}
pub fn take_back(from: usize) -> Vec<u64> {
    let t = CTX.with(|c| c.task.get()) as usize;
    sim().tasks[t].out.split_off(from)
}
pub fn keep(k: Kept) {
    let s = sim();
    if s.plan.keep {
        let (t, uid) = CTX.with(|c| (c.task.get() as usize, c.uid.get()));
        let h = k.hash();
        s.tasks[t].kept.push((uid, h, k));
    }
}
pub fn probe(i: usize) {
    sim().sh.head.probes[i] += 1;
}
pub fn seq() -> u64 {
    let s = sim();
    s.seq += 1;
    s.seq
}
/// No more injected failures in this op (it is unwinding).
pub fn unwinding() {
    CTX.with(|c| c.faults_off.set(true));
}

fn spawn(task: usize) {
    let sm = sim();
    let id = sm.nthreads;
    if id as usize >= NTHREADS {
        crate::die("too many threads in one run");
    }
    sm.nthreads += 1;
    sm.tasks[task].thread = id;
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || thread_main(id, task))
        .unwrap_or_else(|_| crate::die("cannot start a thread"));
}
fn thread_main(id: u32, task: usize) {
    CTX.with(|c| {
        c.thread.set(id);
        c.task.set(task as u32);
        c.uid.set(u32::MAX - 1 - id); // decisions before its first op
        let sm = sim();
        sm.wait_baton(id);
        c.sim.set(true);
        // first of all, so that its destructor is the last one of this thread to run
        LAST.with(|l| l.0.set(Some(task)));
        rest(c, task, false);
    });
}
/// What a thread does from its thread-local destructors, when it has none left but this.
struct Last(Cell<Option<usize>>);
impl Drop for Last {
    fn drop(&mut self) {
        if let Some(task) = self.0.get() {
            CTX.with(|c| rest(c, task, true));
        }
    }
}
thread_local! {
    static LAST: Last = const { Last(Cell::new(None)) };
}
fn rest(c: &Ctx, task: usize, exiting: bool) {
    {
        let sm = sim();
        loop {
            let t = &mut sm.tasks[task];
            if t.next >= t.ops.len() {
                t.st = St::Done;
                c.s0.set(0);
                c.n.set(0);
                c.left.set(0);
                t.acc = 0;
                match sm.choose(c, b'D') {
                    None => sm.finish(b'D', c),
                    Some(to) => {
                        sm.cur = to;
                        let w = &sm.words[sm.tasks[to].thread as usize];
                        w.store(1, Release);
                        sys::futex_wake(w.as_ptr(), 1);
                    }
                }
                park(c);
            }
            let op: &'static Op = &t.ops[t.next];
            t.next += 1;
            run_op(c, task, op);
            sm.reschedule(c, b'E');
            if op.f == crate::ops::EXIT && !exiting {
                return;
            }
        }
    }
}
fn run_op(c: &Ctx, task: usize, op: &'static Op) {
    let sm = sim();
    sm.tasks[task].fault = op.fault;
    sm.tasks[task].calm = op.f == crate::ops::AGAIN;
    sm.tasks[task].acc = 0;
    sm.sh.head.cur_uid = op.uid;
    let r = rec(op.uid);
    r.status = RUNNING;
    r.start_seq = sm.seq;
    sm.seq += 1;
    r.live_before = live();
    c.uid.set(op.uid);
    c.allocs.set(0);
    c.cur.set(0);
    c.peak.set(0);
    c.deep.set(0);
    c.hots.set(0);
    c.faults_off.set(false);
    c.s0.set(0);
    c.n.set(0);
    c.left.set(0);
    sm.draw_pre(c, 0);
    sm.arm(c, 0);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        point(); // a task can lose the baton, stall or die before its first step
        if op.f >= crate::ops::STREAM {
            crate::apps::run(op);
        } else {
            crate::ops::call(op.f, &op.a);
        }
    }));
    c.in_lib.set(false);
    let s = c.s();
    sm.gsteps(c);
    c.s0.set(s);
    c.n.set(i64::MAX / 2);
    c.left.set(i64::MAX / 2);
    let mut status = DONE;
    if let Err(e) = res {
        status = PANIC;
        sm.sh.head.panics += 1;
        sm.tasks[task].out.clear();
        drop(e);
    }
    sm.flush(task, op.uid);
    let r = rec(op.uid);
    r.status = status;
    r.steps = s;
    r.end_seq = sm.seq;
    sm.seq += 1;
    r.peak = c.peak.get();
    r.stack = c.deep.get() as u64;
    r.live_after = live();
    let (p, l) = (r.peak as u64, r.live_after as u64);
    sm.log(status as u64, p, l);
}

/// Body of a forked child: execute the plan, leave everything in shared memory, exit.
pub fn run_child(plan: &Plan, sh: &'static mut Shared) -> ! {
    let plan: &'static Plan = unsafe { &*(plan as *const Plan) };
    std::panic::set_hook(Box::new(|_| unwinding()));
    let (seeded, seed, mean, hot_ppm, pct, end_ppm, tr) = match &plan.sched {
        Sched::Seeded { seed, mean, hot_ppm, pct, end_ppm } => (true, *seed, *mean, *hot_ppm, *pct, *end_ppm, vec![]),
        Sched::Trace(v) => (false, 0, 0, 0, false, 0, v.clone()),
    };
    let mut trace = HashMap::new();
    let mut trace_steps: HashMap<u32, Vec<u64>> = HashMap::new();
    for x in &tr {
        trace.insert((x.uid, x.kind, x.s), x.to);
        if x.kind == b'P' {
            trace_steps.entry(x.uid).or_default().push(x.s);
        }
    }
    for v in trace_steps.values_mut() {
        v.sort();
    }
    let mut rng = Rng::new(seed);
    let tasks: Vec<Task> = plan
        .tasks
        .iter()
        .map(|ops| Task {
            ops,
            next: 0,
            st: St::Ready,
            thread: 0,
            prio: (1 << 32) + rng.below(1 << 20),
            fault: Fault::None,
            next_pre: u64::MAX,
            acc: 0,
            timed_out: false,
            calm: false,
            out: vec![],
            kept: vec![],
        })
        .collect();
    unsafe {
        HOT_LO = &__data_start as *const u8 as usize;
        HOT_LEN = &_end as *const u8 as usize - HOT_LO;
        dl_iterate_phdr(tls_segment, 0);
    }
    let s = Box::new(Sim {
        plan,
        sh,
        tasks,
        words: (0..NTHREADS).map(|_| AtomicU32::new(0)).collect(),
        nthreads: 0,
        rng,
        cur: 0,
        seq: 1,
        gstep: 0,
        wall: Wall::new(plan.run),
        fired: vec![false; plan.events.len()],
        at: plan.events.iter().map(|e| e.s).collect(),
        trace,
        trace_steps,
        seeded,
        mean,
        hot_ppm: hot_ppm as u64,
        end_ppm: end_ppm as u64,
        pct,
        prio_low: 1 << 32,
        done: AtomicU32::new(0),
        apps: crate::apps::Apps::new(plan),
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    let sm = sim();
    for t in 0..sm.tasks.len() {
        spawn(t);
    }
    // the first task to run
    CTX.with(|c| {
        c.uid.set(u32::MAX);
        c.s0.set(0);
        c.n.set(0);
        c.left.set(0);
        if let Some(to) = sm.choose(c, b'S') {
            sm.cur = to;
            let w = &sm.words[sm.tasks[to].thread as usize];
            w.store(1, Release);
            sys::futex_wake(w.as_ptr(), 1);
            while sm.done.load(Acquire) == 0 {
                sys::futex_wait(sm.done.as_ptr(), 0);
            }
        }
    });
    for t in 0..sm.tasks.len() {
        for i in 0..sm.tasks[t].kept.len() {
            let (uid, h, k) = &sm.tasks[t].kept[i];
            if k.hash() != *h {
                sm.sh.head.mutated += 1;
                sm.sh.head.mutated_uid = *uid;
            }
        }
    }
    sm.sh.head.gsteps = sm.gstep;
    sm.sh.head.live_end = live();
    sm.sh.head.finished = 1;
    unsafe { sys::_exit(0) }
}
