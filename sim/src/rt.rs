//! Runtime seams: compiled-in preemption points (LLVM SanitizerCoverage callbacks in the crate under test),
//! work and allocation counters, the deterministic thread scheduler, and interposed system calls.
use crate::ctx::Ctx;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering::*};

// ---- global context of the running execution ------------------------------------------------------------
static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());
pub fn set_ctx(c: *mut Ctx) {
    CTX.store(c, SeqCst);
}
/// Only the simulated thread that holds the turn (or the single thread of an execution) calls this.
fn ctx() -> Option<&'static mut Ctx> {
    let p = CTX.load(SeqCst);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
fn die(class: &str, msg: &str) -> ! {
    if let Some(c) = ctx() {
        crate::runner::child_report(c, Some(&crate::ctx::Viol { class: class.into(), msg: msg.into() }));
    }
    unsafe { libc::_exit(0) }
}

// ---- coverage callbacks -----------------------------------------------------------------------------------
pub static mut COVER: *mut u8 = std::ptr::null_mut();
pub const COVER_MAX: usize = 1 << 16;
static NGUARDS: AtomicU32 = AtomicU32::new(0);
pub static LAST_SITE: AtomicU32 = AtomicU32::new(0);
pub fn guards() -> usize {
    NGUARDS.load(Relaxed) as usize
}
/// Compiled-in points one thread of an execution may pass: hundreds of times what any of them needs.
const WORK: u64 = 3_000_000_000;
/// After so many preemptions an execution's threads are preempted rarely, so that all of them get far.
const DENSE_PREEMPTIONS: u64 = 100_000;
thread_local! {
    /// Points left before the slow path runs.
    static LEFT: Cell<u64> = const { Cell::new(WORK) };
    static SIM: Cell<u32> = const { Cell::new(0) }; // 1 + index of the simulated thread, 0 outside
    static MODE: Cell<u8> = const { Cell::new(0) }; // 1: budget, 2: preempt
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        if start == stop || *start != 0 {
            return;
        }
        while p < stop {
            *p = NGUARDS.fetch_add(1, Relaxed) + 1;
            p = p.add(1);
        }
    }
}
pub fn covered() -> usize {
    unsafe { (0..COVER_MAX).filter(|i| *COVER.add(*i) != 0).count() }
}
static PANIC_AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn last_panic() -> String {
    PANIC_AT.lock().map(|s| s.clone()).unwrap_or_default()
}
/// Once, in the supervisor: coverage map shared with the children, silent panics.
pub fn install() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), COVER_MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            eprintln!("harness: mmap failed");
            std::process::exit(2);
        }
        COVER = p as *mut u8;
        let mut key = 0;
        if libc::pthread_key_create(&mut key, Some(thread_ends)) != 0 {
            eprintln!("harness: pthread_key_create failed");
            std::process::exit(2);
        }
        EXIT_KEY.store(key, SeqCst);
        let a = std::ptr::addr_of!(__data_start) as usize;
        GLOBALS = (a, std::ptr::addr_of!(_end) as usize - a);
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unpreempted(|| {
            if let Ok(mut s) = PANIC_AT.lock() {
                *s = at;
            }
        });
    }));
}
#[inline(always)]
fn point() {
    LEFT.with(|l| {
        let n = l.get();
        if n == 0 {
            slow();
        } else {
            l.set(n - 1);
        }
    });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let i = *g as usize;
        if !COVER.is_null() && i < COVER_MAX {
            // shared between processes: write only once
            let p = COVER.add(i);
            if *p == 0 {
                *p = 1;
            }
        }
    }
    point();
}
macro_rules! mem {
    ($($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n(a: usize) {
        if unsafe { a.wrapping_sub(GLOBALS.0) < GLOBALS.1 } {
            shared();
        }
        point();
    } )* };
}
/// Start and length of the writable statics of the executable.
static mut GLOBALS: (usize, usize) = (0, 0);
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// A load or store of a writable static by the code under test: only such places, if there are any, can
/// make threads interfere, so preemptions are aimed at them.
#[cold]
#[inline(never)]
fn shared() {
    if MODE.with(|m| m.get()) != 2 {
        return;
    }
    let p = sched().at_shared as u64;
    if p == 0 || sched().shared_left == 0 {
        return;
    }
    let c = ctx().unwrap();
    sched().shared_left -= 1;
    c.hit("accesses to statics");
    if c.t.chance(p) {
        preempt();
    }
}
mem!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
#[cold]
#[inline(never)]
fn slow() {
    match MODE.with(|m| m.get()) {
        1 => {
            MODE.with(|m| m.set(0));
            let op = OP.lock().map(|o| *o).unwrap_or("");
            die(&format!("no-progress:{}", op), &format!("{}: the work budget of one call is exhausted", op));
        }
        2 => preempt(),
        _ => {
            LEFT.with(|l| l.set(WORK));
            if IN_CHILD.load(Relaxed) {
                die("no-progress", "the work budget of the execution is exhausted");
            }
        }
    }
}
static OP: std::sync::Mutex<&'static str> = std::sync::Mutex::new("");
pub fn set_op(s: &'static str) {
    *OP.lock().unwrap() = s;
}
/// Points left of the main thread's work budget, as a measure of what executions need.
/// On a budget of its own, which the execution's does not pay for.
pub fn apart<T>(f: impl FnOnce() -> T) -> T {
    let left = LEFT.with(|l| l.replace(WORK));
    let r = f();
    LEFT.with(|l| l.set(left));
    r
}
pub fn work_done() -> u64 {
    WORK - LEFT.with(|l| l.get()).min(WORK)
}
/// Run `f`; if it executes more than `budget` compiled-in points the execution ends as a violation.
pub fn budgeted<T>(budget: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let left = LEFT.with(|l| l.replace(budget));
    MODE.with(|m| m.set(1));
    let r = f();
    MODE.with(|m| m.set(0));
    let used = budget - LEFT.with(|l| l.get());
    LEFT.with(|l| l.set(left.saturating_sub(used)));
    (r, used)
}

// ---- allocation: counted, and at addresses that depend on nothing but what the execution asked for ----------
// Two address ranges, one for the supervisor and one that an execution starts empty, so that what the code
// under test might derive from addresses is the same when a tape is replayed by another process.
pub struct Alloc;
static ALLOCATED: AtomicU64 = AtomicU64::new(0);
const BASE: [usize; 2] = [0x1000_0000_0000, 0x2000_0000_0000];
const SPAN: [usize; 2] = [8 << 30, 3 << 30];
const CLASSES: usize = 144;
struct Arena {
    next: usize, // 0: not mapped yet, 1: cannot be mapped
    end: usize,
    free: [usize; CLASSES],
}
static mut ARENAS: [Arena; 2] = [const { Arena { next: 0, end: 0, free: [0; CLASSES] } }; 2];
static CUR: AtomicU32 = AtomicU32::new(0);
static HELD: AtomicBool = AtomicBool::new(false);
/// Four sizes to the power of two.
fn class_of(n: usize) -> (usize, usize) {
    let n = n.max(16);
    let k = (usize::BITS - 1 - (n - 1).leading_zeros()) as usize; // 2^k < n <= 2^(k+1), k >= 3
    let q = 1usize << (k - 2);
    let j = (n - (1 << k) + q - 1) / q; // 1..=4
    ((k - 3) * 4 + j - 1, (1 << k) + j * q)
}
fn region(p: usize) -> Option<usize> {
    (0..2).find(|r| p.wrapping_sub(BASE[*r]) < SPAN[*r])
}
#[allow(static_mut_refs)]
unsafe fn with_arenas<T>(f: impl FnOnce(&mut [Arena; 2]) -> T) -> T {
    while HELD.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(&mut ARENAS);
    HELD.store(false, Release);
    r
}
/// The address and whether the memory is known to be zero.
unsafe fn arena_alloc(l: Layout) -> (*mut u8, bool) {
    let r = CUR.load(Relaxed) as usize;
    let (c, size) = class_of(l.size());
    let got = with_arenas(|a| {
        let a = &mut a[r];
        if a.next == 0 {
            let p = libc::mmap(BASE[r] as *mut _, SPAN[r], libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
            a.next = if p as usize == BASE[r] { BASE[r] + 64 } else { 1 };
            a.end = BASE[r] + SPAN[r];
        }
        if a.next == 1 {
            return None;
        }
        if a.free[c] != 0 && l.align() <= 16 {
            let p = a.free[c];
            a.free[c] = *(p as *const usize);
            return Some((p, false));
        }
        let p = (a.next + l.align().max(16) - 1) & !(l.align().max(16) - 1);
        if size > a.end.saturating_sub(p) {
            return Some((0, false));
        }
        a.next = p + ((size + 15) & !15);
        Some((p, true))
    });
    match got {
        Some((p, z)) => (p as *mut u8, z),
        None => (System.alloc(l), false),
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Relaxed);
        arena_alloc(l).0
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Relaxed);
        let (p, zero) = arena_alloc(l);
        if !zero && !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match region(p as usize) {
            None => System.dealloc(p, l),
            // what the supervisor allocated stays as it was in its executions
            Some(r) if r == CUR.load(Relaxed) as usize => {
                let c = class_of(l.size()).0;
                with_arenas(|a| {
                    *(p as *mut usize) = a[r].free[c];
                    a[r].free[c] = p as usize;
                })
            }
            Some(_) => {}
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCATED.fetch_add(n as u64, Relaxed);
        match region(p as usize) {
            None => System.realloc(p, l, n),
            Some(r) if r == CUR.load(Relaxed) as usize && class_of(l.size()).0 == class_of(n).0 => p,
            Some(_) => {
                let q = arena_alloc(Layout::from_size_align_unchecked(n, l.align())).0;
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
pub fn allocated() -> u64 {
    ALLOCATED.load(Relaxed)
}
/// From here on, in an execution's process: its own address range, and a stack at a fixed place.
pub fn on_own_memory(stack: usize, heap: usize, f: extern "C" fn() -> !) -> ! {
    const STACK: usize = 0x3000_0000_0000;
    const SIZE: usize = 8 << 20;
    CUR.store(1, SeqCst);
    unsafe {
        drop(Vec::<u8>::with_capacity(1));
        with_arenas(|a| a[1].next += if a[1].next > 1 { heap } else { 0 });
        let p = libc::mmap((STACK - SIZE) as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != STACK - SIZE {
            f();
        }
        std::arch::asm!("mov rsp, {s}", "xor ebp, ebp", "call {f}", "ud2", s = in(reg) STACK - 64 - stack, f = in(reg) f, options(noreturn));
    }
}

// ---- raw system calls (never interposed) -------------------------------------------------------------------
#[inline(always)]
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn raw_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn raw_wake(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 1 | 128, 1, 0, 0, 0) };
}

// ---- deterministic scheduler --------------------------------------------------------------------------------
// Real threads, parked and released one at a time. Who runs next, and after how many compiled-in points the
// running one is preempted, are drawn from the choice tape.
const MAXT: usize = 9;
#[derive(Copy, Clone, PartialEq)]
enum St {
    Absent,
    Ready,
    Blocked(usize, u64), // futex address; simulated deadline (0: none)
    Done,
}
struct Sched {
    st: [St; MAXT],
    cur: usize,
    prev_gap: u32, // log2 of the largest preemption gap
    at_shared: u32, // per mille of the accesses to statics that are preempted
    shared_left: u32,
    stalls: u32, // percent of preemptions that stall the thread for a while
    stalled_until: [u64; MAXT],
    switches: u64,
    clock: u64,
    gap: [u64; MAXT],
    work: u64,
    preemptions: u64,
}
static mut SCHED: Sched = Sched { st: [St::Absent; MAXT], cur: 0, prev_gap: 0, at_shared: 0, shared_left: 0, stalls: 0, stalled_until: [0; MAXT], switches: 0, clock: 0, gap: [0; MAXT], work: 0, preemptions: 0 };
static TURN: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ACTIVE: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { &mut SCHED }
}
fn me() -> usize {
    SIM.with(|s| s.get()) as usize
}
fn next_gap() {
    let c = ctx().unwrap();
    let g = sched().prev_gap as u64;
    // mostly a log-uniform gap, sometimes run to completion
    let n = if sched().preemptions > DENSE_PREEMPTIONS || c.t.chance(100) {
        1 << 22 // as good as to completion, but a thread that spins is still preempted
    } else {
        let k = g.saturating_sub(c.t.draw(g + 1));
        (1u64 << k) + c.t.draw(1u64 << k)
    };
    sched().gap[me()] = n;
    LEFT.with(|l| l.set(n));
    MODE.with(|m| m.set(2));
}
fn wait_turn(i: usize) {
    while TURN[i].swap(0, SeqCst) == 0 {
        raw_wait(&TURN[i], 0);
    }
}
fn give_turn(i: usize) {
    TURN[i].store(1, SeqCst);
    raw_wake(&TURN[i]);
}
/// Chooses who runs next; index 0 of the tape keeps the current thread running.
fn choose() -> Option<usize> {
    let s = sched();
    s.clock += 1;
    let avail = |s: &Sched, stalls: bool| -> Vec<usize> {
        let mut v: Vec<usize> = (1..MAXT).filter(|i| s.st[*i] == St::Ready && (!stalls || s.stalled_until[*i] <= s.clock)).collect();
        if let Some(p) = v.iter().position(|x| *x == s.cur) {
            v.swap(0, p);
        }
        v
    };
    let mut v = avail(s, true);
    if v.is_empty() {
        v = avail(s, false);
    }
    if v.is_empty() {
        // fire the earliest timed wait, if any
        let mut best: Option<(u64, usize)> = None;
        for i in 1..MAXT {
            if let St::Blocked(_, d) = s.st[i] {
                if d != 0 && best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
        }
        if let Some((d, i)) = best {
            s.clock = s.clock.max(d);
            s.st[i] = St::Ready;
            return Some(i);
        }
        return None;
    }
    Some(v[ctx().unwrap().t.below(v.len())])
}
fn switch_from(i: usize) {
    match choose() {
        Some(n) => {
            if n != i {
                let s = sched();
                s.cur = n;
                s.switches += 1;
                ctx().unwrap().sig = crate::tape::mix(ctx().unwrap().sig ^ ((n as u64) << 32 | s.switches));
                give_turn(n);
                wait_turn(i);
            }
        }
        None => die("deadlock", "every simulated thread is blocked"),
    }
}
fn preempt() {
    let i = me();
    MODE.with(|m| m.set(0));
    let s = sched();
    let c = ctx().unwrap();
    c.hit("preemptions");
    s.work += s.gap[i].saturating_sub(LEFT.with(|l| l.get()));
    s.preemptions += 1;
    c.max("max_scheduled_work", s.work);
    if s.work > WORK {
        die("no-progress", "threads keep running without finishing");
    }
    if s.stalls > 0 && c.t.chance(10 * s.stalls as u64) {
        let d = 1 + c.t.draw(40);
        s.stalled_until[i] = s.clock + d;
        c.fault("thread stalls");
    }
    switch_from(i);
    next_gap();
}
/// A voluntary scheduling point (callbacks into caller code).
pub fn yield_point() {
    if ACTIVE.load(SeqCst) && me() != 0 && MODE.with(|m| m.get()) == 2 {
        preempt();
    }
}
/// Pause preemption while harness code runs on a simulated thread.
pub fn unpreempted<T>(f: impl FnOnce() -> T) -> T {
    let m = MODE.with(|m| m.replace(0));
    let l = LEFT.with(|l| l.replace(WORK));
    let r = f();
    LEFT.with(|x| x.set(l));
    MODE.with(|x| x.set(m));
    r
}
static EXIT_KEY: AtomicU32 = AtomicU32::new(0);
static ARRIVED: AtomicU32 = AtomicU32::new(0);
/// Called by the C library when a thread ends, after the destructors of its thread-local values. Other keys
/// may have destructors of their own: the turn is passed on in the third round.
unsafe extern "C" fn thread_ends(v: *mut libc::c_void) {
    if (v as usize) < 3 {
        libc::pthread_setspecific(EXIT_KEY.load(SeqCst), (v as usize + 1) as *const _);
        return;
    }
    let i = me();
    if i == 0 {
        return;
    }
    MODE.with(|m| m.set(0));
    SIM.with(|s| s.set(0));
    LEFT.with(|l| l.set(WORK));
    let s = sched();
    s.st[i] = St::Done;
    if (1..MAXT).all(|j| matches!(s.st[j], St::Done | St::Absent)) {
        give_turn(0);
    } else {
        match choose() {
            Some(x) => {
                s.cur = x;
                s.switches += 1;
                give_turn(x);
            }
            None => die("deadlock", "the remaining simulated threads are all blocked"),
        }
    }
}
/// Run the bodies as simulated threads; returns their results and the number of switches.
pub fn run_threads<T: Send + 'static>(gap_log2: u32, at_shared: u32, stalls: u32, bodies: Vec<Box<dyn FnOnce() -> T + Send>>) -> (Vec<Option<T>>, u64) {
    let n = bodies.len();
    assert!(n < MAXT);
    {
        let s = sched();
        *s = Sched { st: [St::Absent; MAXT], cur: 0, prev_gap: gap_log2, at_shared, shared_left: 3000, stalls, stalled_until: [0; MAXT], switches: 0, clock: 0, gap: [0; MAXT], work: 0, preemptions: 0 };
        for i in 1..=n {
            s.st[i] = St::Ready;
            TURN[i].store(0, SeqCst);
        }
    }
    TURN[0].store(0, SeqCst);
    ARRIVED.store(0, SeqCst);
    let mut hs = Vec::new();
    for (k, b) in bodies.into_iter().enumerate() {
        let i = k + 1;
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            // the destructors of thread-local values still run as part of the simulated thread
            unsafe { libc::pthread_setspecific(EXIT_KEY.load(SeqCst), 1 as *const _) };
            ARRIVED.store(i as u32, SeqCst);
            raw_wake(&ARRIVED);
            wait_turn(i);
            SIM.with(|s| s.set(i as u32));
            next_gap();
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).ok()
        }).expect("spawn"));
        // one after the other, so that what starting a thread allocates is where it was the last time
        loop {
            let v = ARRIVED.load(SeqCst);
            if v == i as u32 {
                break;
            }
            raw_wait(&ARRIVED, v);
        }
    }
    ACTIVE.store(true, SeqCst);
    let first = choose().unwrap();
    sched().cur = first;
    give_turn(first);
    wait_turn(0);
    ACTIVE.store(false, SeqCst);
    let r = hs.into_iter().map(|h| h.join().ok().flatten()).collect();
    (r, sched().switches)
}

// ---- interposed system interface ------------------------------------------------------------------------------
// std's locks reach the kernel through libc's `syscall`; the executable's definition takes precedence.
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
static FAKE_RANDOM: AtomicU64 = AtomicU64::new(0x1234_5678);
pub fn reseed(x: u64) {
    FAKE_RANDOM.store(x, SeqCst);
}
pub static CLOCK_NS: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
pub static IN_CHILD: AtomicBool = AtomicBool::new(false);
unsafe fn fake_random(p: usize, n: usize) {
    for i in 0..n {
        let x = FAKE_RANDOM.fetch_add(0x9e37_79b9, Relaxed);
        *((p + i) as *mut u8) = crate::tape::mix(x) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if IN_CHILD.load(Relaxed) {
        if n == libc::SYS_getrandom {
            fake_random(a, b);
            return b as libc::c_long;
        }
        let i = me();
        if n == libc::SYS_futex && i != 0 && ACTIVE.load(SeqCst) {
            let op = (b as i32) & 0x7f;
            let s = sched();
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let m = MODE.with(|m| m.replace(0));
                let l = LEFT.with(|l| l.replace(WORK));
                let w = (a as *const AtomicU32).as_ref().unwrap();
                let ret = if w.load(SeqCst) != c as u32 {
                    set_errno(libc::EAGAIN);
                    -1
                } else {
                    let dl = if d != 0 { s.clock + 50 } else { 0 };
                    s.st[i] = St::Blocked(a, dl);
                    ctx().unwrap().hit("lock waits");
                    switch_from(i);
                    if let St::Blocked(..) = s.st[i] {
                        s.st[i] = St::Ready;
                    }
                    0
                };
                LEFT.with(|x| x.set(l));
                MODE.with(|x| x.set(m));
                return ret;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                let mut k = 0;
                for j in 1..MAXT {
                    if k < c as i32 as i64 as usize {
                        if let St::Blocked(x, _) = s.st[j] {
                            if x == a {
                                s.st[j] = St::Ready;
                                k += 1;
                            }
                        }
                    }
                }
                return k as libc::c_long;
            }
        }
    }
    if IN_CHILD.load(Relaxed) && n == libc::SYS_futex && !ACTIVE.load(SeqCst) && d == 0 {
        // outside the scheduler the harness never holds a lock while it waits for another thread
        let op = (b as i32) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let limit = libc::timespec { tv_sec: 5, tv_nsec: 0 };
            let mut r = 0;
            for _ in 0..3 {
                // more than once: the machine may have been stopped meanwhile
                r = raw6(n as i64, a, (b & !0x7f) | libc::FUTEX_WAIT as usize, c, &limit as *const _ as usize, 0, 0);
                if r != -(libc::ETIMEDOUT as isize) {
                    break;
                }
            }
            if r == -(libc::ETIMEDOUT as isize) {
                die("deadlock", "a lock is waited for that nobody is going to release");
            }
            if r < 0 {
                set_errno(-r as i32);
                return -1;
            }
            return r as libc::c_long;
        }
    }
    let r = raw6(n as i64, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r as libc::c_long
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    yield_point();
    0
}
/// The environment: 0 is the real one; in any other, variables that nobody set have values, and those that are set may not.
pub static SETTINGS: AtomicU64 = AtomicU64::new(0);
static ANSWERS: [&[u8]; 10] = [b"1\0", b"0\0", b"\0", b"true\0", b"off\0", b"/nonexistent\0", b"8\0", b"tr_TR.UTF-8\0", b"18446744073709551616\0", b"trace\0"];
extern "C" {
    static environ: *const *const libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let s = SETTINGS.load(Relaxed);
    // what the standard library itself goes by stays as it is
    if s != 0 && IN_CHILD.load(Relaxed) && !n.starts_with(b"RUST_") {
        let h = n.iter().fold(s, |h, b| crate::tape::mix(h ^ *b as u64));
        return if h % 4 == 0 { std::ptr::null() } else { ANSWERS[(h >> 8) as usize % ANSWERS.len()].as_ptr() as *const libc::c_char };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::ffi::CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && v[n.len()] == b'=' && v.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
/// The process has the same number in every execution.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if IN_CHILD.load(Relaxed) {
        return 4242;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: usize, n: usize, fl: u32) -> isize {
    if IN_CHILD.load(Relaxed) {
        fake_random(p, n);
        return n as isize;
    }
    let r = raw6(libc::SYS_getrandom as i64, p, n, fl as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if IN_CHILD.load(Relaxed) {
        // simulated clock: advances with every reading
        let t = CLOCK_NS.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime as i64, id as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}
