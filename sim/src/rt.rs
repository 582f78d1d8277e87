//! The simulator: choices, token scheduler, simulated clock, and the interposed process environment.
//!
//! Exactly one simulated task executes at any time; which one is decided here.  A task gives up the
//! token only at a seam (basic-block callback, sink call, futex, sleep, exit), and every decision is
//! drawn from `Run::ch`, so a run is a function of its choices and the code under test.
use crate::stats::{self, add, C};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU8, Ordering};

// ---------------------------------------------------------------- choices

pub enum Mode {
    Rand(u64),
    Replay(Vec<u64>, usize),
}
pub struct Choices {
    pub mode: Mode,
    pub rec: Vec<u64>,
    pub share: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices { mode: Mode::Rand(seed), rec: vec![], share: false }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Choices { mode: Mode::Replay(v, 0), rec: vec![], share: false }
    }
    /// A number below n; 0 is always the simplest alternative.
    fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Rand(s) => {
                *s = s.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                z ^= z >> 31;
                if n == u64::MAX { z } else { ((z as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == u64::MAX { x } else { x % n }
            }
        };
        if self.share {
            let s = stats::sh();
            let i = s.nrec.load(Ordering::Relaxed) as usize;
            if i < s.rec.len() {
                s.rec[i].store(v, Ordering::Relaxed);
                s.nrec.store(i as u64 + 1, Ordering::Relaxed);
            }
        }
        v
    }
}

// ---------------------------------------------------------------- run state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    New,
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Stalled,
    Done,
}
struct Task {
    go: AtomicU32,
    st: St,
    timed_out: bool,
    handle: Option<std::thread::JoinHandle<()>>,
    /// The task of the world on whose behalf this one runs: itself, or the caller of the call that started a thread.
    root: usize,
    /// The system's name of a thread that diffy has started, and what that thread has cost.
    native: Option<u64>,
    detached: bool,
    steps: u64,
    live: i64,
    peak: i64,
}

pub struct Run {
    pub ch: Choices,
    pub digest: u64,
    pub sched: u64,
    pub trace: Option<Vec<String>>,
    pub viol: Option<(String, String)>,
    pub now: u64,
    pub skew: i64,
    pub nfaults: u64,
    pub switches: u64,
    pub max_switches: u64,
    pub can_stall: bool,
    /// Step limit of the following calls, and the cost of the last one.
    pub limit: u64,
    pub last: Cost,
    /// Bytes of stack that the following calls have (0: what the thread has).
    pub room: usize,
    pub serial: u32,
    pub rng_env: u64,
    pub surroundings: u64,
    /// Steps of all calls so far, sixteen bytes moved counting as one.
    pub spent: u64,
    tasks: Vec<Box<Task>>,
    cur: usize,
    ctl: AtomicU32,
}

static mut RUN: *mut Run = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn run() -> &'static mut Run {
    unsafe { &mut *RUN }
}
pub fn has_run() -> bool {
    unsafe { !RUN.is_null() }
}

const NONE: usize = usize::MAX;
thread_local! {
    static CUR: Cell<usize> = const { Cell::new(NONE) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static SWITCH_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BUDGET: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// The deepest stack pointer of the call so far and the deepest it may have.
    static LOW: Cell<usize> = const { Cell::new(0) };
    static FLOOR: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

/// Payload that ends a run.
pub struct SimAbort;
/// Payload of a panic injected into a sink.
pub struct SimPanic;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let a = ACTIVE.with(|a| a.replace(false));
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if CUR.with(|c| c.get()) == NONE {
            eprintln!("harness panic: {}{}", msg, loc);
        }
        PANIC_MSG.with(|p| p.set(Some(format!("{}{}", msg, loc))));
        ACTIVE.with(|x| x.set(a));
    }));
}

// ---------------------------------------------------------------- API for the worlds

pub fn ch(n: u64) -> u64 {
    run().ch.draw(n)
}
pub fn chz(n: usize) -> usize {
    ch(n as u64) as usize
}
/// true with probability num/den; false is the simple alternative.
pub fn coin(num: u64, den: u64) -> bool {
    num > 0 && ch(den) >= den - num.min(den)
}
pub fn between(a: usize, b: usize) -> usize {
    a + chz(b - a + 1)
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[chz(v.len())]
}
pub fn ev(tag: u64, x: u64) {
    let r = run();
    r.digest = mix(r.digest ^ mix(tag.wrapping_mul(0x51_7c_c1_b7_27_22_0a_95) ^ x));
}
pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn ev_bytes(tag: u64, b: &[u8]) {
    ev(tag, digest(b));
}
pub fn fault(c: C) {
    add(c, 1);
    let r = run();
    r.nfaults += 1;
    ev(1000 + c as u64, 1);
    note(|| format!("fault {}", &stats::NAMES[c as usize][2..]));
}
pub fn probe(c: C) {
    add(c, 1);
}
pub fn note<F: FnOnce() -> String>(f: F) {
    let r = run();
    if r.trace.is_some() {
        let tracking = TRACK.with(|t| t.replace(false));
        let s = f();
        let c = CUR.with(|c| c.get());
        let n = r.tasks.len();
        let t = r.trace.as_mut().unwrap();
        if t.len() < 5000 {
            t.push(if n > 1 && c != NONE { format!("[task {}] {}", c, s) } else { s });
        }
        TRACK.with(|t| t.set(tracking));
    }
}
pub fn violate(class: &str, msg: String) -> ! {
    let r = run();
    if r.viol.is_none() {
        note(|| format!("VIOLATED {}: {}", class, msg));
        r.viol = Some((class.to_string(), msg));
    }
    std::panic::resume_unwind(Box::new(SimAbort));
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { $crate::rt::violate($class, format!($($a)*)); } };
}
pub fn advance(ns: u64) {
    let r = run();
    r.now = r.now.saturating_add(ns);
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(600) {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    if b.len() > 600 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    format!("\"{}\"", s)
}

// ---------------------------------------------------------------- entering the code under test

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub steps: u64,
    /// Bytes moved, copied and compared by the system library on behalf of the call.
    pub moved: u64,
    pub peak: u64,
    /// Bytes of stack used, measured when `room` is set.
    pub deep: usize,
}
pub const STEP_LIMIT: u64 = 600_000_000;
pub const MEM_LIMIT: i64 = 1 << 30;

pub enum Caught {
    Injected,
    Bug(String),
}

/// Runs code of diffy as the current simulated task.  A panic of diffy itself is returned as `Bug`.
pub fn enter<R>(f: impl FnOnce() -> R) -> (Result<R, Caught>, Cost) {
    enter_limited(run().limit, f)
}
pub fn enter_limited<R>(limit: u64, f: impl FnOnce() -> R) -> (Result<R, Caught>, Cost) {
    add(C::api_calls, 1);
    let s0 = STEPS.with(|s| s.get());
    let m0 = MOVED.with(|m| m.get());
    LIMIT.with(|l| l.set(s0 + limit));
    BUDGET.with(|b| b.set(limit));
    if run().tasks.len() > 1 && SWITCH_AT.with(|s| s.get()) == u64::MAX {
        new_quantum();
    }
    set_next();
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    let top = sp();
    let room = run().room;
    if room > 0 {
        LOW.with(|l| l.set(top));
        FLOOR.with(|l| l.set(top - room));
    }
    ACTIVE.with(|a| a.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(false));
    let low = LOW.with(|l| l.replace(0));
    let deep = if room > 0 { top - low } else { 0 };
    let me = CUR.with(|c| c.get());
    for (i, t) in run().tasks.iter_mut().enumerate() {
        if t.root == me && i != me && t.st == St::Done {
            charge(t);
        }
    }
    let steps = STEPS.with(|s| s.get()) - s0;
    let peak = PEAK.with(|p| p.get()).max(0) as u64;
    let moved = MOVED.with(|m| m.get()) - m0;
    add(C::ticks, steps);
    run().now += steps;
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => Err(classify(p)),
    };
    let cost = Cost { steps, moved, peak, deep };
    run().last = cost;
    run().spent += steps + moved / 16;
    (r, cost)
}
fn classify(p: Box<dyn Any + Send>) -> Caught {
    if p.is::<SimAbort>() {
        resume_unwind(p);
    }
    if p.is::<SimPanic>() {
        return Caught::Injected;
    }
    Caught::Bug(PANIC_MSG.with(|m| m.take()).unwrap_or_else(|| "panic".into()))
}
/// Harness code running inside a call of diffy (a sink): no ticks, no preemption.
pub struct Outside(bool);
impl Outside {
    pub fn new() -> Self {
        Outside(ACTIVE.with(|a| a.replace(false)))
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        ACTIVE.with(|a| a.set(self.0))
    }
}

// ---------------------------------------------------------------- bulk memory operations

// The linker sends the memory functions of the system library through these (see build.sh), which meter the
// work that basic blocks of diffy do not show.
thread_local! {
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
fn moved(n: usize) {
    if ACTIVE.with(|a| a.get()) {
        MOVED.with(|m| m.set(m.get() + n as u64));
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    moved(n);
    __real_memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    __real_memcmp(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    __real_bcmp(a, b, n)
}

// ---------------------------------------------------------------- clock ticks and preemption

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    static mut N: u32 = 0;
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        N += 1;
        *a = N;
        a = a.add(1);
    }
    NGUARDS.store(N, Ordering::Relaxed);
}
pub static NGUARDS: AtomicU32 = AtomicU32::new(0);
static mut COVP: *const AtomicU8 = std::ptr::null();
pub fn init_cov() {
    unsafe { COVP = stats::sh().cov.as_ptr() }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE.with(|a| a.get()) {
        return;
    }
    unsafe {
        let c = &*COVP.add(*g as usize & (stats::COV - 1));
        if c.load(Ordering::Relaxed) == 0 {
            c.store(1, Ordering::Relaxed);
        }
    }
    let at = sp();
    if at < LOW.with(|l| l.get()) {
        LOW.with(|l| l.set(at));
        if at < FLOOR.with(|l| l.get()) {
            overflow();
        }
    }
    let s = STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        v
    });
    if s >= NEXT.with(|n| n.get()) {
        slow(s);
    }
}
#[inline(always)]
fn sp() -> usize {
    let v: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) v, options(nomem, nostack, preserves_flags)) }
    v
}
/// Where only the stack is judged, a call that takes very long just ends the run.
const TOO_LONG: &str = "too long";
#[cold]
#[inline(never)]
fn overflow() {
    let _o = Outside::new();
    let r = run();
    if r.viol.is_none() {
        r.viol = Some(("stack".into(), format!("a call used more than {} bytes of stack", r.room)));
    }
    abandon();
}
fn set_next() {
    NEXT.with(|n| n.set(LIMIT.with(|l| l.get()).min(SWITCH_AT.with(|s| s.get()))));
}
#[cold]
#[inline(never)]
fn slow(s: u64) {
    let _o = Outside::new();
    if s >= LIMIT.with(|l| l.get()) {
        let r = run();
        if r.viol.is_none() {
            let class = if r.room != 0 { TOO_LONG } else { "runaway" };
            r.viol = Some((class.into(), format!("a call did not finish within {} simulated steps", BUDGET.with(|b| b.get()))));
        }
        abandon();
    }
    fault(C::f_preempt);
    let r = run();
    let me = CUR.with(|c| c.get());
    if r.can_stall && r.tasks[me].root == me && coin(1, 6) {
        fault(C::f_stall_task);
        note(|| format!("stalled at step {} until the others finish", s));
        r.tasks[me].st = St::Stalled;
        r.can_stall = false;
        switch_away();
        probe(C::p_blocked_then_resumed);
    } else {
        yield_to_any();
    }
    new_quantum();
    set_next();
}
fn new_quantum() {
    let r = run();
    let s = STEPS.with(|s| s.get());
    let q = if r.switches >= r.max_switches {
        u64::MAX
    } else {
        match ch(6) {
            0 => u64::MAX,
            1 => 1 + ch(8),
            2 => 1 + ch(64),
            3 => 1 + ch(512),
            4 => 1 + ch(4096),
            _ => 1 + ch(40000),
        }
    };
    // a call whose own threads are at work must not keep them from it for ever
    let me = CUR.with(|c| c.get());
    let q = if has_kin(me) { q.min(1 << 8) } else { q };
    SWITCH_AT.with(|x| x.set(s.saturating_add(q)));
}
fn has_kin(me: usize) -> bool {
    let t = &run().tasks;
    me < t.len() && t.iter().enumerate().any(|(i, x)| i != me && x.root == t[me].root && x.st != St::Done)
}

// ---------------------------------------------------------------- token scheduler

fn runnable() -> Vec<usize> {
    run().tasks.iter().enumerate().filter(|(_, t)| matches!(t.st, St::New | St::Runnable)).map(|(i, _)| i).collect()
}
/// The current task stays runnable; somebody (perhaps itself) continues.
fn yield_to_any() {
    let me = CUR.with(|c| c.get());
    let mut v = runnable();
    // whoever may be waiting for a thread of its own call, without saying so, lets somebody else go on
    if v.len() > 1 && has_kin(me) {
        v.retain(|x| *x != me);
    }
    let nx = v[chz(v.len())];
    if nx != me {
        hand_to(nx, me);
    }
}
/// The current task is not runnable; somebody else continues, or the controller sorts it out.
fn switch_away() {
    let me = CUR.with(|c| c.get());
    let v = runnable();
    if v.is_empty() {
        let r = run();
        r.tasks[me].go.store(0, Ordering::SeqCst);
        r.ctl.store(1, Ordering::SeqCst);
        sys::futex_wake(&r.ctl);
        wait_go(me);
    } else {
        hand_to(v[chz(v.len())], me);
    }
}
fn hand_to(nx: usize, me: usize) {
    let r = run();
    r.switches += 1;
    add(C::switches, 1);
    let s = STEPS.with(|s| s.get());
    r.sched = mix(r.sched ^ mix((nx as u64) << 48 ^ s));
    ev(2, (nx as u64) << 48 ^ s);
    note(|| format!("switch to task {}", nx));
    r.tasks[me].go.store(0, Ordering::SeqCst);
    resume(nx);
    wait_go(me);
}
fn resume(nx: usize) {
    let r = run();
    r.cur = nx;
    let t = &r.tasks[nx];
    t.go.store(1, Ordering::SeqCst);
    sys::futex_wake(&t.go);
}
fn wait_go(me: usize) {
    let g: *const AtomicU32 = &run().tasks[me].go;
    let g = unsafe { &*g };
    while g.load(Ordering::SeqCst) == 0 {
        sys::futex_wait(g, 0);
    }
    if run().viol.is_some() {
        abandon();
    }
    let t = &mut run().tasks[me];
    if t.st == St::New {
        t.st = St::Runnable;
    }
}
/// This thread never runs again; the controller ends the run.
fn abandon() -> ! {
    let r = run();
    r.ctl.store(1, Ordering::SeqCst);
    sys::futex_wake(&r.ctl);
    let dead = AtomicU32::new(0);
    loop {
        sys::futex_wait(&dead, 0);
    }
}

/// A seam reached by harness code on behalf of a task (a sink call, a delay).
pub fn yield_point() {
    let r = run();
    if r.tasks.len() > 1 && r.switches < r.max_switches && coin(1, 3) {
        yield_to_any();
    }
}

/// Other threads may look at the table while it grows, so it never moves.
const TASKS: usize = 4096;
fn add_task(root: Option<usize>) -> Option<usize> {
    let r = run();
    if r.tasks.capacity() == 0 {
        r.tasks.reserve_exact(TASKS);
    }
    let free = |t: &Task, i: usize| t.st == St::Done && t.root != i && t.native.is_none() && t.steps == 0;
    let i = if root.is_some() { (0..r.tasks.len()).find(|i| free(&r.tasks[*i], *i)) } else { None };
    let i = i.unwrap_or(r.tasks.len());
    if i == TASKS {
        return None;
    }
    let (st, root) = (St::New, root.unwrap_or(i));
    if i == r.tasks.len() {
        let go = AtomicU32::new(0);
        r.tasks.push(Box::new(Task { go, st, timed_out: false, handle: None, root, native: None, detached: false, steps: 0, live: 0, peak: 0 }));
    } else {
        let t = &mut r.tasks[i];
        t.go.store(0, Ordering::SeqCst);
        (t.st, t.root, t.timed_out, t.detached) = (st, root, false, false);
    }
    Some(i)
}
/// Runs the closures as simulated tasks until all have finished or the run is over.
pub fn run_tasks(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let r = run();
    r.tasks.clear();
    for _ in &fs {
        add_task(None);
    }
    r.ctl.store(0, Ordering::SeqCst);
    for (i, f) in fs.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                wait_go(i);
                CUR.with(|c| c.set(i));
                let e = catch_unwind(AssertUnwindSafe(f));
                CUR.with(|c| c.set(NONE));
                let r = run();
                if let Err(p) = e {
                    if !p.is::<SimAbort>() && r.viol.is_none() {
                        let m = PANIC_MSG.with(|m| m.take()).unwrap_or_default();
                        r.viol = Some(("harness".into(), format!("panic outside the code under test: {}", m)));
                    }
                }
                r.tasks[i].st = St::Done;
                r.ctl.store(1, Ordering::SeqCst);
                sys::futex_wake(&r.ctl);
            })
            .expect("spawn");
        run().tasks[i].handle = Some(h);
    }
    loop {
        let r = run();
        if r.viol.is_some() {
            return;
        }
        let mut ended = false;
        for t in r.tasks.iter_mut() {
            if t.st == St::Done {
                if let Some(h) = t.handle.take() {
                    let _ = h.join();
                }
                ended |= t.native.is_some();
                if t.detached {
                    t.native.take().map(|n| unsafe { real_join(n) });
                }
            }
        }
        if ended {
            // whoever waits for a thread looks again
            for t in r.tasks.iter_mut() {
                if matches!(t.st, St::Blocked { addr: JOINING, .. }) {
                    t.st = St::Runnable;
                }
            }
        }
        if r.tasks.iter().all(|t| t.st == St::Done) {
            return;
        }
        let mut v = runnable();
        // a thread that waits for work nobody will give it any more is left alone
        if v.is_empty() && r.tasks.iter().enumerate().all(|(i, t)| t.st == St::Done || (t.root != i && matches!(t.st, St::Blocked { deadline: u64::MAX, .. }))) {
            std::mem::forget(std::mem::take(&mut r.tasks));
            return;
        }
        if v.is_empty() {
            let blocked: Vec<usize> =
                (0..r.tasks.len()).filter(|i| matches!(r.tasks[*i].st, St::Blocked { .. })).collect();
            let stalled: Vec<usize> = (0..r.tasks.len()).filter(|i| r.tasks[*i].st == St::Stalled).collect();
            let timed = blocked
                .iter()
                .filter_map(|i| match r.tasks[*i].st {
                    St::Blocked { deadline, .. } if deadline != u64::MAX => Some((deadline, *i)),
                    _ => None,
                })
                .min();
            if let Some((d, i)) = timed {
                r.now = r.now.max(d);
                r.tasks[i].st = St::Runnable;
                r.tasks[i].timed_out = true;
            } else if let (Some(s), Some(b)) =
                (stalled.first(), blocked.iter().find(|b| stalled.iter().all(|s| r.tasks[*s].root != r.tasks[**b].root)))
            {
                r.viol = Some(("blocked".into(), format!("task {} waits for task {}, which is stalled inside a call", b, s)));
                return;
            } else if !stalled.is_empty() {
                r.tasks[stalled[0]].st = St::Runnable;
            } else {
                r.viol = Some(("deadlock".into(), format!("tasks {:?} wait for each other", blocked)));
                return;
            }
            v = runnable();
        }
        let nx = v[chz(v.len())];
        if r.tasks.len() > 1 {
            ev(3, nx as u64);
            r.sched = mix(r.sched ^ mix(0x7777 ^ nx as u64));
            note(|| format!("run task {}", nx));
        }
        r.ctl.store(0, Ordering::SeqCst);
        resume(nx);
        while r.ctl.load(Ordering::SeqCst) == 0 {
            sys::futex_wait(&r.ctl, 0);
        }
    }
}

pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub digest: u64,
    pub sched: u64,
    pub nfaults: u64,
    pub trace: Vec<String>,
}

/// One simulated execution.  `setup` runs first, outside any task (it may fork oracles).
pub fn execute(choices: Choices, trace: bool, world: fn()) -> Outcome {
    let mut r = Box::new(Run {
        ch: choices,
        digest: 0,
        sched: 0,
        trace: if trace { Some(vec![]) } else { None },
        viol: None,
        now: 1_000_000_000,
        skew: 0,
        nfaults: 0,
        switches: 0,
        max_switches: 300,
        can_stall: false,
        limit: STEP_LIMIT,
        last: Cost { steps: 0, moved: 0, peak: 0, deep: 0 },
        room: 0,
        serial: 0,
        rng_env: 0,
        surroundings: 0,
        spent: 0,
        tasks: vec![],
        cur: 0,
        ctl: AtomicU32::new(0),
    });
    ledger_stop();
    unsafe { RUN = &mut *r }
    r.rng_env = r.ch.draw(u64::MAX);
    r.surroundings = mix(r.rng_env ^ 0x5a11);
    let e = catch_unwind(AssertUnwindSafe(world));
    if let Err(p) = e {
        if !p.is::<SimAbort>() && r.viol.is_none() {
            let m = PANIC_MSG.with(|m| m.take()).unwrap_or_default();
            r.viol = Some(("harness".into(), format!("panic in the world driver: {}", m)));
        }
    }
    add(C::runs, 1);
    add(C::sim_ns, r.now - 1_000_000_000);
    let o = Outcome {
        viol: r.viol.take(),
        digest: r.digest,
        sched: r.sched,
        nfaults: r.nfaults,
        trace: r.trace.take().unwrap_or_default(),
    };
    unsafe { RUN = std::ptr::null_mut() }
    if o.viol.as_ref().is_some_and(|v| v.0 == TOO_LONG) {
        std::mem::forget(r);
        return Outcome { viol: None, ..o };
    }
    // After a violation abandoned threads may still hold references into the run.
    if o.viol.is_some() {
        std::mem::forget(r);
    }
    o
}

/// Runs `f` as the only simulated task (fresh thread: fresh hash seeds) and returns its result.
pub fn phase<R: 'static>(f: impl FnOnce() -> R + 'static) -> R {
    struct Cell2<R>(std::sync::Arc<std::sync::Mutex<Option<R>>>);
    unsafe impl<R> Send for Cell2<R> {}
    struct F<G>(G);
    unsafe impl<G> Send for F<G> {}
    let slot = Cell2(std::sync::Arc::new(std::sync::Mutex::new(None)));
    let s2 = Cell2(slot.0.clone());
    let f = F(f);
    let body = move || {
        let (f, s2) = (f, s2);
        let r = (f.0)();
        *s2.0.lock().unwrap() = Some(r);
    };
    tasks(vec![Box::new(body)]);
    let r = slot.0.lock().unwrap().take();
    r.expect("phase result")
}
/// `run_tasks`, ending the run if one of them found a violation.
pub fn tasks(fs: Vec<Box<dyn FnOnce() + Send>>) {
    run_tasks(fs);
    if run().viol.is_some() {
        resume_unwind(Box::new(SimAbort));
    }
    run().tasks.clear();
}

// ---------------------------------------------------------------- interposed environment

fn in_task() -> bool {
    CUR.with(|c| c.get()) != NONE
}
fn env_next() -> u64 {
    let r = run();
    r.rng_env = r.rng_env.wrapping_add(0x9e3779b97f4a7c15);
    mix(r.rng_env)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if !in_task() {
        let r = sys::raw(sys::SYS_GETRANDOM, b as i64, n as i64, f as i64, 0, 0, 0);
        if r < 0 {
            sys::set_errno(-r as i32);
            return -1;
        }
        return r as isize;
    }
    let _o = Outside::new();
    add(C::f_hash_seed, 1);
    for i in 0..n {
        *b.add(i) = env_next() as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if !in_task() {
        let r = sys::raw(sys::SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0);
        if r < 0 {
            sys::set_errno(-r as i32);
            return -1;
        }
        return 0;
    }
    let _o = Outside::new();
    let r = run();
    fault(C::f_clock_read);
    if coin(1, 4) {
        fault(C::f_clock_jump);
        r.now += [1_000_000u64, 1_000_000_000, 3600_000_000_000, 365 * 86400_000_000_000][chz(4)];
        if id == 0 && coin(1, 2) {
            r.skew -= 7200_000_000_000;
        }
    }
    let steps = STEPS.with(|s| s.get());
    let mut t = r.now + steps;
    if id == 0 {
        t = (1_700_000_000_000_000_000i64 + t as i64 + r.skew) as u64;
    }
    *ts = (t / 1_000_000_000) as i64;
    *ts.add(1) = (t % 1_000_000_000) as i64;
    0
}

/// The simulated process environment: every variable, terminal and processor count has one value for the
/// whole process, drawn from its seed.
fn surroundings(what: &[u8]) -> u64 {
    let _o = Outside::new();
    add(C::f_env_read, 1);
    mix(digest(what) ^ run().surroundings)
}
extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let k = std::slice::from_raw_parts(name, n);
    if in_task() && !k.starts_with(b"RUST_") {
        let v = surroundings(k);
        const V: [&str; 18] = [
            "0\0", "1\0", "2\0", "10\0", "65536\0", "\0", "true\0", "false\0", "always\0", "never\0", "auto\0", "dumb\0", "xterm-256color\0", "truecolor\0", "C\0", "en_US.UTF-8\0", "a\0",
            "/nowhere\0",
        ];
        return if v % 5 < 2 { std::ptr::null() } else { V[(v / 5 % 18) as usize].as_ptr() };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let p = *e;
        let mut i = 0;
        while i < n && *p.add(i) == k[i] {
            i += 1;
        }
        if i == n && *p.add(n) == b'=' {
            return p.add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if !in_task() {
        return 0;
    }
    let v = surroundings(&[b't', fd as u8]) & 1;
    if v == 0 {
        sys::set_errno(25);
    }
    v as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if !in_task() {
        let r = sys::raw(204, pid as i64, n as i64, set as i64, 0, 0, 0);
        if r < 0 {
            sys::set_errno(-r as i32);
            return -1;
        }
        for i in r as usize..n {
            *set.add(i) = 0;
        }
        return 0;
    }
    let v = surroundings(b"processors");
    for i in 0..n {
        *set.add(i) = 0;
    }
    for i in 0..1 + (v % 64).min(v / 64 % 64) as usize {
        if i / 8 < n {
            *set.add(i / 8) |= 1 << (i % 8);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !in_task() {
        return sys::raw(39, 0, 0, 0, 0, 0, 0) as i32;
    }
    2 + (surroundings(b"pid") % 4_000_000) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, rq: *const i64, rm: *mut i64) -> i32 {
    if !in_task() {
        return -sys::raw(sys::SYS_CLOCK_NANOSLEEP, id as i64, fl as i64, rq as i64, rm as i64, 0, 0) as i32;
    }
    let _o = Outside::new();
    run().now += (*rq as u64) * 1_000_000_000 + *rq.add(1) as u64;
    yield_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const i64, rm: *mut i64) -> i32 {
    let e = clock_nanosleep(1, 0, rq, rm);
    if e != 0 {
        sys::set_errno(e);
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_task() {
        let _o = Outside::new();
        if has_kin(CUR.with(|c| c.get())) {
            yield_to_any();
        } else {
            yield_point();
        }
        return 0;
    }
    sys::raw(24, 0, 0, 0, 0, 0, 0);
    0
}

// Threads that diffy starts during a call become simulated tasks of that call.
const JOINING: usize = 1;
extern "C" {
    fn dlsym(h: *const u8, name: *const u8) -> *const u8;
}
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Adopted {
    task: usize,
    track: bool,
    limit: u64,
    start: Start,
    arg: *mut u8,
}
unsafe fn real_create(t: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let f = dlsym(-1isize as *const u8, "pthread_create\0".as_ptr());
    let f: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(f);
    f(t, attr, start, arg)
}
unsafe fn real_join(t: u64) -> i32 {
    let f = dlsym(-1isize as *const u8, "pthread_join\0".as_ptr());
    let f: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(f);
    f(t, std::ptr::null_mut())
}
extern "C" fn adopted(a: *mut u8) -> *mut u8 {
    let a = unsafe { *Box::from_raw(a as *mut Adopted) };
    wait_go(a.task);
    CUR.with(|c| c.set(a.task));
    TRACK.with(|t| t.set(a.track));
    LIMIT.with(|l| l.set(a.limit));
    BUDGET.with(|l| l.set(a.limit));
    new_quantum();
    set_next();
    ACTIVE.with(|x| x.set(true));
    (a.start)(a.arg);
    ACTIVE.with(|x| x.set(false));
    TRACK.with(|t| t.set(false));
    CUR.with(|c| c.set(NONE));
    let r = run();
    let t = &mut r.tasks[a.task];
    t.steps = STEPS.with(|s| s.get());
    t.live = LIVE.with(|l| l.get());
    t.peak = PEAK.with(|l| l.get());
    add(C::ticks, t.steps);
    note(|| format!("task {}, a thread of task {}, has ended", a.task, r.tasks[a.task].root));
    r.tasks[a.task].st = St::Done;
    r.ctl.store(1, Ordering::SeqCst);
    sys::futex_wake(&r.ctl);
    std::ptr::null_mut()
}
fn charge(t: &mut Task) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(p.get().max(live + t.peak)));
    LIVE.with(|l| l.set(live + t.live));
    STEPS.with(|s| s.set(s.get() + t.steps));
    (t.live, t.peak, t.steps) = (0, 0, 0);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    if !in_task() || !ACTIVE.with(|a| a.get()) {
        return real_create(t, attr, start, arg);
    }
    let track = TRACK.with(|t| t.replace(false));
    let _o = Outside::new();
    let r = run();
    let me = CUR.with(|c| c.get());
    add(C::p_own_thread, 1);
    let Some(task) = add_task(Some(r.tasks[me].root)) else {
        TRACK.with(|t| t.set(track));
        return 11;
    };
    let a = Box::new(Adopted { task, track, limit: BUDGET.with(|b| b.get()), start, arg });
    let e = real_create(t, attr, adopted, Box::into_raw(a) as *mut u8);
    if e == 0 {
        r.tasks[task].native = Some(*t);
        note(|| format!("the call starts a thread, task {}", task));
    } else {
        r.tasks[task].st = St::Done;
    }
    if SWITCH_AT.with(|s| s.get()) == u64::MAX {
        new_quantum();
        set_next();
    }
    TRACK.with(|t| t.set(track));
    e
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, ret: *mut *mut u8) -> i32 {
    let r = || run();
    let Some(i) = (if in_task() { r().tasks.iter().position(|x| x.native == Some(t)) } else { None }) else {
        let f = dlsym(-1isize as *const u8, "pthread_join\0".as_ptr());
        let f: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(f);
        return f(t, ret);
    };
    let _o = Outside::new();
    let me = CUR.with(|c| c.get());
    while r().tasks[i].st != St::Done {
        r().tasks[me].st = St::Blocked { addr: JOINING, deadline: u64::MAX };
        switch_away();
    }
    // the thread's work was this call's work
    real_join(t);
    charge(&mut r().tasks[i]);
    r().tasks[i].native = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: u64) -> i32 {
    if in_task() {
        if let Some(x) = run().tasks.iter_mut().find(|x| x.native == Some(t)) {
            x.detached = true;
            return 0;
        }
    }
    let f = dlsym(-1isize as *const u8, "pthread_detach\0".as_ptr());
    let f: extern "C" fn(u64) -> i32 = std::mem::transmute(f);
    f(t)
}

/// std reaches futexes through libc's variadic `syscall`; a simulated task blocks in the simulator.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == sys::SYS_FUTEX && in_task() {
        let _o = Outside::new();
        let op = b & 0x7f;
        let word = &*(a as *const AtomicU32);
        let r = run();
        let me = CUR.with(|c| c.get());
        match op {
            0 | 9 => {
                if word.load(Ordering::SeqCst) != c as u32 {
                    sys::set_errno(11);
                    return -1;
                }
                let deadline = if d == 0 {
                    u64::MAX
                } else {
                    let t = d as *const i64;
                    let v = (*t as u64).saturating_mul(1_000_000_000).saturating_add(*t.add(1) as u64);
                    if op == 9 { v } else { r.now.saturating_add(v) }
                };
                fault(C::f_futex_block);
                note(|| "blocked on a lock".to_string());
                r.tasks[me].st = St::Blocked { addr: a as usize, deadline };
                r.tasks[me].timed_out = false;
                switch_away();
                if run().tasks[me].timed_out {
                    sys::set_errno(110);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let mut k = 0;
                for t in r.tasks.iter_mut() {
                    if k < c && matches!(t.st, St::Blocked { addr, .. } if addr == a as usize) {
                        t.st = St::Runnable;
                        k += 1;
                    }
                }
                return k;
            }
            _ => {}
        }
    }
    let r = sys::raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        sys::set_errno(-r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- allocator

pub struct Alloc;
#[global_allocator]
static A: Alloc = Alloc;

fn account(d: i64) -> bool {
    LIVE.with(|l| {
        let v = l.get() + d;
        if v > MEM_LIMIT {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
}
fn refused(n: usize) {
    let _o = Outside::new();
    if stats::ready() && has_run() {
        let r = run();
        if r.viol.is_none() {
            r.viol = Some(("memory".into(), format!("allocation of {} bytes refused by the simulated allocator", n)));
        }
        abandon();
    }
}

// Which requests of calls fail.  Used only in processes forked for the purpose.
#[derive(Clone, Copy, Debug)]
pub enum Shortage {
    /// Counts requests.
    Census,
    /// The nth request fails.
    Once(u64),
    /// The nth request and all later ones fail.
    From(u64),
    /// Requests for as many bytes or more fail.
    Over(u64),
    /// Requests fail that would make the call hold more bytes.
    Quota(u64),
}
static mut SHORTAGE: Option<Shortage> = None;
/// Requests seen, the largest one, the most held at once, and requests refused.
static mut CENSUS: *mut [u64; 4] = std::ptr::null_mut();
/// Memory for the census that forked processes share; to be called before forking.
pub fn census() -> &'static mut [u64; 4] {
    unsafe {
        if CENSUS.is_null() {
            CENSUS = sys::shared(4096) as *mut [u64; 4];
        }
        &mut *CENSUS
    }
}
pub fn shortage(s: Option<Shortage>) {
    census();
    unsafe { SHORTAGE = s }
}
fn scarce(n: usize, more: i64) -> bool {
    let s = unsafe { SHORTAGE };
    let Some(s) = s else { return false };
    let c = unsafe { &mut *CENSUS };
    let held = LIVE.with(|l| l.get()) + more;
    c[0] += 1;
    c[1] = c[1].max(n as u64);
    c[2] = c[2].max(held.max(0) as u64);
    let refuse = match s {
        Shortage::Census => false,
        Shortage::Once(k) => c[0] == k,
        Shortage::From(k) => c[0] >= k,
        Shortage::Over(b) => n as u64 >= b,
        Shortage::Quota(b) => held > b as i64,
    };
    c[3] += refuse as u64;
    refuse
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = ACTIVE.with(|a| a.get());
        if a && scarce(l.size(), l.size() as i64) {
            return std::ptr::null_mut();
        }
        if a && !account(l.size() as i64) {
            refused(l.size());
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if LEDGER_ON.load(Ordering::Relaxed) && TRACK.with(|t| t.get()) {
            ledger_add(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.with(|a| a.get()) {
            account(-(l.size() as i64));
        }
        if LEDGER_ON.load(Ordering::Relaxed) {
            ledger_remove(p);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let a = ACTIVE.with(|a| a.get());
        if a && scarce(l.size(), l.size() as i64) {
            return std::ptr::null_mut();
        }
        if a && !account(l.size() as i64) {
            refused(l.size());
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if LEDGER_ON.load(Ordering::Relaxed) && TRACK.with(|t| t.get()) {
            ledger_add(p, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = ACTIVE.with(|a| a.get());
        if a && scarce(n, n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        if a && !account(n as i64 - l.size() as i64) {
            refused(n);
            return std::ptr::null_mut();
        }
        let on = LEDGER_ON.load(Ordering::Relaxed);
        let known = on && ledger_remove(p);
        let q = System.realloc(p, l, n);
        if on && (known || TRACK.with(|t| t.get())) {
            ledger_add(q, n);
        }
        q
    }
}

// Which blocks were requested by calls (by diffy, or by the caller to hand them over) and are still held: an open-addressing table outside the
// heap.  Blocks beyond its capacity are counted but not found again, which only a leak brings about.
const LEDGER: usize = 1 << 17;
static LEDGER_ON: AtomicBool = AtomicBool::new(false);
static LEDGER_LOCK: AtomicBool = AtomicBool::new(false);
static mut LEDGER_TAB: [(usize, usize); LEDGER] = [(0, 0); LEDGER];
static mut LEDGER_HELD: (usize, usize) = (0, 0);

fn ledger<R>(f: impl FnOnce(&mut [(usize, usize); LEDGER], &mut (usize, usize)) -> R) -> R {
    while LEDGER_LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = unsafe { f(&mut *std::ptr::addr_of_mut!(LEDGER_TAB), &mut *std::ptr::addr_of_mut!(LEDGER_HELD)) };
    LEDGER_LOCK.store(false, Ordering::Release);
    r
}
fn slot(p: usize) -> usize {
    mix(p as u64) as usize % LEDGER
}
fn ledger_add(p: *mut u8, n: usize) {
    ledger(|t, held| {
        held.0 += n;
        held.1 += 1;
        if held.1 * 2 > LEDGER {
            return;
        }
        let mut i = slot(p as usize);
        while t[i].0 != 0 {
            i = (i + 1) % LEDGER;
        }
        t[i] = (p as usize, n);
    })
}
fn ledger_remove(p: *mut u8) -> bool {
    ledger(|t, held| {
        let mut i = slot(p as usize);
        while t[i].0 != p as usize {
            if t[i].0 == 0 {
                return false;
            }
            i = (i + 1) % LEDGER;
        }
        held.0 -= t[i].1;
        held.1 -= 1;
        // close the gap
        let mut j = i;
        loop {
            j = (j + 1) % LEDGER;
            if t[j].0 == 0 {
                break;
            }
            let k = slot(t[j].0);
            if (j > i && (k <= i || k > j)) || (j < i && k <= i && k > j) {
                t[i] = t[j];
                i = j;
            }
        }
        t[i] = (0, 0);
        true
    })
}
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}
/// Runs a call with its arguments and results, none of which it keeps, as one whose blocks are recorded.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    r
}
/// Starts to record blocks.
pub fn ledger_start() {
    ledger(|t, held| {
        if *held != (0, 0) {
            t.fill((0, 0));
            *held = (0, 0);
        }
    });
    LEDGER_ON.store(true, Ordering::SeqCst);
}
pub fn ledger_stop() {
    LEDGER_ON.store(false, Ordering::SeqCst);
}
/// Bytes and blocks that nobody has returned.
pub fn ledger_held() -> (usize, usize) {
    ledger(|_, held| *held)
}

pub fn check_ok(ok: bool, class: &str, msg: impl FnOnce() -> String) {
    if !ok {
        violate(class, msg());
    }
}
