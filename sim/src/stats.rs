//! Counters in memory shared by every process of a batch, so that a crashed run loses nothing.
use crate::sys;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

macro_rules! counters { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(usize)]
    pub enum C { $($n),*, LAST }
    pub const NAMES: &[&str] = &[$(stringify!($n)),*];
} }

// f_*: a fault that actually fired.  p_*: a condition that was actually reached.
counters! {
    runs, api_calls, ticks, sim_ns, switches, dropped_history,
    f_short_write, f_interrupt, f_write_error, f_write_zero, f_device_full, f_sink_panic, f_text_sink_error,
    f_text_sink_panic, f_sink_stall, f_crash, f_fsync_error, f_lost_unsynced, f_torn_write,
    f_bit_flip, f_byte_damage, f_block_lost, f_block_zeroed, f_block_dup, f_block_swap, f_line_dup, f_line_lost,
    f_line_swap, f_digit_damage, f_huge_number, f_concat, f_truncate, f_unicode_damage, f_mangled,
    f_msg_lost, f_msg_dup, f_msg_reordered, f_msg_delayed, f_partition, f_node_restart, f_ack_lost, f_stale_patch,
    f_line_number_skew, f_stale_sync,
    f_preempt, f_stall_task, f_futex_block, f_clock_jump, f_clock_read, f_hash_seed, f_env_read, f_alloc_refused, f_small_stack,
    p_patch_empty, p_multi_hunk, p_no_newline, p_filename_escaped, p_context_zero, p_big_doc, p_giant_doc, p_twin_text, p_long_history, p_many_calls, p_many_threads, p_own_thread, p_idle_hunk,
    p_explained,
    p_unexplored, p_results_kept, p_foreign_order, p_distinct_lines, p_long_name, p_non_utf8,
    p_color, p_function_context, p_missing_header, p_retry_ok, p_torn_accepted, p_torn_rejected,
    p_damage_accepted, p_damage_rejected, p_damage_applied, p_apply_ok, p_apply_err, p_apply_offset, p_apply_tie,
    p_apply_multi_outcome, p_dup_rejected, p_dup_applied, p_apply_refused_later_hunk, p_patched_line_avoided,
    p_undo, p_redo, p_journal_torn, p_merge_ok, p_merge_conflict, p_merge_conflict_no_newline, p_merge_shared_edit,
    p_merge_both_sides, p_relay_hop, p_crash_after_ack, p_converged, p_panic_reuse, p_concurrent_ops, p_marker_zero,
    p_reverse, p_buffered_sink, p_text_api, p_byte_api, p_blocked_then_resumed, p_err_in_history, p_full_rewrite, p_shortage_survived, p_shortage_panic, p_shortage_abort, p_long_input,
}

pub const COV: usize = 1 << 14;
pub const DIG: usize = 1 << 23;

#[repr(C)]
pub struct Shared {
    pub counts: [AtomicU64; C::LAST as usize],
    pub guards: AtomicU64,
    pub cov: [AtomicU8; COV],
    pub ndig: AtomicU64,
    pub dig: [AtomicU64; DIG],
    pub nsched: AtomicU64,
    pub sched: [AtomicU64; DIG],
    // coordination
    pub next_batch: AtomicU64,
    pub stop: AtomicU64,
    pub cur_run: [AtomicU64; 64],
    pub heartbeat: [AtomicU64; 64],
    // violation record: lowest run wins
    pub vlock: AtomicU64,
    pub vrun: AtomicU64,
    pub vlen: AtomicU64,
    pub vbuf: [AtomicU8; 1 << 16],
    // choices of the run being recorded
    pub nrec: AtomicU64,
    pub rec: [AtomicU64; 1 << 20],
    // calibration maxima (x1000)
    pub maxes: [AtomicU64; 32],
    pub last_digest: AtomicU64,
    pub known: [AtomicU64; 32],
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn init() {
    unsafe {
        SH = sys::shared(std::mem::size_of::<Shared>()) as *mut Shared;
        (*SH).vrun.store(u64::MAX, Relaxed);
    }
}
pub fn sh() -> &'static Shared {
    unsafe { &*SH }
}
pub fn add(c: C, n: u64) {
    sh().counts[c as usize].fetch_add(n, Relaxed);
}
pub fn get(c: C) -> u64 {
    sh().counts[c as usize].load(Relaxed)
}
pub fn ready() -> bool {
    unsafe { !SH.is_null() }
}
pub fn record_max(i: usize, v: u64) {
    sh().maxes[i].fetch_max(v, Relaxed);
}
/// Keeps the violation with the lowest run index (so that the report does not depend on timing).
pub fn record_violation(run: u64, class: &str, msg: &str) {
    let s = sh();
    while s.vlock.compare_exchange(0, 1, std::sync::atomic::Ordering::SeqCst, Relaxed).is_err() {
        std::thread::yield_now();
    }
    if run < s.vrun.load(Relaxed) {
        let mut t = format!("{}\n{}", class, msg).into_bytes();
        t.truncate(s.vbuf.len());
        for (i, b) in t.iter().enumerate() {
            s.vbuf[i].store(*b, Relaxed);
        }
        s.vlen.store(t.len() as u64, Relaxed);
        s.vrun.store(run, Relaxed);
    }
    s.vlock.store(0, std::sync::atomic::Ordering::SeqCst);
    s.stop.store(1, Relaxed);
}
pub fn violation() -> Option<(u64, String, String)> {
    let s = sh();
    let r = s.vrun.load(Relaxed);
    if r == u64::MAX {
        return None;
    }
    let t: Vec<u8> = (0..s.vlen.load(Relaxed) as usize).map(|i| s.vbuf[i].load(Relaxed)).collect();
    let t = String::from_utf8_lossy(&t).into_owned();
    let (a, b) = t.split_once('\n').unwrap_or((&t, ""));
    Some((r, a.to_string(), b.to_string()))
}
pub fn clear_violation() {
    let s = sh();
    s.vrun.store(u64::MAX, Relaxed);
    s.vlock.store(0, Relaxed);
    s.stop.store(0, Relaxed);
}

pub fn push_digest(d: u64) {
    let s = sh();
    let i = s.ndig.fetch_add(1, Relaxed) as usize;
    if i < DIG {
        s.dig[i].store(d, Relaxed);
    }
}
pub fn push_sched(d: u64) {
    let s = sh();
    let i = s.nsched.fetch_add(1, Relaxed) as usize;
    if i < DIG {
        s.sched[i].store(d, Relaxed);
    }
}
fn distinct(a: &[AtomicU64], n: u64) -> usize {
    let mut v: Vec<u64> = a[..(n as usize).min(DIG)].iter().map(|x| x.load(Relaxed)).collect();
    v.sort_unstable();
    v.dedup();
    v.len()
}
pub fn distinct_digests() -> usize {
    distinct(&sh().dig, sh().ndig.load(Relaxed))
}
pub fn distinct_scheds() -> usize {
    distinct(&sh().sched, sh().nsched.load(Relaxed))
}
/// An order-independent fingerprint of every run of the search (for the determinism self-check).
pub fn fingerprint() -> u64 {
    let s = sh();
    let n = (s.ndig.load(Relaxed) as usize).min(DIG);
    s.dig[..n].iter().fold(0u64, |a, x| a.wrapping_add(crate::rt::mix(x.load(Relaxed))))
}
pub fn coverage() -> usize {
    sh().cov.iter().filter(|c| c.load(Relaxed) != 0).count()
}
