//! Bindings to the symbolic-execution intrinsics, plus the model clock.
//! Under the engine the intrinsics are interpreted; natively rt/rt.c replays a tape.
#![no_std]
#![allow(static_mut_refs)]
extern "C" {
    fn sym_bits(w: u32) -> u64; fn sym_bytes(p: *mut u8, n: u64); fn sym_choice(n: u64) -> u64;
    fn sym_assume(c: u32); fn sym_assert(c: u32, m: *const u8, n: u64); fn sym_fail(m: *const u8, n: u64) -> !;
    fn sym_reach(id: u64); fn sym_trace(v: u64); fn sym_concretize(v: u64) -> u64; fn sym_param(i: u64) -> u64; fn sym_end() -> !; fn sym_steps() -> u64; fn sym_debug(p: *const u8, n: u64);
    fn sym_spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u64; fn sym_yield(); fn sym_wait(ch: u64, ns: u64); fn sym_wake(ch: u64); fn sym_timed_out() -> u64; fn sym_now() -> u64; fn sym_advance(ns: u64); fn sym_sched(budget: u64, flags: u64); fn sym_tid() -> u64; fn sym_done(t: u64) -> u64;
}
pub const NEVER: u64 = u64::MAX;
#[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { sym_bits(w) } }
#[inline(always)] pub fn u8() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn bool() -> bool { bits(1) != 0 }
#[inline(always)] pub fn u32() -> u32 { bits(32) as u32 }
#[inline(always)] pub fn u64() -> u64 { bits(64) }
#[inline(always)] pub fn i64() -> i64 { bits(64) as i64 }
#[inline(always)] pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len() as u64) } }
/// One of 0..n, one explored path each.
#[inline(always)] pub fn choose(n: usize) -> usize { unsafe { sym_choice(n as u64) as usize } }
#[inline(always)] pub fn assume(c: bool) { unsafe { sym_assume(c as u32) } }
#[inline(always)] pub fn check(c: bool, m: &'static str) { unsafe { sym_assert(c as u32, m.as_ptr(), m.len() as u64) } }
#[inline(always)] pub fn fail(m: &'static str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len() as u64) } }
#[inline(always)] pub fn reach(id: u64) { unsafe { sym_reach(id) } }
#[inline(always)] pub fn trace(v: u64) { unsafe { sym_trace(v) } }
#[inline(always)] pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
#[inline(always)] pub fn param(i: usize) -> u64 { unsafe { sym_param(i as u64) } }
#[inline(always)] pub fn end() -> ! { unsafe { sym_end() } }
#[inline(always)] pub fn steps() -> u64 { unsafe { sym_steps() } }
#[inline(always)] pub fn debug(s: &str) { unsafe { sym_debug(s.as_ptr(), s.len() as u64) } }
#[inline(always)] pub fn spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u64 { unsafe { sym_spawn(f, a) } }
#[inline(always)] pub fn yield_now() { unsafe { sym_yield() } }
#[inline(always)] pub fn wait(ch: u64, ns: u64) { unsafe { sym_wait(ch, ns) } }
#[inline(always)] pub fn wake(ch: u64) { unsafe { sym_wake(ch) } }
#[inline(always)] pub fn timed_out() -> bool { unsafe { sym_timed_out() != 0 } }
#[inline(always)] pub fn now() -> u64 { unsafe { sym_now() } }
#[inline(always)] pub fn advance(ns: u64) { unsafe { sym_advance(ns) } }
static mut FLAGS: u64 = 0;
/// Schedule exploration: how many departures from the default schedule; flags 1: timers may fire early.
#[inline(always)] pub fn sched(budget: u64, flags: u64) { unsafe { FLAGS = flags; sym_sched(budget, flags) } }
/// Suspend or resume departures from the default schedule (while nothing is happening).
#[inline(always)] pub fn pause(p: bool) { unsafe { sym_sched(NEVER, FLAGS | if p { 2 } else { 0 }) } }
#[inline(always)] pub fn tid() -> u64 { unsafe { sym_tid() } }
#[inline(always)] pub fn done(t: u64) -> bool { unsafe { sym_done(t) != 0 } }
pub fn nanos(d: core::time::Duration) -> u64 { let n = d.as_nanos(); if n >= u64::MAX as u128 { u64::MAX - 1 } else { n as u64 } }

/// The model clock: seconds (possibly symbolic) and nanoseconds, advanced by the harness;
/// when threads run, virtual scheduler time is added on top.
pub struct Clock { pub secs: i64, pub nsec: i64, pub virt: bool, pub jitter: u32, pub reads: u64 }
pub static mut CLOCK: Clock = Clock { secs: 0, nsec: 0, virt: false, jitter: 0, reads: 0 };
pub fn clock() -> &'static mut Clock { unsafe { &mut CLOCK } }
#[repr(C)] pub struct TimeSpec { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut TimeSpec) -> i32 {
    let c = clock();
    // `jitter`: how many further clock reads may observe one more elapsed second
    if c.jitter > 0 && c.reads > 0 { c.jitter -= 1; if bool() { c.secs += 1; } }
    c.reads += 1;
    let v = if c.virt { now() } else { 0 };
    (*ts).s = c.secs + (v / 1_000_000_000) as i64; (*ts).n = c.nsec + (v % 1_000_000_000) as i64;
    0
}
/// Iteration order of the hash-map model: false = insertion order, true = reverse.
pub static mut HASH_REV: bool = false;

/// How many random draws are arbitrary; later ones follow a fixed sequence.
pub static mut FREE: u64 = u64::MAX; static mut SEQ: u64 = 0;
pub fn fixed() -> bool { unsafe { FREE == 0 } }
pub fn draw() -> u64 { unsafe { if FREE == 0 { SEQ += 1; let mut z = SEQ.wrapping_mul(0x9e37_79b9_7f4a_7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ (z >> 31) } else { FREE -= 1; u64() } } }
