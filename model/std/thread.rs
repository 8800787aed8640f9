//! Threads are coroutines of the executor; every blocking or shared-memory operation is a scheduling point.
pub use realstd::thread::{AccessError, LocalKey, Result, ThreadId, panicking};
use realstd::boxed::Box; use realstd::cell::UnsafeCell; use realstd::sync::Arc; use realstd::time::Duration; use realstd::option::Option::{self, *}; use realstd::prelude::v1::*;
struct Slot<T> { v: UnsafeCell<Option<T>> }
unsafe impl<T> Sync for Slot<T> {} unsafe impl<T> Send for Slot<T> {}
pub struct JoinHandle<T> { tid: u64, slot: Arc<Slot<T>> }
unsafe impl<T> Send for JoinHandle<T> {} unsafe impl<T> Sync for JoinHandle<T> {}
pub(crate) extern "C" fn run(p: *mut u8) { let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) }; (*f)() }
#[inline(never)] pub(crate) fn start(f: Box<dyn FnOnce()>) -> u64 { let p = Box::into_raw(Box::new(f)); vsym::spawn(run, p as *mut u8) }
pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    let slot = Arc::new(Slot { v: UnsafeCell::new(None) }); let s2 = slot.clone();
    let tid = start(Box::new(move || { let r = f(); unsafe { *s2.v.get() = Some(r); } }));
    vsym::yield_now();
    JoinHandle { tid, slot }
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> realstd::thread::Result<T> { while !vsym::done(self.tid) { vsym::wait((1u64 << 63) | self.tid, vsym::NEVER); } Ok(unsafe { (*self.slot.v.get()).take().expect("thread result") }) }
    pub fn is_finished(&self) -> bool { vsym::yield_now(); vsym::done(self.tid) }
    pub fn thread(&self) -> Thread { Thread { tid: self.tid } }
}
impl<T> realstd::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut realstd::fmt::Formatter<'_>) -> realstd::fmt::Result { f.write_str("JoinHandle") } }
#[derive(Clone, Debug)] pub struct Thread { tid: u64 }
impl Thread { pub fn unpark(&self) { vsym::yield_now(); let t = unsafe { &mut *(&raw mut TOKENS) }; if !t.contains(&self.tid) { t.push(self.tid); } vsym::wake((1u64 << 62) | self.tid); } pub fn name(&self) -> Option<&str> { None } pub fn id(&self) -> u64 { self.tid } }
pub fn current() -> Thread { Thread { tid: vsym::tid() } }
/// A wake-up sent before the park is remembered (one token per thread, as the standard library has it).
static mut TOKENS: Vec<u64> = Vec::new();
fn take_token() -> bool { let t = unsafe { &mut *(&raw mut TOKENS) }; let me = vsym::tid(); match t.iter().position(|x| *x == me) { Some(i) => { t.remove(i); true } None => false } }
pub fn park() { vsym::yield_now(); while !take_token() { vsym::wait((1u64 << 62) | vsym::tid(), vsym::NEVER); } }
pub fn park_timeout(d: Duration) { vsym::yield_now(); if !take_token() { vsym::wait((1u64 << 62) | vsym::tid(), vsym::nanos(d)); take_token(); } }
/// While every client has been served and the main thread sleeps, only the default schedule is explored.
pub fn sleep(d: Duration) { let main = vsym::tid() == 0; if main && crate::net::model::idle() { vsym::pause(true); } nap(d); if main { vsym::pause(false); } }
fn nap(d: Duration) { vsym::wait((3u64 << 60) | vsym::tid(), vsym::nanos(d)); }
pub fn available_parallelism() -> realstd::io::Result<realstd::num::NonZeroUsize> { Ok(realstd::num::NonZeroUsize::new(4).unwrap()) }
pub fn sleep_ms(n: u32) { sleep(Duration::from_millis(n as u64)) }
pub fn yield_now() { vsym::wait((3u64 << 60) | vsym::tid(), 1_000_000); }
pub struct Builder { _p: () }
impl Builder { pub fn new() -> Builder { Builder { _p: () } } pub fn name(self, _n: String) -> Builder { self } pub fn stack_size(self, _n: usize) -> Builder { self }
    pub fn spawn<F, T>(self, f: F) -> realstd::io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) } }
/// Threads that may borrow: joined before `scope` returns.
pub struct Scope<'scope, 'env: 'scope> { tids: UnsafeCell<Vec<u64>>, _s: realstd::marker::PhantomData<&'scope mut &'scope ()>, _e: realstd::marker::PhantomData<&'env mut &'env ()> }
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> { h: JoinHandle<T>, _s: realstd::marker::PhantomData<&'scope ()> }
impl<'scope, T> ScopedJoinHandle<'scope, T> { pub fn join(self) -> realstd::thread::Result<T> { self.h.join() } pub fn is_finished(&self) -> bool { self.h.is_finished() } pub fn thread(&self) -> Thread { self.h.thread() } }
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        let slot = Arc::new(Slot { v: UnsafeCell::new(None) }); let s2 = slot.clone();
        let b: Box<dyn FnOnce() + 'scope> = Box::new(move || { let r = f(); unsafe { *s2.v.get() = Some(r); } });
        let tid = start(unsafe { realstd::mem::transmute::<Box<dyn FnOnce() + 'scope>, Box<dyn FnOnce() + 'static>>(b) });
        unsafe { (*self.tids.get()).push(tid); } vsym::yield_now();
        ScopedJoinHandle { h: JoinHandle { tid, slot }, _s: realstd::marker::PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    let s = Scope { tids: UnsafeCell::new(Vec::new()), _s: realstd::marker::PhantomData, _e: realstd::marker::PhantomData };
    let r = f(unsafe { &*(&s as *const Scope<'_, 'env>) });
    let mut i = 0; loop { let t = unsafe { let v = &*s.tids.get(); if i >= v.len() { break } v[i] }; while !vsym::done(t) { vsym::wait((1u64 << 63) | t, vsym::NEVER); } i += 1; }
    r
}
