//! Locks, channels and atomics over the executor's scheduler.
pub use realstd::sync::{Arc, Weak, LockResult, PoisonError, TryLockError, TryLockResult, Once, OnceLock, LazyLock, OnceState};
use realstd::cell::{Cell, UnsafeCell}; use realstd::ops::{Deref, DerefMut}; use realstd::fmt; use realstd::time::Duration; use realstd::prelude::v1::*;
pub(crate) fn addr<T: ?Sized>(t: &T) -> u64 { t as *const T as *const u8 as u64 }
/// A failing try_lock deschedules the caller until the lock is released or this much virtual time passed
/// (the scheduler is assumed fair: a spinning thread does not run forever without time advancing).
const SPIN_NS: u64 = 200_000_000;
pub struct Mutex<T: ?Sized> { locked: Cell<bool>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {} unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }
impl<T> Mutex<T> { pub const fn new(t: T) -> Mutex<T> { Mutex { locked: Cell::new(false), data: UnsafeCell::new(t) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { vsym::yield_now(); while self.locked.get() { vsym::wait(addr(&self.locked), vsym::NEVER); } self.locked.set(true); Ok(MutexGuard { m: self }) }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { vsym::yield_now(); if self.locked.get() { vsym::wait(addr(&self.locked), SPIN_NS); Err(TryLockError::WouldBlock) } else { self.locked.set(true); Ok(MutexGuard { m: self }) } }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false } pub fn clear_poison(&self) {}
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.m.locked.set(false); vsym::wake(addr(&self.m.locked)); } }
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
impl<'a, T: ?Sized> fmt::Debug for MutexGuard<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("MutexGuard") } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }

pub struct RwLock<T: ?Sized> { n: Cell<isize>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Sync for RwLock<T> {} unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> { m: &'a RwLock<T> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { m: &'a RwLock<T> }
impl<T> RwLock<T> { pub const fn new(t: T) -> RwLock<T> { RwLock { n: Cell::new(0), data: UnsafeCell::new(t) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { vsym::yield_now(); while self.n.get() < 0 { vsym::wait(addr(&self.n), vsym::NEVER); } self.n.set(self.n.get() + 1); Ok(RwLockReadGuard { m: self }) }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { vsym::yield_now(); while self.n.get() != 0 { vsym::wait(addr(&self.n), vsym::NEVER); } self.n.set(-1); Ok(RwLockWriteGuard { m: self }) }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { vsym::yield_now(); if self.n.get() < 0 { vsym::wait(addr(&self.n), SPIN_NS); Err(TryLockError::WouldBlock) } else { self.n.set(self.n.get() + 1); Ok(RwLockReadGuard { m: self }) } }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { vsym::yield_now(); if self.n.get() != 0 { vsym::wait(addr(&self.n), SPIN_NS); Err(TryLockError::WouldBlock) } else { self.n.set(-1); Ok(RwLockWriteGuard { m: self }) } }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) } pub fn is_poisoned(&self) -> bool { false }
}
impl<'a, T: ?Sized> fmt::Debug for RwLockReadGuard<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLockReadGuard") } }
impl<'a, T: ?Sized> fmt::Debug for RwLockWriteGuard<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLockWriteGuard") } }
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { self.m.n.set(self.m.n.get() - 1); vsym::wake(addr(&self.m.n)); } }
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> { fn drop(&mut self) { self.m.n.set(0); vsym::wake(addr(&self.m.n)); } }
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") } }

#[derive(Default)] pub struct Condvar { c: Cell<u8> }
unsafe impl Sync for Condvar {} unsafe impl Send for Condvar {}
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub struct WaitTimeoutResult(bool); impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Condvar { Condvar { c: Cell::new(0) } }
    pub fn notify_all(&self) { vsym::wake(addr(&self.c)); } pub fn notify_one(&self) { vsym::wake(addr(&self.c)); }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { let m = g.m; drop(g); vsym::wait(addr(&self.c), vsym::NEVER); m.lock() }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> { while c(&mut *g) { g = self.wait(g)?; } Ok(g) }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut c: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> { let end = vsym::now().saturating_add(vsym::nanos(d)); loop { if !c(&mut *g) { return Ok((g, WaitTimeoutResult(false))); } let n = vsym::now(); if n >= end { return Ok((g, WaitTimeoutResult(true))); } g = self.wait_timeout(g, Duration::from_nanos(end - n))?.0; } }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> { let m = g.m; drop(g); vsym::wait(addr(&self.c), vsym::nanos(d)); let t = vsym::timed_out(); match m.lock() { Ok(g) => Ok((g, WaitTimeoutResult(t))), Err(_) => unreachable!() } }
}
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }
pub struct Barrier { m: Mutex<(usize, usize)>, c: Condvar, n: usize }
pub struct BarrierWaitResult(bool); impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Barrier { Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult { let mut g = match self.m.lock() { Ok(g) => g, Err(_) => unreachable!() }; g.0 += 1; if g.0 < self.n { let k = g.1; while g.1 == k { g = match self.c.wait(g) { Ok(g) => g, Err(_) => unreachable!() }; } BarrierWaitResult(false) } else { g.0 = 0; g.1 += 1; drop(g); self.c.notify_all(); BarrierWaitResult(true) } }
}

pub mod mpsc {
    pub use realstd::sync::mpsc::{SendError, RecvError, TryRecvError, RecvTimeoutError, TrySendError};
    use super::*; use realstd::collections::VecDeque;
    struct Chan<T> { q: UnsafeCell<VecDeque<T>>, tx: Cell<usize>, rx: Cell<bool>, cap: usize, full: Cell<u8> }
    pub struct Sender<T> { c: Arc<Chan<T>> } pub struct SyncSender<T> { c: Arc<Chan<T>> } pub struct Receiver<T> { c: Arc<Chan<T>> }
    unsafe impl<T: Send> Send for Sender<T> {} unsafe impl<T: Send> Sync for Sender<T> {} unsafe impl<T: Send> Send for SyncSender<T> {} unsafe impl<T: Send> Sync for SyncSender<T> {} unsafe impl<T: Send> Send for Receiver<T> {}
    fn mk<T>(cap: usize) -> Arc<Chan<T>> { Arc::new(Chan { q: UnsafeCell::new(VecDeque::new()), tx: Cell::new(1), rx: Cell::new(true), cap, full: Cell::new(0) }) }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = mk(usize::MAX); (Sender { c: c.clone() }, Receiver { c }) }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = mk(if n == 0 { 1 } else { n }); (SyncSender { c: c.clone() }, Receiver { c }) }
    impl<T> Chan<T> {
        fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } }
        fn send(&self, t: T) -> Result<(), SendError<T>> { vsym::yield_now(); loop { if !self.rx.get() { return Err(SendError(t)); } if self.q().len() < self.cap { self.q().push_back(t); vsym::wake(addr(&self.q)); return Ok(()); } vsym::wait(addr(&self.full), vsym::NEVER); } }
        fn close_tx(&self) { let n = self.tx.get() - 1; self.tx.set(n); if n == 0 { vsym::wake(addr(&self.q)); } }
    }
    impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.c.send(t) } }
    impl<T> SyncSender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.c.send(t) } }
    impl<T> SyncSender<T> { pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> { vsym::yield_now(); if !self.c.rx.get() { return Err(TrySendError::Disconnected(t)); } if self.c.q().len() < self.c.cap { self.c.q().push_back(t); vsym::wake(addr(&self.c.q)); Ok(()) } else { Err(TrySendError::Full(t)) } } }
    impl<T> fmt::Debug for SyncSender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SyncSender") } }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.c.tx.set(self.c.tx.get() + 1); Sender { c: self.c.clone() } } }
    impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { self.c.tx.set(self.c.tx.get() + 1); SyncSender { c: self.c.clone() } } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { self.c.close_tx() } }
    impl<T> Drop for SyncSender<T> { fn drop(&mut self) { self.c.close_tx() } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.c.rx.set(false); self.c.q().clear(); vsym::wake(addr(&self.c.full)); } }
    impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
    impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
    impl<T> Receiver<T> {
        fn pop(&self) -> Option<T> { let r = self.c.q().pop_front(); if r.is_some() { vsym::wake(addr(&self.c.full)); } r }
        pub fn try_recv(&self) -> Result<T, TryRecvError> { vsym::yield_now(); match self.pop() { Some(t) => Ok(t), None => if self.c.tx.get() == 0 { Err(TryRecvError::Disconnected) } else { vsym::wait(addr(&self.c.q), super::SPIN_NS); Err(TryRecvError::Empty) } } }
        pub fn recv(&self) -> Result<T, RecvError> { vsym::yield_now(); loop { if let Some(t) = self.pop() { return Ok(t); } if self.c.tx.get() == 0 { return Err(RecvError); } vsym::wait(addr(&self.c.q), vsym::NEVER); } }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            vsym::yield_now();
            let end = vsym::now().saturating_add(vsym::nanos(d));
            loop {
                if let Some(t) = self.pop() { return Ok(t); }
                if self.c.tx.get() == 0 { vsym::wait((5u64 << 60) | vsym::tid(), 1_000_000); return Err(RecvTimeoutError::Disconnected); }
                if vsym::now() >= end { return Err(RecvTimeoutError::Timeout); }
                vsym::wait(addr(&self.c.q), end - vsym::now());
                if vsym::timed_out() { return match self.pop() { Some(t) => Ok(t), None => Err(RecvTimeoutError::Timeout) }; }
            }
        }
        pub fn iter(&self) -> Iter<'_, T> { Iter { r: self } }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { r: self } }
    }
    pub struct Iter<'a, T> { r: &'a Receiver<T> }
    impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
    pub struct TryIter<'a, T> { r: &'a Receiver<T> }
    impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { vsym::yield_now(); self.r.pop() } }
    pub struct IntoIter<T> { r: Receiver<T> }
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { r: self } } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
}
pub mod atomic {
    pub use realstd::sync::atomic::*;
    use realstd::sync::atomic as real; use realstd::fmt;
    macro_rules! at { ($n:ident, $t:ty) => {
        #[repr(transparent)] #[derive(Default)] pub struct $n(real::$n);
        impl $n {
            pub const fn new(v: $t) -> $n { $n(real::$n::new(v)) }
            pub fn load(&self, _o: Ordering) -> $t { vsym::yield_now(); self.0.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, _o: Ordering) { vsym::yield_now(); self.0.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, _o: Ordering) -> $t { vsym::yield_now(); self.0.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> { vsym::yield_now(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, mut u: F) -> Result<$t, $t> { vsym::yield_now(); let v = self.0.load(Ordering::SeqCst); match u(v) { Some(n) => { self.0.store(n, Ordering::SeqCst); Ok(v) } None => Err(v) } }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
        }
        impl From<$t> for $n { fn from(v: $t) -> $n { $n::new(v) } }
        impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($n)) } }
    } }
    at!(AtomicBool, bool); at!(AtomicUsize, usize); at!(AtomicIsize, isize); at!(AtomicU64, u64); at!(AtomicU32, u32); at!(AtomicU16, u16); at!(AtomicU8, u8); at!(AtomicI64, i64); at!(AtomicI32, i32);
    macro_rules! op { ($n:ident, $t:ty, $($f:ident),*) => { impl $n { $(pub fn $f(&self, v: $t, _o: Ordering) -> $t { vsym::yield_now(); self.0.$f(v, Ordering::SeqCst) })* } } }
    op!(AtomicBool, bool, fetch_or, fetch_and, fetch_xor, fetch_nand);
    macro_rules! num { ($($n:ident $t:ty),*) => { $(op!($n, $t, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_or, fetch_and, fetch_xor);)* } }
    num!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicU32 u32, AtomicU16 u16, AtomicU8 u8, AtomicI64 i64, AtomicI32 i32);
    pub fn fence(_o: Ordering) {} pub fn compiler_fence(_o: Ordering) {}
}
