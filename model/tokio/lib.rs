//! Model of the parts of tokio used by the async server: every task is a coroutine of the executor
//! (as on tokio's multi-threaded runtime), polled until it is pending and re-polled when woken.
#![allow(unused)]
pub use tokio_macros::main;
pub use task::spawn;
pub mod runtime {
    use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker}; use std::cell::Cell; use std::sync::Arc;
    // a waker owns a counted flag cell; its address is the wait channel
    struct Cell0 { woken: Cell<bool> }
    unsafe impl Send for Cell0 {} unsafe impl Sync for Cell0 {}
    static VT: RawWakerVTable = RawWakerVTable::new(cl, wk, wr, dr);
    unsafe fn cl(p: *const ()) -> RawWaker { Arc::increment_strong_count(p as *const Cell0); RawWaker::new(p, &VT) }
    unsafe fn wk(p: *const ()) { wr(p); dr(p) }
    unsafe fn wr(p: *const ()) { let c = &*(p as *const Cell0); c.woken.set(true); vsym::wake(p as u64); }
    unsafe fn dr(p: *const ()) { drop(Arc::from_raw(p as *const Cell0)) }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        let c = Arc::new(Cell0 { woken: Cell::new(false) });
        let w = unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(c.clone()) as *const (), &VT)) };
        let mut cx = Context::from_waker(&w);
        loop {
            c.woken.set(false);
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
            while !c.woken.get() { let main = vsym::tid() == 0; if main && std::net::model::idle() { vsym::pause(true); } vsym::wait(Arc::as_ptr(&c) as *const () as u64, crate::time::next_deadline()); if main { vsym::pause(false); } if vsym::timed_out() { break; } }
        }
    }
    pub struct Runtime { _p: () } impl Runtime { pub fn new() -> std::io::Result<Runtime> { Ok(Runtime { _p: () }) } pub fn block_on<F: Future>(&self, f: F) -> F::Output { block_on(f) } }
    pub struct Builder { _p: () }
    impl Builder { pub fn new_multi_thread() -> Builder { Builder { _p: () } } pub fn new_current_thread() -> Builder { Builder { _p: () } } pub fn enable_all(&mut self) -> &mut Builder { self } pub fn worker_threads(&mut self, _n: usize) -> &mut Builder { self } pub fn build(&mut self) -> std::io::Result<Runtime> { Runtime::new() } }
}
pub mod task {
    use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll, Waker}; use std::cell::UnsafeCell; use std::sync::Arc;
    #[derive(Debug)] pub struct JoinError { _p: () }
    impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task was cancelled") } } impl std::error::Error for JoinError {}
    struct Slot<T> { v: UnsafeCell<Option<T>>, w: UnsafeCell<Option<Waker>>, done: UnsafeCell<bool>, stop: UnsafeCell<(bool, Option<Waker>)> }
    unsafe impl<T> Sync for Slot<T> {} unsafe impl<T> Send for Slot<T> {}
    pub struct JoinHandle<T> { s: Arc<Slot<T>> } impl<T> Unpin for JoinHandle<T> {}
    impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") } }
    pub trait Stop { fn abort(&self); } unsafe impl Send for AbortHandle {} unsafe impl Sync for AbortHandle {}
    impl<T> Stop for Slot<T> { fn abort(&self) { vsym::yield_now(); unsafe { let s = &mut *self.stop.get(); s.0 = true; if let Some(w) = s.1.take() { w.wake(); } } } }
    pub struct AbortHandle { s: Arc<dyn Stop> } impl AbortHandle { pub fn abort(&self) { self.s.abort() } }
    impl<T: 'static> JoinHandle<T> { pub fn is_finished(&self) -> bool { unsafe { *self.s.done.get() } } pub fn abort(&self) { self.s.abort() } pub fn abort_handle(&self) -> AbortHandle { AbortHandle { s: self.s.clone() } } }
    impl<T> Future for JoinHandle<T> { type Output = Result<T, JoinError>; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { unsafe { if let Some(v) = (*self.s.v.get()).take() { return Poll::Ready(Ok(v)); } if *self.s.done.get() { return Poll::Ready(Err(JoinError { _p: () })); } *self.s.w.get() = Some(cx.waker().clone()); } Poll::Pending } }
    extern "C" fn run(p: *mut u8) { let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) }; (*f)() }
    #[inline(never)] fn start(f: Box<dyn FnOnce()>) { let p = Box::into_raw(Box::new(f)); vsym::spawn(run, p as *mut u8); vsym::yield_now(); }
    pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: Send + 'static {
        let s = Arc::new(Slot { v: UnsafeCell::new(None), w: UnsafeCell::new(None), done: UnsafeCell::new(false), stop: UnsafeCell::new((false, None)) }); let s2 = s.clone();
        start(Box::new(move || { let s3 = s2.clone(); let mut f = Box::pin(f);
            // a task that was aborted ends the next time it would run
            let r = crate::runtime::block_on(std::future::poll_fn(move |cx| { let st = unsafe { &mut *s3.stop.get() }; if st.0 { return Poll::Ready(None); } st.1 = Some(cx.waker().clone()); f.as_mut().poll(cx).map(Some) }));
            unsafe { *s2.v.get() = r; *s2.done.get() = true; if let Some(w) = (*s2.w.get()).take() { w.wake(); } } }));
        JoinHandle { s }
    }
    /// A set of tasks, taken as they end.
    pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
    impl<T: Send + 'static> JoinSet<T> {
        pub fn new() -> JoinSet<T> { JoinSet { v: Vec::new() } } pub fn len(&self) -> usize { self.v.len() } pub fn is_empty(&self) -> bool { self.v.is_empty() }
        pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle { let h = spawn(f); let a = h.abort_handle(); self.v.push(h); a }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> { if self.v.is_empty() { return None; } let v = &mut self.v; std::future::poll_fn(move |cx| { for i in 0..v.len() { if let Poll::Ready(r) = Pin::new(&mut v[i]).poll(cx) { v.remove(i); return Poll::Ready(Some(r)); } } Poll::Pending }).await }
        pub fn abort_all(&mut self) { for h in &self.v { h.abort() } } pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
    }
    impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.v { h.s.abort() } } }
    pub async fn yield_now() { let mut first = true; std::future::poll_fn(move |cx| { if first { first = false; cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(()) } }).await }
    pub fn spawn_blocking<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(f: F) -> JoinHandle<R> { spawn(async move { f() }) }
}
pub mod time {
    pub use std::time::Duration; use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
    // deadlines registered by the sleeps pending in the task being polled; tasks are separate coroutines
    static mut DEADLINES: Vec<(u64, u64)> = Vec::new();
    fn dl() -> &'static mut Vec<(u64, u64)> { unsafe { &mut *(&raw mut DEADLINES) } }
    pub(crate) fn next_deadline() -> u64 { let t = vsym::tid(); let mut m = u64::MAX; for d in dl().iter() { if d.0 == t && d.1 < m { m = d.1; } } if m == u64::MAX { m } else { m.saturating_sub(vsym::now()) } }
    fn clear(at: u64) { let t = vsym::tid(); if let Some(i) = dl().iter().position(|d| d.0 == t && d.1 == at) { dl().remove(i); } }
    pub struct Sleep { d: Duration, at: Option<u64> }
    impl Future for Sleep { type Output = (); fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> { let at = match self.at { Some(a) => a, None => { let a = vsym::now().saturating_add(vsym::nanos(self.d)); self.at = Some(a); dl().push((vsym::tid(), a)); a } }; if vsym::now() >= at { clear(at); self.at = Some(0); Poll::Ready(()) } else { Poll::Pending } } }
    impl Drop for Sleep { fn drop(&mut self) { if let Some(a) = self.at { if a > 0 { clear(a); } } } }
    pub fn sleep(d: Duration) -> Sleep { Sleep { d, at: None } }
    pub mod error { #[derive(Debug, PartialEq)] pub struct Elapsed(pub(crate) ()); impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> { let mut f = Box::pin(f); let mut s = Box::pin(sleep(d)); std::future::poll_fn(move |cx| { if let Poll::Ready(v) = f.as_mut().poll(cx) { return Poll::Ready(Ok(v)); } if let Poll::Ready(()) = s.as_mut().poll(cx) { return Poll::Ready(Err(error::Elapsed(()))); } Poll::Pending }).await }
    pub struct Interval { d: Duration, next: u64 }
    pub fn interval(d: Duration) -> Interval { Interval { d, next: vsym::now() } }
    impl Interval { pub async fn tick(&mut self) { let n = vsym::now(); if self.next > n { sleep(Duration::from_nanos(self.next - n)).await; } self.next += vsym::nanos(self.d); } }
}
pub mod sync {
    pub mod mpsc {
        use std::cell::{Cell, UnsafeCell}; use std::collections::VecDeque; use std::sync::Arc; use std::task::{Poll, Waker}; use std::fmt;
        pub mod error {
            pub struct SendError<T>(pub T); impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } } impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
            #[derive(Debug)] pub enum TrySendError<T> { Full(T), Closed(T) }
            #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum TryRecvError { Empty, Disconnected }
        }
        use error::*;
        struct Chan<T> { q: UnsafeCell<VecDeque<T>>, cap: usize, tx: Cell<usize>, rx: Cell<bool>, rw: UnsafeCell<Vec<Waker>>, tw: UnsafeCell<Vec<Waker>> }
        unsafe impl<T: Send> Send for Chan<T> {} unsafe impl<T: Send> Sync for Chan<T> {}
        impl<T> Chan<T> { fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } } fn wake(l: &UnsafeCell<Vec<Waker>>) { let v = std::mem::take(unsafe { &mut *l.get() }); for w in v { w.wake(); } } fn add(l: &UnsafeCell<Vec<Waker>>, w: &Waker) { unsafe { (*l.get()).push(w.clone()) } } }
        pub struct Sender<T> { c: Arc<Chan<T>> } pub struct Receiver<T> { c: Arc<Chan<T>> }
        unsafe impl<T: Send> Send for Sender<T> {} unsafe impl<T: Send> Sync for Sender<T> {} unsafe impl<T: Send> Send for Receiver<T> {} unsafe impl<T: Send> Sync for Receiver<T> {}
        pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) { assert!(cap > 0, "mpsc bounded channel requires buffer > 0"); let c = Arc::new(Chan { q: UnsafeCell::new(VecDeque::new()), cap, tx: Cell::new(1), rx: Cell::new(true), rw: UnsafeCell::new(Vec::new()), tw: UnsafeCell::new(Vec::new()) }); (Sender { c: c.clone() }, Receiver { c }) }
        impl<T> Sender<T> {
            pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
                vsym::yield_now();
                let mut t = Some(t);
                std::future::poll_fn(|cx| { if !self.c.rx.get() { return Poll::Ready(Err(SendError(t.take().unwrap()))); } if self.c.q().len() < self.c.cap { self.c.q().push_back(t.take().unwrap()); Chan::<T>::wake(&self.c.rw); return Poll::Ready(Ok(())); } Chan::<T>::add(&self.c.tw, cx.waker()); Poll::Pending }).await
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> { vsym::yield_now(); if !self.c.rx.get() { Err(TrySendError::Closed(t)) } else if self.c.q().len() < self.c.cap { self.c.q().push_back(t); Chan::<T>::wake(&self.c.rw); Ok(()) } else { Err(TrySendError::Full(t)) } }
            pub fn is_closed(&self) -> bool { !self.c.rx.get() } pub fn capacity(&self) -> usize { self.c.cap - self.c.q().len() }
            pub fn blocking_send(&self, t: T) -> Result<(), SendError<T>> { crate::runtime::block_on(self.send(t)) }
        }
        impl<T> Receiver<T> {
            pub async fn recv(&mut self) -> Option<T> { vsym::yield_now(); let c = &self.c; std::future::poll_fn(|cx| { if let Some(t) = c.q().pop_front() { Chan::<T>::wake(&c.tw); return Poll::Ready(Some(t)); } if c.tx.get() == 0 { return Poll::Ready(None); } Chan::<T>::add(&c.rw, cx.waker()); Poll::Pending }).await }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> { vsym::yield_now(); match self.c.q().pop_front() { Some(t) => { Chan::<T>::wake(&self.c.tw); Ok(t) } None => Err(if self.c.tx.get() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) } }
            pub fn close(&mut self) { self.c.rx.set(false); Chan::<T>::wake(&self.c.tw); } pub fn blocking_recv(&mut self) -> Option<T> { crate::runtime::block_on(self.recv()) }
        }
        pub struct UnboundedSender<T> { s: Sender<T> } pub struct UnboundedReceiver<T> { r: Receiver<T> }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let (s, r) = channel(usize::MAX); (UnboundedSender { s }, UnboundedReceiver { r }) }
        impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { UnboundedSender { s: self.s.clone() } } }
        impl<T> UnboundedSender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { match self.s.try_send(t) { Ok(()) => Ok(()), Err(TrySendError::Full(t)) | Err(TrySendError::Closed(t)) => Err(SendError(t)) } } pub fn is_closed(&self) -> bool { self.s.is_closed() } }
        impl<T> UnboundedReceiver<T> { pub async fn recv(&mut self) -> Option<T> { self.r.recv().await } pub fn try_recv(&mut self) -> Result<T, TryRecvError> { self.r.try_recv() } pub fn close(&mut self) { self.r.close() } }
        impl<T> fmt::Debug for UnboundedSender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("UnboundedSender") } }
        impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.c.tx.set(self.c.tx.get() + 1); Sender { c: self.c.clone() } } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { let n = self.c.tx.get() - 1; self.c.tx.set(n); if n == 0 { Chan::<T>::wake(&self.c.rw); } } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.c.rx.set(false); self.c.q().clear(); Chan::<T>::wake(&self.c.tw); } }
        impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
        impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
    }
    pub struct Notify { m: UnsafeCell<(bool, Vec<Waker>, u64)> } unsafe impl Send for Notify {} unsafe impl Sync for Notify {}
    use std::cell::UnsafeCell; use std::task::{Poll, Waker};
    impl Default for Notify { fn default() -> Self { Notify::new() } }
    impl Notify {
        pub const fn new() -> Notify { Notify { m: UnsafeCell::new((false, Vec::new(), 0)) } }
        fn st(&self) -> &mut (bool, Vec<Waker>, u64) { unsafe { &mut *self.m.get() } }
        pub fn notify_one(&self) { vsym::yield_now(); self.st().0 = true; for w in std::mem::take(&mut self.st().1) { w.wake(); } }
        pub fn notify_waiters(&self) { vsym::yield_now(); self.st().2 += 1; for w in std::mem::take(&mut self.st().1) { w.wake(); } }
        pub async fn notified(&self) { let gen = self.st().2; std::future::poll_fn(|cx| { let s = self.st(); if s.0 { s.0 = false; return Poll::Ready(()); } if s.2 != gen { return Poll::Ready(()); } s.1.push(cx.waker().clone()); Poll::Pending }).await }
    }
    pub struct RwLock<T> { l: std::sync::RwLock<T> }
    impl<T> RwLock<T> { pub fn new(t: T) -> RwLock<T> { RwLock { l: std::sync::RwLock::new(t) } } pub async fn read(&self) -> std::sync::RwLockReadGuard<'_, T> { self.l.read().unwrap() } pub async fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.l.write().unwrap() } }
    pub mod watch {
        use std::sync::Arc; use std::cell::{Cell, UnsafeCell}; use std::task::{Poll, Waker};
        pub mod error { #[derive(Debug)] pub struct SendError<T>(pub T); #[derive(Debug)] pub struct RecvError(pub(crate) ()); }
        struct St<T> { v: UnsafeCell<T>, n: Cell<u64>, tx: Cell<usize>, rx: Cell<usize>, w: UnsafeCell<Vec<Waker>> } unsafe impl<T: Send> Send for St<T> {} unsafe impl<T: Send> Sync for St<T> {}
        impl<T> St<T> { fn wake(&self) { for w in std::mem::take(unsafe { &mut *self.w.get() }) { w.wake(); } } }
        pub struct Sender<T> { s: Arc<St<T>> } pub struct Receiver<T> { s: Arc<St<T>>, seen: u64 }
        pub struct Ref<'a, T>(&'a T); impl<'a, T> std::ops::Deref for Ref<'a, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
        pub fn channel<T>(t: T) -> (Sender<T>, Receiver<T>) { let s = Arc::new(St { v: UnsafeCell::new(t), n: Cell::new(0), tx: Cell::new(1), rx: Cell::new(1), w: UnsafeCell::new(Vec::new()) }); (Sender { s: s.clone() }, Receiver { s, seen: 0 }) }
        impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), error::SendError<T>> { vsym::yield_now(); if self.s.rx.get() == 0 { return Err(error::SendError(t)); } unsafe { *self.s.v.get() = t; } self.s.n.set(self.s.n.get() + 1); self.s.wake(); Ok(()) } pub fn borrow(&self) -> Ref<'_, T> { Ref(unsafe { &*self.s.v.get() }) } pub fn subscribe(&self) -> Receiver<T> { self.s.rx.set(self.s.rx.get() + 1); Receiver { s: self.s.clone(), seen: self.s.n.get() } } }
        impl<T> Receiver<T> { pub fn borrow(&self) -> Ref<'_, T> { vsym::yield_now(); Ref(unsafe { &*self.s.v.get() }) } pub fn borrow_and_update(&mut self) -> Ref<'_, T> { vsym::yield_now(); self.seen = self.s.n.get(); Ref(unsafe { &*self.s.v.get() }) } pub async fn changed(&mut self) -> Result<(), error::RecvError> { vsym::yield_now(); let seen = self.seen; let s = self.s.clone(); let r = std::future::poll_fn(|cx| { if s.n.get() != seen { return Poll::Ready(Ok(())); } if s.tx.get() == 0 { return Poll::Ready(Err(error::RecvError(()))); } unsafe { (*s.w.get()).push(cx.waker().clone()); } Poll::Pending }).await; self.seen = self.s.n.get(); r } }
        impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.s.rx.set(self.s.rx.get() + 1); Receiver { s: self.s.clone(), seen: self.seen } } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.s.rx.set(self.s.rx.get() - 1); } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { self.s.tx.set(self.s.tx.get() - 1); self.s.wake(); } }
    }
    pub mod oneshot {
        use super::mpsc; pub mod error { #[derive(Debug)] pub struct RecvError(pub(crate) ()); }
        pub struct Sender<T> { s: mpsc::Sender<T> } pub struct Receiver<T> { r: std::pin::Pin<Box<dyn std::future::Future<Output = Option<T>> + Send>> }
        pub fn channel<T: Send + 'static>() -> (Sender<T>, Receiver<T>) { let (s, mut r) = mpsc::channel(1); (Sender { s }, Receiver { r: Box::pin(async move { r.recv().await }) }) }
        impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { match self.s.try_send(t) { Ok(()) => Ok(()), Err(mpsc::error::TrySendError::Full(t)) | Err(mpsc::error::TrySendError::Closed(t)) => Err(t) } } }
        impl<T> std::future::Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { match self.r.as_mut().poll(cx) { std::task::Poll::Ready(Some(v)) => std::task::Poll::Ready(Ok(v)), std::task::Poll::Ready(None) => std::task::Poll::Ready(Err(error::RecvError(()))), std::task::Poll::Pending => std::task::Poll::Pending } } }
    }
    pub struct Mutex<T> { l: std::sync::Mutex<T> } pub type MutexGuard<'a, T> = std::sync::MutexGuard<'a, T>;
    impl<T> Mutex<T> { pub fn new(t: T) -> Mutex<T> { Mutex { l: std::sync::Mutex::new(t) } } pub fn blocking_lock(&self) -> std::sync::MutexGuard<'_, T> { self.l.lock().unwrap() } pub fn try_lock(&self) -> Result<std::sync::MutexGuard<'_, T>, ()> { self.l.try_lock().map_err(|_| ()) } pub fn into_inner(self) -> T { self.l.into_inner().unwrap() } pub async fn lock(&self) -> std::sync::MutexGuard<'_, T> { self.l.lock().unwrap() } }
}
pub mod net {
    pub use std::net::ToSocketAddrs; use std::net::model as m; use std::io; use std::net::SocketAddr;
    pub struct TcpListener { _p: () }
    impl TcpListener {
        pub async fn bind<A: std::net::ToSocketAddrs>(a: A) -> io::Result<TcpListener> { m::bind(a, true)?; Ok(TcpListener { _p: () }) }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { vsym::yield_now(); loop { match m::poll_accept() { m::Acc::Err => return Err(io::ErrorKind::ConnectionAborted.into()), m::Acc::Conn(i) => return Ok((TcpStream { i }, std::net::peer())), m::Acc::Wait(ns) => vsym::wait(7u64 << 60, ns) } } }
    }
    pub struct TcpStream { pub(crate) i: usize }
    impl TcpStream { pub fn model(i: usize) -> TcpStream { TcpStream { i } } pub fn set_nodelay(&self, _b: bool) -> io::Result<()> { Ok(()) } pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(std::net::peer()) } }
    impl Drop for TcpStream { fn drop(&mut self) { m::close(self.i) } }
}
pub mod io {
    use std::io; use std::net::model as m; use crate::net::TcpStream;
    pub use std::io::{Result, Error, ErrorKind};
    pub trait AsyncRead {} pub trait AsyncWrite {} impl AsyncRead for TcpStream {} impl AsyncWrite for TcpStream {}
    #[allow(async_fn_in_trait)] pub trait AsyncReadExt { fn read(&mut self, b: &mut [u8]) -> impl std::future::Future<Output = io::Result<usize>> + Send; fn read_buf(&mut self, b: &mut Vec<u8>) -> impl std::future::Future<Output = io::Result<usize>> + Send;
        fn read_exact(&mut self, b: &mut [u8]) -> impl std::future::Future<Output = io::Result<usize>> + Send; fn read_to_end(&mut self, b: &mut Vec<u8>) -> impl std::future::Future<Output = io::Result<usize>> + Send; }
    impl AsyncReadExt for TcpStream {
        async fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { vsym::yield_now(); loop { return match m::read(self.i, b) { m::Rd::Wait(ns) => { if vsym::tid() == 0 { vsym::wait(5u64 << 60, ns); } else { crate::time::sleep(std::time::Duration::from_nanos(ns)).await; } continue } m::Rd::N(n) => Ok(n), m::Rd::Err => Err(io::ErrorKind::ConnectionReset.into()), m::Rd::Block => { if vsym::tid() == 0 { std::net::blocked() } std::future::poll_fn(|_| std::task::Poll::<()>::Pending).await; unreachable!() } } } }
        async fn read_buf(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { let mut t = [0u8; 1024]; let n = self.read(&mut t).await?; b.extend_from_slice(&t[..n]); Ok(n) }
        async fn read_exact(&mut self, b: &mut [u8]) -> io::Result<usize> { let mut n = 0; while n < b.len() { let k = self.read(&mut b[n..]).await?; if k == 0 { return Err(io::ErrorKind::UnexpectedEof.into()); } n += k; } Ok(n) }
        async fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { let mut n = 0; loop { let k = self.read_buf(b).await?; if k == 0 { return Ok(n); } n += k; } }
    }
    #[allow(async_fn_in_trait)] pub trait AsyncWriteExt { fn write(&mut self, b: &[u8]) -> impl std::future::Future<Output = io::Result<usize>> + Send; fn write_all(&mut self, b: &[u8]) -> impl std::future::Future<Output = io::Result<()>> + Send; fn flush(&mut self) -> impl std::future::Future<Output = io::Result<()>> + Send; fn shutdown(&mut self) -> impl std::future::Future<Output = io::Result<()>> + Send; }
    impl AsyncWriteExt for TcpStream {
        async fn write(&mut self, b: &[u8]) -> io::Result<usize> { vsym::yield_now(); loop { let ns = m::full(self.i); if ns == 0 { break } if vsym::tid() == 0 { vsym::wait(5u64 << 60, ns); } else { crate::time::sleep(std::time::Duration::from_nanos(ns)).await; } } match m::write(self.i, b) { Some(n) => Ok(n), None => Err(io::ErrorKind::BrokenPipe.into()) } }
        async fn write_all(&mut self, mut b: &[u8]) -> io::Result<()> { while !b.is_empty() { let n = self.write(b).await?; if n == 0 { return Err(io::ErrorKind::WriteZero.into()); } b = &b[n..]; } Ok(()) }
        async fn flush(&mut self) -> io::Result<()> { Ok(()) }
        async fn shutdown(&mut self) -> io::Result<()> { m::net().conns[self.i].shut = true; Ok(()) }
    }
}
#[doc(hidden)] pub mod private {
    use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
    /// A future together with its result once it is there.
    pub struct Held<F: Future> { pub f: Pin<Box<F>>, pub r: Option<F::Output> }
    impl<F: Future> Held<F> { pub fn new(f: F) -> Held<F> { Held { f: Box::pin(f), r: None } } pub fn poll(&mut self, cx: &mut Context<'_>) -> bool { if self.r.is_none() { if let Poll::Ready(v) = self.f.as_mut().poll(cx) { self.r = Some(v); } } self.r.is_some() } }
}
#[macro_export] macro_rules! join {
    ($a:expr $(,)?) => { ($a.await,) };
    (@go $($n:ident = $e:expr),*) => {{ $(let mut $n = $crate::private::Held::new($e);)* ::std::future::poll_fn(move |cx| { let mut all = true; $(all &= $n.poll(cx);)* if all { ::std::task::Poll::Ready(($($n.r.take().unwrap(),)*)) } else { ::std::task::Poll::Pending } }).await }};
    ($a:expr, $b:expr $(,)?) => { $crate::join!(@go a = $a, b = $b) };
    ($a:expr, $b:expr, $c:expr $(,)?) => { $crate::join!(@go a = $a, b = $b, c = $c) };
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => { $crate::join!(@go a = $a, b = $b, c = $c, d = $d) };
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr $(,)?) => { $crate::join!(@go a = $a, b = $b, c = $c, d = $d, e = $e) };
}
#[macro_export] macro_rules! pin { ($($x:ident),* $(,)?) => { $(let mut $x = ::std::boxed::Box::pin($x);)* } }
/// `select!` over up to three `pattern = future => handler` branches; the one that is polled first is arbitrary.
#[macro_export] macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!($($t)*) };
    (@go $first:expr; $(($p:pat, $n:ident, $f:expr, $h:expr))*) => {{
        enum Sel<$($n),*> { $($n($n)),* }
        let which = { $(#[allow(non_snake_case)] let mut $n = ::std::boxed::Box::pin($f);)* let mut first = $first; ::std::future::poll_fn(|cx| { for _round in 0..2 { $(if first { first = false } else if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll($n.as_mut(), cx) { return ::std::task::Poll::Ready(Sel::$n(v)); })* } ::std::task::Poll::Pending }).await };
        match which { $(Sel::$n($p) => $h),* }
    }};
    ($p:pat = $f:expr => $h:block $(,)? $q:pat = $g:expr => $i:block $(,)?) => { $crate::select!(@go $crate::first(); ($p, A, $f, $h) ($q, B, $g, $i)) };
    ($p:pat = $f:expr => $h:expr, $q:pat = $g:expr => $i:expr $(,)?) => { $crate::select!(@go $crate::first(); ($p, A, $f, $h) ($q, B, $g, $i)) };
    ($p:pat = $f:expr => $h:block $(,)? $q:pat = $g:expr => $i:expr $(,)?) => { $crate::select!(@go $crate::first(); ($p, A, $f, $h) ($q, B, $g, $i)) };
    ($p:pat = $f:expr => $h:block $(,)? $q:pat = $g:expr => $i:block $(,)? $r:pat = $j:expr => $k:block $(,)?) => { $crate::select!(@go $crate::first(); ($p, A, $f, $h) ($q, B, $g, $i) ($r, C, $j, $k)) };
    ($p:pat = $f:expr => $h:expr, $q:pat = $g:expr => $i:expr, $r:pat = $j:expr => $k:expr $(,)?) => { $crate::select!(@go $crate::first(); ($p, A, $f, $h) ($q, B, $g, $i) ($r, C, $j, $k)) };
}
#[doc(hidden)] pub fn first() -> bool { static mut N: u32 = 0; unsafe { N += 1; if N > 5 { N & 1 == 1 } else { vsym::choose(2) == 1 } } }
#[macro_export] macro_rules! try_join { ($($e:expr),+ $(,)?) => { $crate::__try_join!(($($e),+)) } }
#[doc(hidden)] #[macro_export] macro_rules! __try_join {
    (($a:expr)) => { match $a.await { Ok(x) => Ok((x,)), Err(e) => Err(e) } };
    (@go $($n:ident = $e:expr),*) => {{ $(let mut $n = $crate::private::Held::new($e);)* ::std::future::poll_fn(move |cx| { let mut all = true; $(if $n.poll(cx) { if let Some(Err(_)) = $n.r { if let Some(Err(e)) = $n.r.take() { return ::std::task::Poll::Ready(Err(e)); } } } else { all = false; })* if all { ::std::task::Poll::Ready(Ok(($(match $n.r.take() { Some(Ok(v)) => v, _ => unreachable!() },)*))) } else { ::std::task::Poll::Pending } }).await }};
    (($a:expr, $b:expr)) => { $crate::__try_join!(@go a = $a, b = $b) };
    (($a:expr, $b:expr, $c:expr)) => { $crate::__try_join!(@go a = $a, b = $b, c = $c) };
    (($a:expr, $b:expr, $c:expr, $d:expr)) => { $crate::__try_join!(@go a = $a, b = $b, c = $c, d = $d) };
}
