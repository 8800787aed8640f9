//! Sockets driven by a script the harness installs: what each client sends, how the bytes are split
//! over reads, how many bytes each write takes, and what follows the client's last byte.
pub use realstd::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, Shutdown, AddrParseError};
use realstd::io::{self, Read, Write}; use realstd::time::Duration; use realstd::prelude::v1::*; use realstd::fmt;
pub mod model {
    use realstd::prelude::v1::*; use realstd::vec::Vec; use realstd::net::SocketAddr; use realstd::io;
    #[derive(Clone, Copy, PartialEq)] pub enum After { Eof, Silent, Error }
    pub struct Conn { pub input: Vec<u8>, pub cuts: Vec<usize>, pub after: After, pub write_max: usize, pub write_fail_at: usize, pub accept_err: bool, pub at_ns: u64, /** does not connect before every earlier client was served */ pub gate: bool,
        pub pos: usize, pub out: Vec<u8>, pub closed: bool, pub eofs: u32, pub accepted: bool, pub done_ns: u64, /** further handles to the connection */ pub handles: u32, /** read timeout in ns */ pub rt: u64, /** no further writes */ pub shut: bool, /** the client pauses for so long after each piece */ pub gap: u64, pub paused: (usize, u64), /** the client lets so much time pass before it takes more of the response */ pub wgap: u64, pub wpaused: (usize, u64), /** write timeout in ns */ pub wt: u64, /** after so many bytes every write takes nothing */ pub write_zero_at: usize }
    impl Conn { pub fn new(input: Vec<u8>) -> Conn { Conn { input, cuts: Vec::new(), after: After::Silent, write_max: usize::MAX, write_fail_at: usize::MAX, accept_err: false, at_ns: 0, gate: false, pos: 0, out: Vec::new(), closed: false, eofs: 0, accepted: false, done_ns: 0, handles: 0, rt: 0, shut: false, gap: 0, paused: (0, 0), wgap: 0, wpaused: (0, 0), wt: 0, write_zero_at: usize::MAX } } }
    pub struct Net { pub conns: Vec<Conn>, pub next: usize, pub end_when_idle: bool, pub listening: bool, /** where the server listens */ pub bound: Option<(bool, SocketAddr)>, pub spin_limit: u32 }
    pub static mut NET: Net = Net { conns: Vec::new(), next: 0, end_when_idle: false, listening: false, bound: None, spin_limit: 12 };
    #[inline(never)] pub fn net() -> &'static mut Net { unsafe { &mut NET } }
    /// Called when every scripted client was served and nothing else will arrive (end_when_idle).
    pub static mut ON_IDLE: fn() = || {};
    pub fn bind<A: super::ToSocketAddrs>(a: A, async_: bool) -> io::Result<()> { let mut last = io::ErrorKind::InvalidInput.into(); for x in a.to_socket_addrs()? { if net().bound.is_some() { last = io::ErrorKind::AddrInUse.into(); continue } net().bound = Some((async_, x)); net().listening = true; return Ok(()) } Err(last) }
    pub enum Acc { Err, Conn(usize), Wait(u64) }
    pub fn poll_accept() -> Acc {
        let n = net();
        if n.next >= n.conns.len() { if n.end_when_idle { unsafe { ON_IDLE() }; vsym::end(); } return Acc::Wait(vsym::NEVER); }
        if n.conns[n.next].gate { for j in 0..n.next { if !n.conns[j].closed { return Acc::Wait(vsym::NEVER); } } }
        let c = &mut n.conns[n.next];
        if c.at_ns > vsym::now() { return Acc::Wait(c.at_ns - vsym::now()); }
        let i = n.next; n.next += 1; c.accepted = true;
        if c.accept_err { c.closed = true; return Acc::Err; }
        Acc::Conn(i)
    }
    pub enum Rd { N(usize), Err, Block, Wait(u64) }
    pub fn read(i: usize, b: &mut [u8]) -> Rd {
        let lim = net().spin_limit;
        let c = &mut net().conns[i];
        if c.gap > 0 && c.pos > 0 && b.len() > 0 && (c.pos == c.input.len() || c.cuts.contains(&c.pos)) {
            if c.paused.0 != c.pos { c.paused = (c.pos, vsym::now() + c.gap); }
            let t = vsym::now(); if t < c.paused.1 { return Rd::Wait(c.paused.1 - t); }
        }
        let mut end = c.input.len();
        for &k in c.cuts.iter() { if k > c.pos && k < end { end = k; } }
        let n = if end - c.pos < b.len() { end - c.pos } else { b.len() };
        if n > 0 { b[..n].copy_from_slice(&c.input[c.pos..c.pos + n]); c.pos += n; return Rd::N(n); }
        if b.len() == 0 { return Rd::N(0); }
        match c.after {
            After::Silent => Rd::Block,
            After::Error => { c.eofs += 1; if c.eofs > lim { vsym::fail("the server keeps reading a connection whose reads fail"); } Rd::Err }
            After::Eof => { c.eofs += 1; if c.eofs > lim { vsym::fail("the server keeps reading a connection the client has closed"); } Rd::N(0) }
        }
    }
    /// How long the connection takes no further bytes.
    pub fn full(i: usize) -> u64 {
        let c = &mut net().conns[i]; let n = c.out.len(); if c.wgap == 0 || n == 0 { return 0 }
        if c.wpaused.0 != n { c.wpaused = (n, vsym::now() + c.wgap); }
        let t = vsym::now(); if t < c.wpaused.1 { c.wpaused.1 - t } else { 0 }
    }
    pub fn write(i: usize, b: &[u8]) -> Option<usize> {
        let c = &mut net().conns[i];
        if c.shut { c.eofs += 1; if c.eofs > 200 { vsym::fail("the server keeps writing to a connection it has shut down"); } return None; }
        if c.out.len() >= c.write_fail_at { c.eofs += 1; if c.eofs > 200 { vsym::fail("the server keeps writing to a connection whose writes fail"); } return None; }
        if c.out.len() >= c.write_zero_at && b.len() > 0 { c.eofs += 1; if c.eofs > 200 { vsym::fail("the server keeps writing to a connection that takes nothing") } return Some(0); }
        let mut n = b.len(); if n > c.write_zero_at - c.out.len() { n = c.write_zero_at - c.out.len(); } if n > c.write_max { n = c.write_max; } if n > c.write_fail_at - c.out.len() { n = c.write_fail_at - c.out.len(); }
        c.out.extend_from_slice(&b[..n]); Some(n)
    }
    pub fn close(i: usize) { let c = &mut net().conns[i]; if c.handles > 0 { c.handles -= 1; return } if !c.closed { c.closed = true; c.done_ns = vsym::now(); } vsym::wake(NETCH); vsym::wake(7u64 << 60); if idle() { vsym::pause(true); } }
    /// Every scripted client has been served.
    pub fn idle() -> bool { let n = net(); if n.conns.is_empty() { return false } for c in n.conns.iter() { if !c.closed { return false } } true }
    /// Channel woken whenever a connection is closed.
    pub const NETCH: u64 = 6u64 << 60;
    pub fn push(c: Conn) -> usize { net().conns.push(c); net().conns.len() - 1 }
}
use model::*;
/// Address resolution without a name service: literals and localhost only.
pub trait ToSocketAddrs { type Iter: Iterator<Item = SocketAddr>; fn to_socket_addrs(&self) -> io::Result<Self::Iter>; }
type It = realstd::vec::IntoIter<SocketAddr>;
fn one(a: SocketAddr) -> io::Result<It> { Ok(realstd::vec![a].into_iter()) }
fn host(h: &str, port: u16) -> io::Result<It> { if let Ok(ip) = h.parse::<IpAddr>() { return one(SocketAddr::new(ip, port)) } if h == "localhost" { return one(SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port)) } Err(io::ErrorKind::Other.into()) }
impl ToSocketAddrs for str { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> {
    if let Ok(a) = self.parse::<SocketAddr>() { return one(a) }
    match self.rsplit_once(':') { Some((h, p)) => match p.parse::<u16>() { Ok(p) => host(h, p), Err(_) => Err(io::ErrorKind::InvalidInput.into()) }, None => Err(io::ErrorKind::InvalidInput.into()) } } }
impl ToSocketAddrs for String { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { (**self).to_socket_addrs() } }
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { type Iter = T::Iter; fn to_socket_addrs(&self) -> io::Result<T::Iter> { (**self).to_socket_addrs() } }
impl ToSocketAddrs for (&str, u16) { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { host(self.0, self.1) } }
impl ToSocketAddrs for (String, u16) { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { host(&self.0, self.1) } }
impl ToSocketAddrs for SocketAddr { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(*self) } }
impl ToSocketAddrs for SocketAddrV4 { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(SocketAddr::V4(*self)) } }
impl ToSocketAddrs for SocketAddrV6 { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(SocketAddr::V6(*self)) } }
impl ToSocketAddrs for (IpAddr, u16) { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(SocketAddr::new(self.0, self.1)) } }
impl ToSocketAddrs for (Ipv4Addr, u16) { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(SocketAddr::new(IpAddr::V4(self.0), self.1)) } }
impl ToSocketAddrs for (Ipv6Addr, u16) { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { one(SocketAddr::new(IpAddr::V6(self.0), self.1)) } }
impl ToSocketAddrs for [SocketAddr] { type Iter = It; fn to_socket_addrs(&self) -> io::Result<It> { Ok(self.to_vec().into_iter()) } }
/// A polling accept that finds nobody deschedules the caller for at most this long.
const SPIN: u64 = 200_000_000;
pub struct TcpListener { nb: realstd::sync::atomic::AtomicBool }
impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> { bind(a, false)?; Ok(TcpListener { nb: realstd::sync::atomic::AtomicBool::new(false) }) }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        vsym::yield_now();
        loop { match poll_accept() { Acc::Err => return Err(io::ErrorKind::ConnectionAborted.into()), Acc::Conn(i) => return Ok((TcpStream { i }, peer())), Acc::Wait(ns) => { if self.nb.load(realstd::sync::atomic::Ordering::SeqCst) { vsym::wait(7u64 << 60, if ns < SPIN { ns } else { SPIN }); return Err(io::ErrorKind::WouldBlock.into()); } vsym::wait(7u64 << 60, ns) } } }
    }
    pub fn incoming(&self) -> Incoming<'_> { Incoming { l: self } }
    pub fn set_nonblocking(&self, b: bool) -> io::Result<()> { self.nb.store(b, realstd::sync::atomic::Ordering::SeqCst); Ok(()) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { match net().bound { Some((_, a)) => Ok(a), None => Ok(peer()) } }
    pub fn try_clone(&self) -> io::Result<TcpListener> { Ok(TcpListener { nb: realstd::sync::atomic::AtomicBool::new(self.nb.load(realstd::sync::atomic::Ordering::SeqCst)) }) }
}
pub struct Incoming<'a> { l: &'a TcpListener }
impl<'a> Iterator for Incoming<'a> { type Item = io::Result<TcpStream>; fn next(&mut self) -> Option<io::Result<TcpStream>> { Some(match self.l.accept() { Ok(x) => Ok(x.0), Err(e) => Err(e) }) } }
pub fn peer() -> SocketAddr { SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 1), 9)) }
pub struct TcpStream { pub i: usize }
impl fmt::Debug for TcpStream { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("TcpStream") } }
impl TcpStream {
    pub fn model(i: usize) -> TcpStream { TcpStream { i } }
    pub fn shutdown(&self, h: Shutdown) -> io::Result<()> { if h != Shutdown::Read { net().conns[self.i].shut = true; } Ok(()) } pub fn set_nodelay(&self, _b: bool) -> io::Result<()> { Ok(()) } pub fn set_nonblocking(&self, b: bool) -> io::Result<()> { net().conns[self.i].rt = if b { 1_000_000 } else { 0 }; net().conns[self.i].wt = net().conns[self.i].rt; Ok(()) }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> { match d { Some(d) if d.is_zero() => Err(io::ErrorKind::InvalidInput.into()), Some(d) => { net().conns[self.i].rt = vsym::nanos(d); Ok(()) } None => { net().conns[self.i].rt = 0; Ok(()) } } } pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> { match d { Some(d) if d.is_zero() => Err(io::ErrorKind::InvalidInput.into()), Some(d) => { net().conns[self.i].wt = vsym::nanos(d); Ok(()) } None => { net().conns[self.i].wt = 0; Ok(()) } } } pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(peer()) }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> { Ok(None) } pub fn write_timeout(&self) -> io::Result<Option<Duration>> { Ok(None) } pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(peer()) } pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) } pub fn nodelay(&self) -> io::Result<bool> { Ok(true) } pub fn set_ttl(&self, _n: u32) -> io::Result<()> { Ok(()) }
    pub fn try_clone(&self) -> io::Result<TcpStream> { net().conns[self.i].handles += 1; Ok(TcpStream { i: self.i }) }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> { vsym::yield_now(); loop { return match read(self.i, b) { Rd::Wait(ns) => { let t = net().conns[self.i].rt; if t > 0 && t < ns { vsym::wait(5u64 << 60, t); return Err(io::ErrorKind::WouldBlock.into()); } vsym::wait(5u64 << 60, ns); continue } Rd::N(n) => Ok(n), Rd::Err => Err(io::ErrorKind::ConnectionReset.into()), Rd::Block => { let t = net().conns[self.i].rt; if t > 0 { vsym::wait(5u64 << 60, t); return Err(io::ErrorKind::WouldBlock.into()); } blocked() } } } }
    fn wr(&self, b: &[u8]) -> io::Result<usize> { vsym::yield_now(); loop { let ns = full(self.i); if ns == 0 { break } let t = net().conns[self.i].wt; if t > 0 && t < ns { vsym::wait(5u64 << 60, t); return Err(io::ErrorKind::WouldBlock.into()); } vsym::wait(5u64 << 60, ns) } match write(self.i, b) { Some(n) => Ok(n), None => Err(io::ErrorKind::BrokenPipe.into()) } }
}
/// The client sends nothing more and waits: a read blocks for ever.
pub fn blocked() -> ! { if vsym::tid() == 0 { vsym::fail("the server waits for more input although the client has sent its whole request") } vsym::wait(5u64 << 60, vsym::NEVER); vsym::fail("woken from a blocked read") }
impl Read for TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl Read for &TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl fmt::Debug for TcpListener { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("TcpListener") } }
impl Write for TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Write for &TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Drop for TcpStream { fn drop(&mut self) { close(self.i) } }
