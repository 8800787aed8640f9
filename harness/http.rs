//! HTTP front end (C14-C18), for the blocking (mode 0) and the asynchronous (mode 1) implementation.
use crate::common::*;
use std::net::model::{self as net, After, Conn};
use std::net::{IpAddr, Ipv4Addr};
use server::io::stream::{StreamHandler, StreamSender};
use server::io::{tcp, tcp_async};

pub enum Send { B(Box<dyn StreamSender + std::marker::Send>), A(tcp_async::TcpStreamSender) }
impl Send {
    pub fn send(&mut self, r: Result<R, ServerError>) -> Result<(), ServerError> { match self { Send::B(s) => s.send(r), Send::A(s) => tokio::runtime::block_on(s.send(r)) } }
}
/// What the front end made of one connection.
pub struct Got { pub req: Result<String, ServerError>, pub headers: Vec<(String, String)>, pub sender: Option<Send> }
const IP: IpAddr = IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1));
pub fn receive(mode: u64) -> Got {
    if mode == 0 {
        let mut h = tcp::TcpStreamHandler::new(IP, 8080);
        match h.receive_request() { None => fail("no answer for an accepted connection"), Some(r) => Got { req: r.request, headers: r.headers.into_iter().collect(), sender: r.sender.map(Send::B) } }
    } else {
        let r = tokio::runtime::block_on(async { let mut h = tcp_async::TcpStreamHandler::new(IP, 8080).await; h.receive_request().await });
        Got { req: r.request, headers: r.headers.into_iter().collect(), sender: r.sender.map(Send::A) }
    }
}
fn hdr<'a>(g: &'a Got, n: &str) -> Option<&'a str> { for (a, b) in &g.headers { if streq(a, n) { return Some(b); } } None }
fn tr_got(g: &Got) { match &g.req { Ok(q) => { trace(1); for b in q.as_bytes() { trace(*b as u64) } } Err(e) => trace(100 + errk(e) as u64) } trace(g.headers.len() as u64); }
/// A printable ASCII character that needs no escape in JSON and is no blank.
pub fn plain() -> u8 { let x = vsym::u8() & 0x7f; assume(x > 0x20 && x < 0x7f && x != b'"' && x != b'\\'); x }
fn plains(n: usize) -> String { let mut s = String::new(); for _ in 0..n { s.push(plain() as char) } s }

/// A well-formed request. `shape` varies the header order, additional headers, line structure and JSON layout.
pub fn request(q: &str, user: &str, shape: usize, pad: usize) -> Vec<u8> {
    let ws = match shape { 4 => " \n\t", _ => "" };
    let mut body = String::new();
    if shape == 3 { body.push_str("{\"other\":[1,{\"query\":2}],"); } else { body.push_str("{"); }
    body.push_str(ws); body.push_str("\"query\""); body.push_str(ws); body.push(':'); for _ in 0..pad { body.push(' ') } body.push_str(ws);
    body.push('"'); body.push_str(q); body.push_str("\""); body.push_str(ws); body.push_str("}"); body.push_str(ws);
    let cl = match shape { 1 => "content-length", 2 => "CONTENT-LENGTH", _ => "Content-Length" };
    let mut m = String::from(match shape { 2 => "POST /any/path?x=1 HTTP/1.1\r\n", 3 => "POST / HTTP/1.0\r\n", 4 => "POST http://a.b:80/ HTTP/1.1\r\n", _ => "POST / HTTP/1.1\r\n" });
    if shape == 1 { m.push_str(&format!("{}: {}\r\nHost: a\r\nUsername: {}\r\nAccept: */*\r\n\r\n", cl, body.len(), user)) }
    else if shape == 2 { m.push_str(&format!("Username:{}\r\n{}:{}\r\nX-Empty:\r\n\r\n", user, cl, body.len())) }
    else { m.push_str(&format!("Username: {}\r\n{}: {}\r\n\r\n", user, cl, body.len())) }
    m.push_str(&body);
    m.into_bytes()
}
pub fn expect(g: &Got, q: &str, user: &str) {
    tr_got(g);
    match &g.req { Ok(r) => check(streq(r, q), "the query differs from the one the client sent"), Err(_) => fail("a well-formed request was rejected") }
    match hdr(g, "Username") { Some(u) => check(streq(u, user), "a header differs from the one the client sent"), None => fail("a header the client sent is missing") }
    check(g.sender.is_some(), "no way to answer a request");
}
/// C14: any segmentation of the byte stream. params: mode, shape, cuts, step (positions considered), tail bytes, pad
pub fn segments() {
    let mode = param(0); let shape = param(1) as usize; let cuts = param(2) as usize; let step = param(3) as usize; let tail = param(4) as usize; let pad = param(5) as usize;
    let q = plains(2); let user = plains(2);
    let mut m = request(&q, &user, shape, pad); let end = m.len();
    for _ in 0..tail { m.push(vsym::u8()) }
    let mut c = Conn::new(m); let n = c.input.len();
    let mut lo = 1;
    for _ in 0..cuts { if lo >= n { break } let k = (n - lo + step - 1) / step; let p = lo + choose(k) * step; c.cuts.push(p); lo = p + 1; }
    net::push(c);
    let g = receive(mode);
    expect(&g, &q, &user);
    check(net::net().conns[0].pos + tail >= end, "answered before the whole request was read"); 
    reach(1);
}
/// C14: every read delivers k bytes (param 2), the client sends exactly its request and waits.
pub fn trickle() {
    let mode = param(0); let shape = param(1) as usize; let k = param(2) as usize; let pad = param(3) as usize;
    let q = plains(2); let user = plains(1);
    let m = request(&q, &user, shape, pad);
    let mut c = Conn::new(m); let mut p = k; while p < c.input.len() { c.cuts.push(p); p += k; }
    net::push(c);
    let g = receive(mode); expect(&g, &q, &user); reach(1);
}
/// C14: the client pauses after each piece of its request, or before it closes. params: mode, shape, cuts, step, pause in ms
pub fn slow() {
    let mode = param(0); let shape = param(1) as usize; let step = param(3) as usize;
    let q = plains(2); let user = plains(1); vsym::clock().virt = true;
    let mut c = Conn::new(request(&q, &user, shape, 0)); let n = c.input.len(); let mut lo = 1; c.gap = param(4) * 1_000_000;
    for _ in 0..param(2) { if lo >= n { break } let p = lo + choose((n - lo + step - 1) / step) * step; c.cuts.push(p); lo = p + 1; }
    net::push(c);
    let g = receive(mode); expect(&g, &q, &user); reach(1);
}
/// C14: requests of about k times the read buffer's size, in full reads; the client waits or closes. params: mode, size
pub fn exact() {
    let mode = param(0); let q = plains(1); let user = plains(1);
    let want = param(1) as usize + choose(5) - 2; let mut pad = 0;
    loop { let n = request(&q, &user, 0, pad).len(); if n == want { break } if n > want { assume(false) } pad += if want - n > 8 { want - n - 8 } else { 1 }; }
    let mut c = Conn::new(request(&q, &user, 0, pad)); if choose(2) == 1 { c.after = After::Eof }
    match choose(3) { 0 => (), 1 => { let mut p = 1024; while p < c.input.len() { c.cuts.push(p); p += 1024 } } _ => { c.cuts.push(1); let mut p = 1025; while p < c.input.len() { c.cuts.push(p); p += 1024 } } }
    net::push(c);
    let g = receive(mode); expect(&g, &q, &user); reach(1);
}
/// C14: a header of n bytes, or many headers, anywhere among the others. params: mode, size (0: k headers), k, piece
pub fn long_head() {
    let (mode, n, k, piece) = (param(0), param(1) as usize, param(2) as usize, param(3) as usize); let q = plains(1); let user = plains(1);
    let mut body = b"{\"query\":\"".to_vec(); body.extend_from_slice(q.as_bytes()); body.extend_from_slice(b"\"}");
    let mut long: Vec<u8> = Vec::new(); if n > 0 { long.extend_from_slice(b"Cookie: "); for i in 0..n { long.push(b'a' + (i % 20) as u8) } long.extend_from_slice(b"\r\n"); } else { for i in 0..k { long.extend_from_slice(format!("X-{}: {}\r\n", i, i).as_bytes()) } }
    let at = choose(3); let mut m = b"POST / HTTP/1.1\r\n".to_vec();
    if at == 0 { m.extend_from_slice(&long) } m.extend_from_slice(b"Username: "); m.extend_from_slice(user.as_bytes()); m.extend_from_slice(b"\r\n"); if at == 1 { m.extend_from_slice(&long) }
    m.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes()); if at == 2 { m.extend_from_slice(&long) } m.extend_from_slice(b"\r\n"); m.extend_from_slice(&body);
    let mut c = Conn::new(m); if choose(2) == 1 { c.after = After::Eof }
    if piece > 0 { let mut p = piece; while p < c.input.len() { c.cuts.push(p); p += piece } }
    net::push(c); let g = receive(mode); expect(&g, &q, &user); reach(1);
}
const PRE: [&str; 13] = ["", "POST / HTTP/1.1\r\n", "POST / HTTP/1.1\r\nContent-Length: ", "POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\n", "POST / HTTP/1.1\r\nA", "POST / HTTP/1.1\r\nA: ", "GET", "POST / HTTP/1.",
    "POST / HTTP/1.1\r\nContent-Length: 4\r\n", "POST / HTTP/1.1\r\nContent-Length: 13\r\n\r\n{\"query\":\"", "POST / HTTP/1.1\r\nContent-Length: 12\r\n\r\n{\"query\":", "POST / HTTP/1.1\r\nContent-Length: 14\r\n\r\n{\"query\":\"\\u", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n"];
/// C15: after each prefix any n bytes, then the client closes or the connection breaks. params: mode, prefix, n
pub fn bytes() {
    let mode = param(0); let mut m = PRE[param(1) as usize].as_bytes().to_vec();
    let n = m.len(); m.resize(n + param(2) as usize, 0); vsym::fill(&mut m[n..]);
    // numbers with a fraction or an exponent are outside the bound: their value is serde_json's float arithmetic
    for i in n + 1..m.len() { let (a, b) = (m[i - 1], m[i]); assume(!((a >= b'0') & (a <= b'9') & ((b == b'.') | (b == b'e') | (b == b'E')))); }
    let mut c = Conn::new(m);
    c.after = if choose(2) == 0 { After::Eof } else { After::Error };
    if param(3) == 1 { c.cuts.push(n); }
    net::push(c);
    let mut g = receive(mode); tr_got(&g);
    answer(&mut g); reach(1);
}
/// Whatever was received can be answered, and the answer says what went wrong.
fn answer(g: &mut Got) {
    let r = match &g.req { Ok(_) => { reach(2); Ok(R::Null) } Err(e) => { reach(3); Err(e.clone()) } };
    match &mut g.sender { None => fail("no way to answer an accepted connection"), Some(s) => check(s.send(r).is_ok(), "the answer could not be sent") }
    check(net::net().conns[0].out.len() > 0, "nothing was sent");
}
/// C15: many headers, each with a symbolic byte. params: mode, number
pub fn headers() {
    let mode = param(0); let n = param(1) as usize;
    let mut m = String::from("POST / HTTP/1.1\r\nUsername: a\r\nContent-Length: 13\r\n"); for i in 2..n { m.push_str(&format!("H{}: x\r\n", i)); } m.push_str("\r\n{\"query\":\"k\"}");
    net::push(Conn::new(m.into_bytes()));
    let mut g = receive(mode); tr_got(&g);
    if n <= 32 { expect(&g, "k", "a"); check(g.headers.len() == n, "a header was lost"); }
    answer(&mut g); reach(1);
}
fn token(x: u8) -> bool { let l = x | 32; (l >= b'a' && l <= b'z') || (x >= b'0' && x <= b'9') || x == b'-' || x == b'_' }
/// C14/C16/C22: another header is named almost like the length or the user's, before, between or after the true ones, with another value;
/// only the true ones count. params: mode, which name (0: Content-Length, 1: Username)
pub fn near() {
    let mode = param(0); let full = if param(1) == 0 { "Content-Length" } else { "Username" };
    let mut v = full.as_bytes().to_vec(); let x = vsym::u8() & 0x7f; assume(token(x));
    match choose(6) {
        0 => v.insert(0, x), 1 => v.push(x), 2 => { v.insert(0, b'-'); v.insert(0, x) }
        3 => { let at = choose(v.len()); assume((x | 32) != (v[at] | 32)); v[at] = x } // one character differs
        4 => { let at = choose(v.len() - 1); v.truncate(at + 1) }
        _ => { let at = choose(v.len() - 1); v = v.split_off(at + 1) }
    }
    let odd = unsafe { String::from_utf8_unchecked(v) };
    let val = if param(1) == 0 { key(["5", "13", "0", "99999", "abc"][choose(5)]) } else { key(["admin", "read", ""][choose(3)]) };
    let body = "{\"query\":\"get k\"}  ";
    let mut h = vec![format!("Username: u"), format!("Content-Length: {}", body.len())]; let at = choose(3); h.insert(at, format!("{}: {}", odd, val));
    net::push(Conn::new(format!("POST / HTTP/1.1\r\n{}\r\n\r\n{}", h.join("\r\n"), body).into_bytes()));
    let mut g = receive(mode); expect(&g, "get k", "u");
    let mut n = 0; for (a, b) in &g.headers { if streq(a, &odd) { n += 1; check(streq(b, &val), "a header differs from the one the client sent") } } check(n == 1, "a header the client sent is missing");
    answer(&mut g); reach(1);
}
/// C16: Content-Length is found however it is spelled, every letter of its name in either case, before or after another header. params: mode
pub fn spelled() {
    let mode = param(0); let up = vsym::u32(); let mut v = b"content-length".to_vec();
    for i in 0..v.len() { if v[i] != b'-' { v[i] ^= (((up >> i) & 1) as u8) << 5; } }
    let name = unsafe { String::from_utf8_unchecked(v) }; let body = "{\"query\":\"get k\"} "; let l = [body.len(), body.len() - 1, 5][choose(3)];
    let h = if choose(2) == 0 { format!("Username: u\r\n{}: {}", name, l) } else { format!("{}: {}\r\nUsername: u", name, l) };
    net::push(Conn::new(format!("POST / HTTP/1.1\r\n{}\r\n\r\n{}", h, body).into_bytes()));
    let mut g = receive(mode);
    if l == 5 { check(g.req.is_err(), "a body cut short by its announced length is accepted"); reach(2) } else { expect(&g, "get k", "u"); reach(1) }
    answer(&mut g);
}
fn key(t: &str) -> String { t.to_string() }
/// C15: a connection that could not be accepted, then a good one.
pub fn accept() {
    let mode = param(0);
    let mut c = Conn::new(Vec::new()); c.accept_err = true; net::push(c);
    net::push(Conn::new(request("k", "a", 0, 0)));
    if mode == 0 {
        let mut h = tcp::TcpStreamHandler::new(IP, 8080);
        match h.receive_request() { Some(r) => check(r.request.is_err(), "a failed accept gave a request"), None => reach(4) }
        match h.receive_request() { Some(r) => check(match r.request { Ok(q) => streq(&q, "k"), _ => false }, "the connection after a failed accept was not served"), None => fail("the connection after a failed accept was not served") }
    } else {
        tokio::runtime::block_on(async { let mut h = tcp_async::TcpStreamHandler::new(IP, 8080).await;
            let r = h.receive_request().await; check(r.request.is_err(), "a failed accept gave a request");
            let r = h.receive_request().await; check(match r.request { Ok(q) => streq(&q, "k"), _ => false }, "the connection after a failed accept was not served"); });
    }
    reach(1);
}

// ---- C16: framing and decoding of the body ----
/// The Content-Length is any n characters. The body offers 13 bytes of JSON, `sp` blanks and 3 further bytes. params: mode, digits, sp, follow (0: closes, 1: breaks)
pub fn length() {
    let mode = param(0); let n = param(1) as usize; let sp = param(2) as usize;
    let mut v = vec![0u8; n]; let mut good = true; let mut len: u64 = 0;
    for i in 0..n { let x = vsym::u8() & 0x7f; assume(x > 0x20 && x < 0x7f && x != b'+'); v[i] = x; let d = x >= b'0' && x <= b'9'; good &= d; len = len.saturating_mul(10).saturating_add(x.wrapping_sub(b'0') as u64); }
    let mut m = b"POST / HTTP/1.1\r\nContent-Length: ".to_vec(); m.extend_from_slice(&v); m.extend_from_slice(b"\r\n\r\n{\"query\":\"k\"}"); for _ in 0..sp { m.push(b' ') } m.extend_from_slice(b"{}x");
    let mut c = Conn::new(m); c.after = if param(3) == 0 { After::Eof } else { After::Error }; net::push(c);
    let mut g = receive(mode); tr_got(&g);
    let fine = good & (len >= 13) & (len <= 13 + sp as u64);
    match &g.req { Ok(q) => { check(fine, "the body was not cut at the announced length"); check(streq(q, "k"), "the query differs from the one the client sent") } Err(_) => check(!fine, "a well-formed request was rejected") }
    answer(&mut g); reach(1);
}
/// An extreme announced length, concrete, chosen from a list. params: mode
pub fn huge() {
    let l = ["18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4294967296", "4294967309", "00000000000000000000000000000013", "-1", "0", "", "1 3", "13,13", "0x0d", "13.0"]; let i = choose(l.len());
    let mut m = b"POST / HTTP/1.1\r\nContent-Length: ".to_vec(); m.extend_from_slice(l[i].as_bytes()); m.extend_from_slice(b"\r\n\r\n{\"query\":\"k\"}");
    let mut c = Conn::new(m); c.after = After::Eof; net::push(c);
    let mut g = receive(param(0)); tr_got(&g);
    if i != 6 { check(g.req.is_err(), "an ill-formed request was accepted") }
    answer(&mut g); reach(1);
}
fn hex(c: u8) -> Option<u32> { match c { b'0'..=b'9' => Some((c - b'0') as u32), b'a'..=b'f' => Some((c - b'a') as u32 + 10), b'A'..=b'F' => Some((c - b'A') as u32 + 10), _ => None } }
/// RFC 8259 string contents, up to the closing quote, which must be the last byte. None: not a string.
fn decode(b: &[u8]) -> Option<Vec<u8>> {
    let mut r = Vec::new(); let mut i = 0;
    loop {
        if i >= b.len() { return None }
        let c = b[i]; i += 1;
        if c == b'"' { return if i == b.len() { Some(r) } else { None } }
        if c < 0x20 { return None }
        if c != b'\\' { r.push(c); continue }
        if i >= b.len() { return None }
        let c = b[i]; i += 1;
        match c { b'"' | b'\\' | b'/' => r.push(c), b'b' => r.push(8), b'f' => r.push(12), b'n' => r.push(10), b'r' => r.push(13), b't' => r.push(9),
            b'u' => {
                let u = |i: usize| -> Option<u32> { if i + 4 > b.len() { return None } let mut v = 0; for j in 0..4 { v = v * 16 + hex(b[i + j])? } Some(v) };
                let mut x = u(i)?; i += 4;
                if x >= 0xdc00 && x < 0xe000 { return None }
                if x >= 0xd800 && x < 0xdc00 { if i + 6 > b.len() || b[i] != b'\\' || b[i + 1] != b'u' { return None } let y = u(i + 2)?; if y < 0xdc00 || y > 0xdfff { return None } i += 6; x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00); }
                if x < 0x80 { r.push(x as u8) } else if x < 0x800 { r.push(0xc0 | (x >> 6) as u8); r.push(0x80 | (x & 63) as u8) } else if x < 0x10000 { r.push(0xe0 | (x >> 12) as u8); r.push(0x80 | (x >> 6 & 63) as u8); r.push(0x80 | (x & 63) as u8) }
                else { r.push(0xf0 | (x >> 18) as u8); r.push(0x80 | (x >> 12 & 63) as u8); r.push(0x80 | (x >> 6 & 63) as u8); r.push(0x80 | (x & 63) as u8) }
            }
            _ => return None }
    }
}
/// The query string is any n ASCII characters after a fixed beginning. params: mode, beginning, n
pub fn query() {
    let pre = ["", "\\", "\\u", "\\ud8", "\\ud83d\\ude", "set k str \\\"", "\\n\\t", "é"][param(1) as usize];
    let s = ascii(param(2) as usize);
    let mut raw = pre.as_bytes().to_vec(); raw.extend_from_slice(s.as_bytes());
    let mut body = b"{\"query\":\"".to_vec(); body.extend_from_slice(&raw); body.extend_from_slice(b"\"}");
    let mut m = format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes(); m.extend_from_slice(&body);
    net::push(Conn::new(m));
    let mut g = receive(param(0)); tr_got(&g);
    raw.push(b'"');
    match (&g.req, decode(&raw)) { (Ok(q), Some(w)) => { let a = q.as_bytes(); let mut ok = a.len() == w.len(); if ok { for i in 0..w.len() { ok &= a[i] == w[i] } } check(ok, "the query differs from the one the client sent"); reach(4) }
        (Err(_), None) => reach(5), (Ok(_), None) => { if !quoted(&raw) { fail("an ill-formed body was accepted") } } (Err(_), Some(_)) => fail("a well-formed request was rejected") }
    answer(&mut g); reach(1);
}
/// Does the query string end early, so that more JSON follows it?
fn quoted(raw: &[u8]) -> bool { let mut i = 0; while i < raw.len() { if raw[i] == b'\\' { i += 2; continue } if raw[i] == b'"' { return i + 1 < raw.len() } i += 1 } false }
/// RFC 3629.
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i]; let (k, lo, hi) = match c { 0..=0x7f => (0, 0, 0), 0xc2..=0xdf => (1, 0x80, 0xbf), 0xe0 => (2, 0xa0, 0xbf), 0xed => (2, 0x80, 0x9f), 0xe1..=0xef => (2, 0x80, 0xbf), 0xf0 => (3, 0x90, 0xbf), 0xf4 => (3, 0x80, 0x8f), 0xf1..=0xf3 => (3, 0x80, 0xbf), _ => return false };
        if i + k >= b.len() { return false }
        for j in 1..=k { let x = b[i + j]; let (l, h) = if j == 1 { (lo, hi) } else { (0x80, 0xbf) }; if (x < l) | (x > h) { return false } }
        i += k + 1;
    }
    true
}
/// C16: any n bytes beyond ASCII within a string of the body - the query, its beginning, its end, another member - split off or not: accepted exactly if the body is
/// UTF-8, as JSON must be, and then kept as they are. params: mode, n, a split within
pub fn octets() {
    let mode = param(0); let mut x = vec![0u8; param(1) as usize]; vsym::fill(&mut x); for i in 0..x.len() { assume(x[i] >= 0x80) }
    let (pre, post) = [("{\"query\":\"get ", " k\"}"), ("{\"query\":\"", "get  k\"}"), ("{\"query\":\"get  k", "\"}"), ("{\"a\":\"", "\",\"query\":\"get  k\"}"), ("{\"query\":\"get  k\",\"", "\":1}")][choose(5)];
    let mut body = pre.as_bytes().to_vec(); body.extend_from_slice(&x); body.extend_from_slice(post.as_bytes());
    let mut m = format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes(); let at = m.len() + pre.len() + 1; m.extend_from_slice(&body);
    let mut c = Conn::new(m); if param(2) == 1 { c.cuts.push(at) } net::push(c);
    let mut g = receive(mode); tr_got(&g);
    match &g.req {
        Ok(q) => { check(utf8(&x), "a body that is not UTF-8, and so not JSON, is accepted"); let a = q.as_bytes(); reach(4);
            let mut w: Vec<u8> = Vec::new(); if pre.starts_with("{\"q") && !post.starts_with("\":") { w.extend_from_slice(&pre.as_bytes()[10..]); w.extend_from_slice(&x); w.extend_from_slice(&post.as_bytes()[..post.len() - 2]) } else { w.extend_from_slice(b"get  k") }
            let mut ok = a.len() == w.len(); if ok { for i in 0..w.len() { ok &= a[i] == w[i] } } check(ok, "the query differs from the one the client sent") }
        Err(_) => { check(!utf8(&x), "a well-formed request was rejected"); reach(5) }
    }
    answer(&mut g); reach(1);
}
/// Bodies that are no request, and methods other than POST. params: mode
pub fn bodies() {
    let l = ["{}", "[]", "null", "\"query\"", "{\"query\":1}", "{\"query\":null}", "{\"query\":[\"k\"]}", "{\"query\":{\"query\":\"k\"}}", "{\"Query\":\"k\"}", "{\"other\":{\"query\":\"k\"}}", "", " ", "k", "{\"query\":\"k\"", "{\"query\":\"k\"}}", "{\"query\":\"k\",}", "{\"query\" \"k\"}", "{query:\"k\"}", "{\"query\":true}", "[{\"query\":\"k\"}]"];
    let v = ["GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", "POSTS", "POS", "Post"];
    let i = choose(l.len() + v.len());
    let (verb, body) = if i < l.len() { ("POST", l[i]) } else { (v[i - l.len()], "{\"query\":\"k\"}") };
    let nolen = choose(2) == 1;
    let m = if nolen { format!("{} / HTTP/1.1\r\nUsername: a\r\n\r\n{}", verb, body) } else { format!("{} / HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", verb, body.len(), body) };
    net::push(Conn::new(m.into_bytes()));
    let mut g = receive(param(0)); tr_got(&g);
    check(g.req.is_err(), "an ill-formed request was accepted");
    answer(&mut g); reach(1);
}

// ---- C17/C18: responses ----
/// An independent JSON reader.
#[derive(PartialEq)] pub enum Js { Null, Bool(bool), Num(Vec<u8>), Str(Vec<u8>), Arr(Vec<Js>), Obj(Vec<(Vec<u8>, Js)>) }
pub struct Rd<'a> { b: &'a [u8], i: usize }
impl<'a> Rd<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t' || self.b[self.i] == b'\r') { self.i += 1 } }
    fn lit(&mut self, s: &[u8]) -> Option<()> { if self.i + s.len() > self.b.len() { return None } for c in s { if self.b[self.i] != *c { return None } self.i += 1 } Some(()) }
    fn string(&mut self) -> Option<Vec<u8>> { let s = self.i; loop { if self.i >= self.b.len() { return None } let c = self.b[self.i]; self.i += 1; if c == b'\\' { self.i += 1 } else if c == b'"' { return decode(&self.b[s..self.i]) } } }
    fn value(&mut self) -> Option<Js> {
        self.ws(); if self.i >= self.b.len() { return None }
        let c = self.b[self.i];
        let r = match c {
            b'n' => { self.lit(b"null")?; Js::Null } b't' => { self.lit(b"true")?; Js::Bool(true) } b'f' => { self.lit(b"false")?; Js::Bool(false) }
            b'"' => { self.i += 1; Js::Str(self.string()?) }
            b'[' => { self.i += 1; let mut v = Vec::new(); self.ws(); if self.b.get(self.i) == Some(&b']') { self.i += 1; return Some(Js::Arr(v)) } loop { v.push(self.value()?); self.ws(); let c = *self.b.get(self.i)?; self.i += 1; if c == b']' { break } if c != b',' { return None } } Js::Arr(v) }
            b'{' => { self.i += 1; let mut v = Vec::new(); self.ws(); if self.b.get(self.i) == Some(&b'}') { self.i += 1; return Some(Js::Obj(v)) } loop { self.ws(); self.lit(b"\"")?; let k = self.string()?; self.ws(); self.lit(b":")?; v.push((k, self.value()?)); self.ws(); let c = *self.b.get(self.i)?; self.i += 1; if c == b'}' { break } if c != b',' { return None } } Js::Obj(v) }
            _ => { let s = self.i; while self.i < self.b.len() { let c = self.b[self.i]; if (c >= b'0' && c <= b'9') || c == b'-' || c == b'+' || c == b'.' || c == b'e' || c == b'E' { self.i += 1 } else { break } } if s == self.i { return None } Js::Num(self.b[s..self.i].to_vec()) }
        };
        Some(r)
    }
}
pub fn json(b: &[u8]) -> Option<Js> { let mut r = Rd { b, i: 0 }; let v = r.value()?; r.ws(); if r.i == b.len() { Some(v) } else { None } }
fn beq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
fn only<'a>(j: &'a Js, k: &str) -> Option<&'a Js> { match j { Js::Obj(v) if v.len() == 1 && beq(&v[0].0, k.as_bytes()) => Some(&v[0].1), _ => None } }
fn field<'a>(j: &'a Js, k: &str) -> Option<&'a Js> { match j { Js::Obj(v) => { for (a, b) in v { if beq(a, k.as_bytes()) { return Some(b) } } None } _ => None } }
fn is_str(j: &Js, s: &str) -> bool { match j { Js::Str(v) => beq(v, s.as_bytes()), _ => false } }
/// Does the number's text denote this integer?
pub fn num(t: &[u8], neg: bool, mag: u64) -> bool {
    let (n, d) = if t.len() > 0 && t[0] == b'-' { (true, &t[1..]) } else { (false, t) };
    if d.len() == 0 || d.len() > 20 { return false }
    let mut v: u64 = 0; let mut ok = true;
    for c in d { ok &= *c >= b'0' && *c <= b'9'; let x = (*c).wrapping_sub(b'0') as u64; let (a, o) = v.overflowing_mul(10); let (b, p) = a.overflowing_add(x); ok &= !o & !p; v = b; }
    ok & (v == mag) & (n == neg) & (d.len() == 1 || d[0] != b'0')
}
fn ctn(c: CT) -> &'static str { match c { CT::Bool => "Bool", CT::Str => "String", CT::Int => "Int", CT::Float => "Float" } }
fn ktn(c: KT) -> &'static str { match c { KT::Str => "String", KT::Int => "Int" } }
/// Does the JSON tree denote the value?
pub fn is_val(j: &Js, v: &V) -> bool { match v {
    V::Null => is_str(j, "Null"),
    V::Bool(b) => match only(j, "Bool") { Some(Js::Bool(c)) => *b == *c, _ => false },
    V::Str(s) => match only(j, "String") { Some(x) => is_str(x, s), _ => false },
    V::Int(i) => match only(j, "Int") { Some(Js::Num(t)) => num(t, *i < 0, i.unsigned_abs()), _ => false },
    V::Float(f) => match only(j, "Float") { Some(Js::Num(t)) => match std::str::from_utf8(t) { Ok(t) => match t.parse::<f64>() { Ok(x) => (x as f32).to_bits() == *f, _ => false }, _ => false }, _ => false },
    V::Seq(c, xs) => match only(j, "Vector") { Some(o) => { (match field(o, "collection_type") { Some(t) => is_str(t, ctn(*c)), _ => false }) & match field(o, "vector") { Some(Js::Arr(a)) if a.len() == xs.len() => { let mut r = true; for i in 0..xs.len() { r &= is_val(&a[i], &xs[i]) } r } _ => false } } _ => false },
    V::Map(k, c, es) => match only(j, "Map") { Some(o) => { (match field(o, "collection_type") { Some(t) => is_str(t, ctn(*c)), _ => false }) & (match field(o, "key_type") { Some(t) => is_str(t, ktn(*k)), _ => false }) & match field(o, "map") { Some(Js::Arr(a)) if a.len() == es.len() => {
        let mut r = true; for (x, y) in es { let mut f = false; for e in a { if let Js::Arr(p) = e { if p.len() == 2 { f |= is_val(&p[0], x) & is_val(&p[1], y) } } } r &= f } r } _ => false } } _ => false },
} }
/// The response the server is asked to send, as the reference describes it.
pub enum Out { Val(V), Msg(String), Size(usize), Exp(Option<u64>), Key(String), Bool(bool), Ty(usize), Down, Null, Err(usize, String) }
pub fn ctl(i: usize) -> CT { [CT::Bool, CT::Str, CT::Int, CT::Float][i] }
pub fn out_resp(o: &Out) -> Result<R, ServerError> { match o {
    Out::Val(v) => Ok(R::Value(sv(v))), Out::Msg(s) => Ok(R::Message(s.clone())), Out::Size(n) => Ok(R::Size(*n)), Out::Exp(e) => Ok(R::Expiration(*e)), Out::Key(k) => Ok(R::Key(k.clone())), Out::Bool(b) => Ok(R::Bool(*b)), Out::Down => Ok(R::ShuttingDown), Out::Null => Ok(R::Null),
    Out::Ty(i) => Ok(R::ValueType(match i { 0 => ValueType::Null, 1 => ValueType::Bool, 2 => ValueType::Int, 3 => ValueType::Float, 4 => ValueType::String, 5..=8 => ValueType::Vector(ctc(ctl(i - 5))), _ => ValueType::Map(if (i - 9) / 4 == 0 { KeyType::String } else { KeyType::Int }, ctc(ctl((i - 9) % 4))) })),
    Out::Err(i, m) => { let m = m.clone(); Err(match i { 0 => ServerError::KeyError(m), 1 => ServerError::NetworkError(m), 2 => ServerError::WriteError(m), 3 => ServerError::TokenizationError(m), 4 => ServerError::ParseError(m), 5 => ServerError::IndexError(m), 6 => ServerError::TypeError(m), 7 => ServerError::InternalError(m), 8 => ServerError::AuthorizationError(m), 9 => ServerError::AuthenticationError(m), _ => ServerError::RequestError(m) }) }
} }
const ERRN: [(&str, u32); 11] = [("KeyError", 422), ("NetworkError", 500), ("WriteError", 500), ("TokenizationError", 422), ("ParseError", 422), ("IndexError", 422), ("TypeError", 422), ("InternalError", 500), ("AuthorizationError", 401), ("AuthenticationError", 403), ("RequestError", 400)];
pub fn is_ty(j: &Js, i: usize) -> bool { match i { 0..=4 => is_str(j, ["Null", "Bool", "Int", "Float", "String"][i]), 5..=8 => match only(j, "Vector") { Some(t) => is_str(t, ctn(ctl(i - 5))), _ => false },
    _ => match only(j, "Map") { Some(Js::Arr(a)) if a.len() == 2 => is_str(&a[0], ["String", "Int"][(i - 9) / 4]) & is_str(&a[1], ctn(ctl((i - 9) % 4))), _ => false } } }
pub fn denotes(b: &[u8], o: &Out) -> bool {
    if let Out::Err(i, m) = o { return beq(b, format!("{}: {}", ERRN[*i].0, m).as_bytes()) }
    let j = match json(b) { Some(j) => j, None => return false };
    match o {
        Out::Val(v) => match only(&j, "Value") { Some(x) => is_val(x, v), _ => false },
        Out::Msg(s) => match only(&j, "Message") { Some(x) => is_str(x, s), _ => false },
        Out::Key(s) => match only(&j, "Key") { Some(x) => is_str(x, s), _ => false },
        Out::Size(n) => match only(&j, "Size") { Some(Js::Num(t)) => num(t, false, *n as u64), _ => false },
        Out::Bool(b) => match only(&j, "Bool") { Some(Js::Bool(c)) => *b == *c, _ => false },
        Out::Exp(None) => match only(&j, "Expiration") { Some(Js::Null) => true, _ => false },
        Out::Exp(Some(n)) => match only(&j, "Expiration") { Some(Js::Num(t)) => num(t, false, *n), _ => false },
        Out::Ty(i) => match only(&j, "ValueType") { Some(x) => is_ty(x, *i), _ => false },
        Out::Down => is_str(&j, "ShuttingDown"), Out::Null => is_str(&j, "Null"), _ => false,
    }
}
/// Split a raw response into status code and body, as a client does: status line, headers, blank line, Content-Length bytes.
pub fn split(b: &[u8]) -> Option<(u32, Vec<u8>)> {
    let mut lines: Vec<&[u8]> = Vec::new(); let mut s = 0; let mut i = 0;
    loop { if i >= b.len() { return None } if b[i] == b'\n' { let mut e = i; if e > s && b[e - 1] == b'\r' { e -= 1 } let l = &b[s..e]; i += 1; s = i; if l.is_empty() { break } lines.push(l); } else { i += 1 } }
    if lines.is_empty() || lines[0].len() < 12 || !beq(&lines[0][..9], b"HTTP/1.1 ") { return None }
    let mut code = 0; for c in &lines[0][9..12] { if *c < b'0' || *c > b'9' { return None } code = code * 10 + (*c - b'0') as u32 }
    if lines[0].len() > 12 && lines[0][12] != b' ' { return None }
    let mut len = None;
    for l in &lines[1..] { let p = l.iter().position(|c| *c == b':')?; if l[..p].eq_ignore_ascii_case(b"content-length") { if len.is_some() { return None } let mut n = 0usize; let mut any = false; for c in &l[p + 1..] { if *c == b' ' && !any { continue } if *c < b'0' || *c > b'9' { return None } any = true; n = n * 10 + (*c - b'0') as usize } if !any { return None } len = Some(n) } }
    let n = len?;
    if b.len() < s + n { return None }
    for c in &b[s + n..] { if *c != b'\n' && *c != b'\r' { return None } }
    Some((code, b[s..s + n].to_vec()))
}
pub fn judge(raw: &[u8], o: &Out) {
    match split(raw) { None => fail("the response is no well-formed HTTP message of the announced length"), Some((code, body)) => {
        check(code == match o { Out::Err(i, _) => ERRN[*i].1, _ => 200 }, "the status code does not match the outcome");
        check(denotes(&body, o), "the body does not denote the response"); } }
}
fn scal(i: usize) -> V { match i { 0 => V::Null, 1 => V::Bool(vsym::bool()), 2 => V::Str(odd(param(3) as usize)), 3 => V::Int(int()), _ => V::Float(FL[choose(FL.len())].to_bits()) } }
const FL: [f32; 9] = [0.0, -0.0, 1.0, 0.1, -2.5, 3.4028235e38, 1e-45, 16777216.0, 1.17549435e-38];
/// A string of n characters: any ASCII, or one of the non-ASCII representatives.
fn odd(n: usize) -> String { let mut s = String::new(); for _ in 0..n { match choose(4) { 0 => s.push_str(&ascii(1)), 1 => s.push('é'), 2 => s.push('\u{2028}'), _ => s.push('\u{1F600}') } } s }
const BIG: [i64; 6] = [i64::MAX, i64::MIN, i64::MIN + 1, -1, 1 << 53, -(1 << 53) - 1];
fn int() -> i64 { let k = choose(1 + BIG.len()); if k == 0 { let x = vsym::bits(param(4) as u32 + 1) as i64; x - (1 << param(4)) } else { BIG[k - 1] } }
fn mkval(shape: usize) -> V { match shape {
    0..=4 => scal(shape),
    5 => { let c = choose(4); let n = choose(param(5) as usize + 1); let mut v = Vec::new(); for _ in 0..n { v.push(scal([1, 2, 3, 4][c])) } V::Seq(ctl(c), v) }
    _ => { let c = choose(4); let k = choose(2); let n = choose(param(5) as usize + 1); let mut v: Vec<(V, V)> = Vec::new(); for i in 0..n { let a = if k == 0 { V::Str(odd(param(3) as usize)) } else { V::Int(int()) }; if i == 1 { assume(!veq(&v[0].0, &a)) } v.push((a, scal([1, 2, 3, 4][c]))) } V::Map(if k == 0 { KT::Str } else { KT::Int }, ctl(c), v) }
} }
fn pick(kind: usize) -> Out { match kind {
    0..=6 => Out::Val(mkval(kind)), 7 => Out::Msg(odd(param(3) as usize)), 8 => Out::Size(vsym::bits(param(4) as u32) as usize), 9 => Out::Exp(if choose(2) == 0 { None } else { Some(if choose(2) == 0 { u64::MAX } else { vsym::bits(param(4) as u32) }) }), 10 => Out::Key(odd(param(3) as usize)), 11 => Out::Bool(vsym::bool()), 12 => Out::Ty(choose(17)), 13 => Out::Down, 14 => Out::Null, _ => Out::Err(choose(11), odd(param(3) as usize)) } }
pub fn sender(mode: u64) -> Send { let g = { net::push(Conn::new(request("k", "a", 0, 0))); receive(mode) }; match g.sender { Some(s) => s, None => fail("no way to answer a request") } }
/// C17/C18: params: mode, first kind, number of kinds, string length, integer bits, collection length
pub fn respond() {
    let mut s = sender(param(0));
    let o = pick(param(1) as usize + choose(param(2) as usize));
    let r = s.send(out_resp(&o));
    check(r.is_ok(), "sending to a healthy connection failed");
    drop(s);
    let c = &net::net().conns[0];
    for b in &c.out { trace(*b as u64) }
    judge(&c.out, &o); check(c.closed, "the connection is left open after the response"); reach(1);
}
/// C17: the peer takes the response slowly, in pieces and with pauses; or stops taking anything without closing. params: mode, bytes per piece, pause in ms
pub fn slow_taker() {
    let mut s = sender(param(0)); vsym::clock().virt = true;
    let c = &mut net::net().conns[0]; c.write_max = param(1) as usize; let stuck = choose(2) == 1;
    if stuck { c.write_zero_at = choose(126) } else { c.wgap = param(2) * 1_000_000 }
    let o = if choose(2) == 0 { Out::Val(V::Str(ascii(2))) } else { Out::Err(choose(11), ascii(2)) };
    let r = s.send(out_resp(&o)); drop(s);
    let c = &net::net().conns[0]; for b in &c.out { trace(*b as u64) } trace(r.is_ok() as u64);
    if stuck { check(r.is_err() || split(&c.out).is_some(), "a response that was not taken is reported as sent"); reach(2) } else { check(r.is_ok(), "sending to a slow client failed"); judge(&c.out, &o); reach(1) }
    check(c.closed, "the connection is left open after the response");
}
/// C17: the peer takes at most k bytes per write (k = 1..param(1)), or fails after any number of bytes. params: mode, k, positions, payload length
pub fn partial() {
    let mut s = sender(param(0));
    let c = &mut net::net().conns[0];
    let fails = choose(2) == 1;
    c.write_max = 1 + choose(param(1) as usize);
    if fails { c.write_fail_at = choose(param(2) as usize) }
    let o = if choose(2) == 0 { Out::Val(V::Str(ascii(param(3) as usize))) } else { Out::Err(choose(11), ascii(param(3) as usize)) };
    let r = s.send(out_resp(&o));
    drop(s);
    let c = &net::net().conns[0];
    for b in &c.out { trace(*b as u64) } trace(r.is_ok() as u64);
    match r { Ok(()) => { judge(&c.out, &o); reach(1) } Err(e) => { check(fails, "sending to a healthy connection failed"); check(split(&c.out).is_none() || c.out.len() >= c.write_fail_at, "a complete response was reported as failed"); reach(2) } }
    check(c.closed, "the connection is left open after the response");
}
