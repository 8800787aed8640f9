//! The three servers end to end (C19-C26): scripted clients, real server code, model sockets and scheduler.
//! mode 0: single-threaded, 1: multi-threaded, 2: asynchronous.
use crate::common::*;
use crate::http::{self, json, is_val, num, split, Js};
use std::net::model::{self as net, After, Conn};
use std::net::{IpAddr, Ipv4Addr};
const IP: IpAddr = IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1));
/// What a request asks for, once its user is known.
#[derive(Clone)] pub enum Plan { Run(Vec<S>), Bad(&'static str) }
#[derive(Clone)] pub enum Lv { Level(AuthorizationLevel), No(&'static str) }
#[derive(Clone, Copy, PartialEq)] pub enum Fate { Normal, NoReply, Nothing }
/// One scripted client: its request, who sends it, and whether its exchange is disturbed.
#[derive(Clone)] pub struct Op { pub plan: Plan, pub lv: Lv, pub group: usize, pub fate: Fate, pub conn: usize }
fn key(c: &str) -> String { c.to_string() }
fn esc(t: &str) -> String { let mut o = String::new(); for c in t.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c) } '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if c < ' ' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn sym() -> String { let x = vsym::u8() & 0x7f; assume(x > 0x22 && x < 0x7f && x != b'\\'); unsafe { String::from_utf8_unchecked(vec![x]) } }
pub const NCMD: usize = 18;
/// The commands of the scenarios.
pub fn cmd(i: usize) -> (String, Plan) {
    let (a, b) = (key("a"), key("b")); let run = |t: &str, v: Vec<S>| (t.to_string(), Plan::Run(v));
    match i {
        0 => { let x = sym(); (format!("set a \"{}\"", x), Plan::Run(vec![S::Set(a, V::Str(x), None)])) }
        1 => run("get a", vec![S::Get(a)]),
        2 => run("del a", vec![S::Del(a)]),
        3 => { let x = sym(); (format!("try_set a \"{}\"", x), Plan::Run(vec![S::TrySet(a, V::Str(x), None)])) }
        4 => { let x = sym(); (format!("upd a \"{}\"", x), Plan::Run(vec![S::Upd(a, V::Str(x), None)])) }
        5 => run("try_get a", vec![S::TryGet(a)]),
        6 => run("shutdown", vec![S::Shutdown]),
        7 => (key("set"), Plan::Bad("ParseError")),
        8 => (key("set a \"b"), Plan::Bad("TokenizationError")),
        9 => run("", vec![]),
        10 => run("get a; del a", vec![S::Get(a.clone()), S::Del(a)]),
        11 => run("set a 1; get b; set a 2", vec![S::Set(a.clone(), V::Int(1), None), S::Get(b), S::Set(a, V::Int(2), None)]),
        12 => run("try_set v int []; vpush v 7; vlen v", vec![S::TrySet(key("v"), V::Seq(CT::Int, vec![]), None), S::VPush(key("v"), V::Int(7)), S::VLen(key("v"))]),
        13 => { let x = sym(); (format!("set a \"{}\"; set b \"{}\"", x, x), Plan::Run(vec![S::Set(a, V::Str(x.clone()), None), S::Set(b, V::Str(x), None)])) }
        14 => run("ex a", vec![S::Ex(a)]),
        15 => run("set a 1; shutdown; set a 2", vec![S::Set(a.clone(), V::Int(1), None), S::Shutdown, S::Set(a, V::Int(2), None)]),
        16 => run("vget a 1", vec![S::VGet(a, 1)]),
        17 => run("set b 1; get a", vec![S::Set(b, V::Int(1), None), S::Get(a)]),
        // long requests (beyond NCMD: only for the scenarios that ask for them)
        22 => { let x = sym(); let y = "y".repeat(9000); (format!("set a \"{}\"; set c \"{}\"; ex d; set b \"{}\"", x, y, x), Plan::Run(vec![S::Set(a, V::Str(x.clone()), None), S::Set(key("c"), V::Str(y), None), S::Ex(key("d")), S::Set(b, V::Str(x), None)])) }
        18 | 19 | 20 | 23 => { let x = if i == 18 { sym() } else { key("y") }; let n = if i == 20 { 70 } else if i == 23 { 400 } else { 24 };
            let mut t = if i == 19 { key("del a; ") } else { format!("set a \"{}\"; ", x) }; let mut v = vec![if i == 19 { S::Del(a.clone()) } else { S::Set(a.clone(), V::Str(x.clone()), None) }];
            for _ in 0..n { t.push_str("ex c; "); v.push(S::Ex(key("c"))) }
            t.push_str(&if i == 19 { key("try_get b") } else { format!("set b \"{}\"", x) }); v.push(if i == 19 { S::TryGet(b) } else { S::Set(b, V::Str(x), None) }); (t, Plan::Run(v)) }
        _ => run("get a; get b", vec![S::Get(a), S::Get(b)]),
    }
}
const USERS: [&str; 5] = ["admin", "write", "read", "unauthenticated", "guest"];
pub fn user(i: usize) -> (Option<String>, Lv) { match i {
    0 => (Some(key("admin")), Lv::Level(AuthorizationLevel::Admin)), 1 => (Some(key("write")), Lv::Level(AuthorizationLevel::Write)), 2 => (Some(key("read")), Lv::Level(AuthorizationLevel::Read)),
    3 => (Some(key("unauthenticated")), Lv::No("AuthenticationError")), 4 => (Some(key("guest")), Lv::No("AuthorizationError")), 5 => (None, Lv::No("InternalError")),
    _ => { let n = [4, 5, 6][choose(3)]; let mut v = vec![0u8; n]; for c in &mut v { let x = vsym::u8() & 0x7f; assume(x > 0x20 && x < 0x7f); *c = x } let s = unsafe { String::from_utf8_unchecked(v) };
        let l = named(&s); (Some(s), l) }
} }
fn named(s: &str) -> Lv { if streq(s, "admin") { Lv::Level(AuthorizationLevel::Admin) } else if streq(s, "write") { Lv::Level(AuthorizationLevel::Write) } else if streq(s, "read") { Lv::Level(AuthorizationLevel::Read) } else { Lv::No("AuthorizationError") } }
fn message(text: &str, user: &Option<String>) -> Vec<u8> {
    let body = format!("{{\"query\":\"{}\"}}", esc(text));
    match user { Some(u) => format!("POST / HTTP/1.1\r\nUsername: {}\r\nContent-Length: {}\r\n\r\n{}", u, body.len(), body), None => format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", body.len(), body) }.into_bytes()
}
/// Script one client. Its group: it connects only after every client of the earlier groups was served.
pub fn client(ops: &mut Vec<Op>, group: usize, c: (String, Plan), u: (Option<String>, Lv)) -> usize {
    let mut k = Conn::new(message(&c.0, &u.0)); k.gate = ops.len() > 0 && ops[ops.len() - 1].group < group;
    let conn = net::push(k);
    ops.push(Op { plan: c.1, lv: u.1, group, fate: Fate::Normal, conn }); ops.len() - 1
}
fn writes(s: &S) -> bool { match s { S::Get(_) | S::TryGet(_) | S::Ex(_) | S::Life(_) | S::Type(_) | S::VGet(..) | S::VLen(_) | S::MGet(..) | S::MLen(_) | S::MEx(..) | S::Null => false, _ => true } }
pub enum Exp { W(Want), E(&'static str) }
/// The reference server: authenticate, check the text, authorise, execute up to the first failure.
pub fn reference(o: &Op, m: &mut Ref) -> Exp {
    let lv = match &o.lv { Lv::No(e) => return Exp::E(*e), Lv::Level(l) => *l };
    let ss = match &o.plan { Plan::Bad(e) => return Exp::E(*e), Plan::Run(ss) => ss };
    for s in ss { match (s, lv) { (_, AuthorizationLevel::Admin) => (), (S::Shutdown, _) => return Exp::E("AuthorizationError"), (s, AuthorizationLevel::Read) if writes(s) => return Exp::E("AuthorizationError"), _ => () } }
    let mut w = Want::Null;
    for s in ss { w = m.step(s); if let Want::KeyErr | Want::IndexErr | Want::TypeErr | Want::Err | Want::Down = w { break } }
    Exp::W(w)
}
const STATUS: [(&str, u32); 9] = [("KeyError", 422), ("TokenizationError", 422), ("ParseError", 422), ("IndexError", 422), ("TypeError", 422), ("InternalError", 500), ("AuthorizationError", 401), ("AuthenticationError", 403), ("RequestError", 400)];
fn is_err(code: u32, body: &[u8], name: &str) -> bool {
    let mut want = 0; for (n, c) in STATUS { if n == name { want = c } }
    code == want && body.len() >= name.len() + 2 && streq(unsafe { std::str::from_utf8_unchecked(&body[..name.len()]) }, name) && body[name.len()] == b':'
}
/// Does the raw response carry what the reference expects?
pub fn answers(raw: &[u8], e: &Exp) -> bool {
    let (code, body) = match split(raw) { Some(x) => x, None => return false };
    let w = match e { Exp::E(n) => return is_err(code, &body, n), Exp::W(w) => w };
    match w { Want::Err => return code >= 400, Want::KeyErr => return is_err(code, &body, "KeyError"), Want::IndexErr => return is_err(code, &body, "IndexError"), Want::TypeErr => return is_err(code, &body, "TypeError"), _ => () }
    if code != 200 { return false }
    let j = match json(&body) { Some(j) => j, None => return false };
    let only = |k: &str| -> Option<&Js> { match &j { Js::Obj(v) if v.len() == 1 && v[0].0 == k.as_bytes() => Some(&v[0].1), _ => None } };
    match w {
        Want::Val(v) => match only("Value") { Some(x) => is_val(x, v), None => false },
        Want::Ok => match only("Message") { Some(Js::Str(_)) => true, _ => false },
        Want::Bool(b) => match only("Bool") { Some(Js::Bool(c)) => *b == *c, _ => false },
        Want::Type(v) => match only("ValueType") { Some(x) => { let c = |c: &CT| match c { CT::Bool => 0, CT::Str => 1, CT::Int => 2, CT::Float => 3 }; http::is_ty(x, match v { V::Null => 0, V::Bool(_) => 1, V::Int(_) => 2, V::Float(_) => 3, V::Str(_) => 4, V::Seq(d, _) => 5 + c(d), V::Map(k, d, _) => 9 + 4 * (*k == KT::Int) as usize + c(d) }) } None => false },
        Want::Exp(None) => match only("Expiration") { Some(Js::Null) => true, _ => false },
        Want::Size(n) => match only("Size") { Some(Js::Num(t)) => num(t, false, *n as u64), _ => false },
        Want::Down => match &j { Js::Str(s) => s == b"ShuttingDown", _ => false },
        Want::Null => match &j { Js::Str(s) => s == b"Null", _ => false },
        _ => false,
    }
}
fn stops(o: &Op) -> bool { match (&o.lv, &o.plan) { (Lv::Level(AuthorizationLevel::Admin), Plan::Run(ss)) => ss.iter().any(|s| match s { S::Shutdown => true, _ => false }), _ => false } }
fn timed_out(raw: &[u8]) -> bool { match split(raw) { Some((c, b)) => is_err(c, &b, "InternalError"), None => false } }
/// Is there an order of the requests, respecting that a client of a later group starts after the earlier
/// groups were served, in which the reference gives every client the response it received?
/// `lost`: requests may go unanswered (or be answered with a time-out), with or without having taken effect.
fn explained(ops: &[Op], left: u64, m: &Ref, down: bool, late: bool) -> bool {
    if left == 0 { return true }
    let mut g = usize::MAX; for (i, o) in ops.iter().enumerate() { if left & (1u64 << i) != 0 && o.group < g { g = o.group } }
    for (i, o) in ops.iter().enumerate() {
        if left & (1u64 << i) == 0 || o.group != g { continue }
        let out = &net::net().conns[o.conn].out; let rest = left & !(1u64 << i);
        let mut n = m.clone(); let e = reference(o, &mut n);
        let isdown = match &e { Exp::W(Want::Down) => true, _ => false };
        match o.fate {
            Fate::Normal => { if answers(out, &e) && explained(ops, rest, &n, down || isdown, late) { return true }
                if late && timed_out(out) && (explained(ops, rest, &n, down || isdown, late) || explained(ops, rest, m, down, late)) { return true }
                if down && out.is_empty() && explained(ops, rest, m, down, late) { return true } }
            Fate::NoReply => if explained(ops, rest, &n, down || isdown, late) || explained(ops, rest, m, down, late) { return true },
            Fate::Nothing => { if !out.is_empty() { match split(out) { Some((c, _)) if c >= 400 => (), _ => continue } } if explained(ops, rest, m, down, late) { return true } }
        }
    }
    false
}
/// How much longer than usual a scenario takes, in units of 8 s.
static mut LONGER: u64 = 0;
extern "C" fn watchdog(_: *mut u8) { for _ in 0..5 + unsafe { LONGER } { vsym::wait(4u64 << 60, 8_000_000_000) } fail("the server neither served its clients nor stopped") }
pub fn serve(mode: u64, listeners: usize, analyzers: usize) { match mode {
    0 => server::single_threaded::SingleThreadedServer::new().serve(server::io::tcp::TcpStreamHandler::new(IP, 7878)),
    1 => server::multithreaded::Coordinator::new(listeners, analyzers, IP, 7878).serve(),
    2 => async_server::__verif_main(),
    // the programs the repository builds
    3 => simple_server::__verif_main(),
    _ => multi_server::__verif_main(),
} }
/// Run the server on the scripted clients and judge every response. The last client is an administrator's shutdown.
fn run(ops: &mut Vec<Op>, mode: u64, threads: usize, budget: u64, flags: u64) {
    // one that is sure to be carried out is the last: the server has to stop for it
    let sure = |o: &Op| o.fate == Fate::Normal && match (&o.lv, &o.plan) { (Lv::Level(AuthorizationLevel::Admin), Plan::Run(ss)) => { let mut i = 0; while i < ss.len() { match &ss[i] { S::Set(..) | S::TrySet(..) | S::TryGet(_) | S::Null => i += 1, S::Shutdown => return true, _ => return false } } false } _ => false };
    if !ops.iter().any(sure) { let g = ops[ops.len() - 1].group + 1; client(ops, g, cmd(6), user(0)); }
    vsym::clock().virt = true;
    vsym::spawn(watchdog, std::ptr::null_mut());
    vsym::sched(budget, flags);
    serve(mode, threads, threads);
    vsym::sched(0, 0);
    let late = flags & 33 != 0;
    let mut stopped = false; let mut dg = usize::MAX;
    for o in ops.iter() { for b in &net::net().conns[o.conn].out { trace(*b as u64) } trace(0xffff); if stops(o) && o.group < dg { dg = o.group } }
    for o in ops.iter() {
        let c = &net::net().conns[o.conn];
        if o.fate == Fate::Normal && o.group < dg { check(!c.out.is_empty(), "a client's request is not answered"); check(c.closed, "a client's connection is not closed after the response") }
    }
    check(explained(ops, (1u64 << ops.len()) - 1, &Ref::new(), false, late), "the responses are not those of any order of the requests");
    reach(1);
}
/// C19: one client after another. params: mode, clients, first command, commands, users (0: administrator; 1: all; 2: symbolic name), threads, budget
pub fn history() {
    let (mode, n) = (param(0), param(1) as usize); let mut ops = Vec::new();
    for i in 0..n { let c = cmd(param(2) as usize + choose(param(3) as usize)); let u = match param(4) { 0 => user(0), 1 => user(choose(6)), _ => user(6) }; client(&mut ops, i, c, u); }
    run(&mut ops, mode, param(5) as usize, param(6), 0);
}
/// C20/C21/C25: clients at the same time, then readers. params: mode, clients, command set, threads, budget, flags
pub fn race() {
    let mode = param(0); let n = param(1) as usize; let mut ops = Vec::new();
    let set: &[usize] = match param(2) { 0 => &[0, 1, 2, 3], 1 => &[13, 17, 10, 12], 2 => &[0, 6, 1], 3 => &[1, 7, 8, 9], 5 => &[18, 19, 21], 6 => &[0], 7 => &[20, 21], 8 => &[22, 21], 9 => &[23, 21], _ => &[0, 1] };
    let mut lo = 0;
    for _ in 0..n { let k = lo + choose(set.len() - lo); lo = k; client(&mut ops, 0, cmd(set[k]), user(0)); }
    client(&mut ops, 1, cmd(5), user(0)); if [1, 5, 7, 8, 9].contains(&param(2)) { client(&mut ops, 2, (key("try_get b"), Plan::Run(vec![S::TryGet(key("b"))])), user(0)); }
    run(&mut ops, mode, param(3) as usize, param(4), param(5));
}
/// C23: disturbed clients between healthy ones. params: mode, disturbances, threads, budget, flags
pub fn broken() {
    let mode = param(0); let n = param(1) as usize; let mut ops = Vec::new();
    client(&mut ops, 0, cmd(0), user(0));
    for i in 0..n {
        let k = choose(6); let o = client(&mut ops, 1 + i, if k == 5 { cmd([7, 8, 9][choose(3)]) } else { cmd(3) }, user(0));
        let c = &mut net::net().conns[ops[o].conn];
        match k {
            0 => { c.write_fail_at = choose(4) * 40; ops[o].fate = Fate::NoReply }
            1 | 2 => { let len = c.input.len(); let at = choose(7) * len / 7; c.input.truncate(at); c.after = if k == 1 { After::Eof } else { After::Error }; ops[o].fate = Fate::Nothing }
            3 => { c.accept_err = true; ops[o].fate = Fate::Nothing }
            4 => { let at = choose(3); c.input[at] = vsym::u8(); ops[o].fate = Fate::Nothing; c.after = After::Eof; assume(c.input[at] != b"POST"[at]) }
            _ => (),
        }
    }
    client(&mut ops, 1 + n, cmd(1), user(0));
    run(&mut ops, mode, param(2) as usize, param(3), param(4));
}

/// C21: shutdown statements of every user, alone and within longer requests, one after another or at once. params: mode, clients, at once, threads, budget, flags
pub fn down() {
    let mode = param(0); let n = param(1) as usize; let mut ops = Vec::new(); let a = key("a");
    for i in 0..n {
        let c = match choose(6) { 0 => cmd(6), 5 => (key("try_get b; shutdown"), Plan::Run(vec![S::TryGet(key("b")), S::Shutdown])), 1 => cmd(15), 2 => (key("get a; shutdown"), Plan::Run(vec![S::Get(a.clone()), S::Shutdown])), 3 => (key("shutdown ;"), Plan::Run(vec![S::Shutdown])), _ => cmd(0) };
        client(&mut ops, if param(2) == 1 { 0 } else { i }, c, user(choose(6)));
    }
    client(&mut ops, n, cmd(5), user(2));
    run(&mut ops, mode, param(3) as usize, param(4), param(5));
}
/// C22: who may do what. params: mode, users (0: fixed, 1: symbolic name), preceding request
pub fn access() {
    let mode = param(0); let mut ops = Vec::new();
    if param(2) == 1 { client(&mut ops, 0, cmd(0), user(0)); }
    let u = if param(1) == 1 { user(6) } else { user(choose(6)) };
    let k = choose(NCMD + 3);
    if k < NCMD { client(&mut ops, 1, cmd(k), u); } else {
        // the request itself is refused before its user is looked at
        let o = client(&mut ops, 1, (key(""), Plan::Bad("RequestError")), (u.0.clone(), Lv::Level(ADMIN)));
        let c = &mut net::net().conns[ops[o].conn]; let name = match &u.0 { Some(n) => n.clone(), None => key("x") };
        c.input = match k - NCMD { 0 => format!("GET / HTTP/1.1\r\nUsername: {}\r\nContent-Length: 2\r\n\r\n{{}}", name), 1 => format!("POST / HTTP/1.1\r\nUsername: {}\r\nContent-Length: 2\r\n\r\n{{}}", name), _ => format!("POST / HTTP/1.1\r\nUsername: {}\r\nContent-Length: 3\r\n\r\n{{}} ", name) }.into_bytes();
    }
    client(&mut ops, 2, cmd(5), user(2)); client(&mut ops, 3, (key("try_get b"), Plan::Run(vec![S::TryGet(key("b"))])), user(1));
    run(&mut ops, mode, 1, 0, 0);
}
extern "C" fn census(_: *mut u8) {
    let nap = |ns: u64| vsym::wait(2u64 << 60, ns);
    nap(300_000_000 + param(6) * 1_000_000_000); let base = unsafe { std::collections::hash_map::LIVE }; let d = [11_700_000_000, 2_700_000_000][(param(0) == 2) as usize];
    nap(500_000_000); let mid = unsafe { std::collections::hash_map::LIVE };
    nap(d - 500_000_000); let end = unsafe { std::collections::hash_map::LIVE };
    if mid > base { reach(2) }
    for x in [base, mid, end] { trace(x as u64) }
    check(end <= base, "expired entries nobody asks for are never reclaimed");
}
/// C25: entries expire and nobody asks for them again. params: mode, entries, kept entry, threads, budget, flags, idle seconds before
pub fn reclaim() {
    let mode = param(0); let n = param(1) as usize; let mut ops = Vec::new();
    let off = param(6) * 1_000_000_000; unsafe { LONGER = param(6) / 4; } let last = off + [12_100_000_000, 3_100_000_000][(mode == 2) as usize];
    client(&mut ops, 0, if param(2) == 1 { (key("set z 1"), Plan::Run(vec![S::Set(key("z"), V::Int(1), None)])) } else { cmd(5) }, user(0));
    for i in 0..n { let k = ["k", "l", "m"][i]; let how = choose(3); let l = 1; let st = match how { 0 => (format!("set {} 5 1", k), Plan::Run(vec![S::Set(key(k), V::Int(5), Some(l))])), 1 => (format!("try_set {} \"x\" 1", k), Plan::Run(vec![S::TrySet(key(k), V::Str(key("x")), Some(l))])), _ => (format!("set {} int [1]; upd {} 2 1", k, k), Plan::Run(vec![S::Set(key(k), V::Seq(CT::Int, vec![V::Int(1)]), None), S::Upd(key(k), V::Int(2), Some(l))])) };
        let o = client(&mut ops, 1 + i, st, user(0)); net::net().conns[ops[o].conn].at_ns = off + 400_000_000; }
    if param(2) == 1 { let o = client(&mut ops, 1 + n, (key("get z"), Plan::Run(vec![S::Get(key("z"))])), user(0)); net::net().conns[ops[o].conn].at_ns = last; }
    else { let o = client(&mut ops, 1 + n, (key("try_get k"), Plan::Run(vec![S::TryGet(key("k"))])), user(0)); net::net().conns[ops[o].conn].at_ns = last; ops.last_mut().unwrap().plan = Plan::Run(vec![S::TryGet(key("y"))]); net::net().conns[ops[o].conn].input = message("try_get k", &Some(key("admin"))); }
    vsym::spawn(census, std::ptr::null_mut());
    run(&mut ops, mode, param(3) as usize, param(4), param(5));
}

extern "C" fn count(_: *mut u8) {
    let nap = |ns: u64| vsym::wait(2u64 << 60, ns); let n = param(1);
    nap(300_000_000); let base = unsafe { std::collections::hash_map::LIVE };
    nap(600_000_000); let mid = unsafe { std::collections::hash_map::LIVE };
    nap([140_000_000_000, 19_000_000_000][(param(0) == 2) as usize]); let end = unsafe { std::collections::hash_map::LIVE };
    if mid == base + n as i64 { reach(2) }
    for x in [base, mid, end] { trace(x as u64) }
    check(end + 1 <= base + n as i64, "an expired entry nobody asks for is never reclaimed among others whose lifetimes go on");
}
/// C25: one entry expires among n with lifetimes that go on, and nobody asks for it again. params: mode, entries, threads, how many of them go on for ever (every m-th; 0 none)
pub fn crowd() {
    let (mode, n, m) = (param(0), param(1) as usize, param(3) as usize); let mut ops = Vec::new(); unsafe { vsym::FREE = 0; LONGER = if mode == 2 { 8 } else { 60 }; }
    let at = if n > 6 { [0, 1, n / 2, n - 2, n - 1][choose(5)] } else { choose(n) }; let mut q = String::new(); let mut ss = vec![];
    for i in 0..n { let k = format!("k{}x", i); if i > 0 { q.push_str("; "); } let keep = m > 0 && i % m == 0 && i != at; q.push_str(&if keep { format!("set {} 5", k) } else { format!("set {} 5 {}", k, if i == at { 1 } else { 1_000_000 }) }); ss.push(S::Set(k, V::Int(5), None)); }
    client(&mut ops, 0, cmd(5), user(0));
    let o = client(&mut ops, 1, (q, Plan::Run(ss)), user(0)); net::net().conns[ops[o].conn].at_ns = 400_000_000;
    let o = client(&mut ops, 2, (key("try_get y"), Plan::Run(vec![S::TryGet(key("y"))])), user(0)); net::net().conns[ops[o].conn].at_ns = [141_500_000_000, 20_500_000_000][(mode == 2) as usize];
    vsym::spawn(count, std::ptr::null_mut());
    run(&mut ops, mode, param(2) as usize, 0, 0);
}

/// C26: where a server listens. params: mode (0, 1 blocking, multi-threaded front end; 2 asynchronous front end), address family, port digits
pub fn bind() {
    let mode = param(0); let port = vsym::u64() as usize;
    let lo = [0, 10, 100, 1000, 10000][param(2) as usize - 1]; assume(port >= lo && port < [10, 100, 1000, 10000, 65536][param(2) as usize - 1]);
    let ip = if param(1) == 0 { IpAddr::V4(Ipv4Addr::new(vsym::u8(), [0, 7, 168, 255][choose(4)], vsym::u8(), 1)) } else { IpAddr::V6([std::net::Ipv6Addr::LOCALHOST, std::net::Ipv6Addr::UNSPECIFIED, std::net::Ipv6Addr::new(0xfe80, 0, 0, 1, 0, 0, 0x20, 0xabcd)][choose(3)]) };
    match mode {
        0 => { let _ = server::io::tcp::TcpStreamHandler::new(ip, port); }
        1 => { let _ = server::multithreaded::Coordinator::new(1, 1, ip, port); }
        _ => { tokio::runtime::block_on(async { let _h = server::io::tcp_async::TcpStreamHandler::new(ip, port).await; }) }
    }
    match net::net().bound { Some((a, x)) => { check(x.ip() == ip, "the server listens on another address than it was given"); check(x.port() as usize == port, "the server listens on another port than it was given"); check(a == (mode == 2), "kind of socket"); reach(1) } None => fail("the server does not listen") }
}
/// C26: the programs listen on 127.0.0.1:7878 and serve there. params: as e_hist
pub fn programs() {
    history();
    match net::net().bound { Some((_, x)) => check(x.ip() == IP && x.port() == 7878, "the program listens elsewhere"), None => fail("the program does not listen") }
}
/// C02/C19: an entry's lifetime of l seconds ends between requests, whether or not background removal has run since.
/// What the clients see is what they would see of an entry under another name. params: mode, lifetime, requests after, threads
pub fn lapse() {
    let (mode, l) = (param(0), param(1)); let mut ops = Vec::new(); let s = 1_000_000_000u64;
    let x = sym(); let v = V::Str(x.clone());
    let c = match choose(3) { 0 => (format!("set k \"{}\" {}", x, l), vec![S::Set(key("k"), v, None)]), 1 => (format!("try_set k \"{}\" {}", x, l), vec![S::TrySet(key("k"), v, None)]), _ => (format!("set k 1; upd k \"{}\" {}", x, l), vec![S::Set(key("k"), v, None)]) };
    client(&mut ops, 0, (c.0, Plan::Run(c.1)), user(0));
    let mut g = 1; unsafe { LONGER = (l + 20) / 8; }
    // what a client asks for, and what it amounts to with the entry under that name
    let ask = |k: usize, n: &str| -> (String, Plan) { let n = key(n); match k { 0 => (key("try_get k"), Plan::Run(vec![S::TryGet(n)])), 1 => (key("ex k"), Plan::Run(vec![S::Ex(n)])), 2 => (key("get k"), Plan::Run(vec![S::Get(n)])), 3 => (key("upd k 5"), Plan::Run(vec![S::Upd(n, V::Int(5), None)])), 4 => (key("try_set k 6"), Plan::Run(vec![S::TrySet(n, V::Int(6), None)])), _ => (key("del k"), Plan::Run(vec![S::Del(n)])) } };
    // half a second before the end, and afterwards
    for (t, n, last) in [(l * s - s / 3, "k", false), (l * s + s * 2 / 3, "gone", true), (l * s + 6 * s, "gone", true)] {
        if last && g > 1 + param(2) as usize { break }
        let o = client(&mut ops, g, ask(if last { choose(6) } else { choose(3) }, n), user(0)); net::net().conns[ops[o].conn].at_ns = t; g += 1;
    }
    run(&mut ops, mode, param(3) as usize, 0, 0);
}
/// C19/C21: nothing happens for long, again and again; the server goes on serving. params: mode, idle seconds, threads, times
pub fn idle() {
    let (mode, t, n) = (param(0), param(1), param(3)); let mut ops = Vec::new(); unsafe { LONGER = t * (n + 1) / 8 + 1; }
    client(&mut ops, 0, cmd(0), user(0));
    for i in 0..n { let o = client(&mut ops, 1 + i as usize, cmd(choose(6)), user(0)); net::net().conns[ops[o].conn].at_ns = (i + 1) * t * 1_000_000_000; }
    client(&mut ops, 1 + n as usize, cmd(1), user(2));
    run(&mut ops, mode, param(2) as usize, 0, 0);
}
/// C23: clients which send their requests or take their responses slowly, among others. params: mode, slow clients, threads, pause in ms
pub fn slow() {
    let (mode, n) = (param(0), param(1) as usize); let mut ops = Vec::new(); unsafe { LONGER = (n as u64 * param(3) * 4) / 8000 + 1; }
    client(&mut ops, 0, cmd(0), user(0));
    for _ in 0..n {
        let o = client(&mut ops, 1, cmd([1, 2, 3, 7][choose(4)]), user(0)); let c = &mut net::net().conns[ops[o].conn]; let l = c.input.len();
        if choose(2) == 0 { c.gap = param(3) * 1_000_000; let at = [1, 20, l / 2, l - 1][choose(4)]; c.cuts.push(at); if at < l / 2 { c.cuts.push(l - 2) } } else { c.wgap = param(3) * 1_000_000; c.write_max = 50; }
    }
    client(&mut ops, 1, cmd(5), user(0)); client(&mut ops, 2, cmd(14), user(2));
    run(&mut ops, mode, param(2) as usize, 0, 0);
}
/// C23: the same disturbance again and again, then healthy clients. params: mode, times, threads
pub fn often() {
    let (mode, n) = (param(0), param(1) as usize); let mut ops = Vec::new(); let kind = choose(10);
    client(&mut ops, 0, cmd(0), user(0));
    for i in 0..n {
        let c = match kind { 0..=2 => cmd([7, 8, 9][kind]), 7 => (key("get nothing"), Plan::Run(vec![S::Get(key("nothing"))])), 8 => cmd(12), _ => cmd(3) };
        let o = client(&mut ops, 1 + i, c, user(if kind == 9 { 3 + i % 3 } else { 0 })); let c = &mut net::net().conns[ops[o].conn];
        match kind { 3 => { c.write_fail_at = 20; ops[o].fate = Fate::NoReply } 4 => { c.input.truncate(30); c.after = After::Error; ops[o].fate = Fate::Nothing } 5 => { c.input.truncate(c.input.len() - 5); c.after = After::Eof; ops[o].fate = Fate::Nothing } 6 => { c.accept_err = true; ops[o].fate = Fate::Nothing } _ => () }
    }
    for i in 0..3 { client(&mut ops, 1 + n + i, cmd([1, 3, 5][i]), user(0)); }
    run(&mut ops, mode, param(2) as usize, 0, 0);
}
/// C19/C23: many clients one after another, one of them odd. params: mode, clients, threads, which odd one (0: any command, 1: disturbed)
pub fn many() {
    let (mode, n) = (param(0), param(1) as usize); let mut ops = Vec::new(); let at = [1, n / 2, n - 1][choose(3)];
    for i in 0..n {
        if i == at { if param(3) == 0 { client(&mut ops, i, cmd([1, 7, 8, 9, 10, 11, 12, 17][choose(8)]), user(choose(6))); }
            else { let o = client(&mut ops, i, cmd(3), user(0)); let c = &mut net::net().conns[ops[o].conn]; match choose(3) { 0 => { c.write_fail_at = 20; ops[o].fate = Fate::NoReply } 1 => { c.input.truncate(30); c.after = After::Error; ops[o].fate = Fate::Nothing } _ => { c.accept_err = true; ops[o].fate = Fate::Nothing } } } continue }
        let k = format!("k{}", i % 7);
        let c = match i % 3 { 0 => { let v = i as i64; (format!("set {} {}", k, v), Plan::Run(vec![S::Set(k, V::Int(v), None)])) } 1 => (format!("try_get {}", k), Plan::Run(vec![S::TryGet(k)])), _ => (format!("del {}; ex {}", k, k), Plan::Run(vec![S::Del(k.clone()), S::Ex(k)])) };
        client(&mut ops, i, c, user([0, 0, 1][i % 3]));
    }
    run(&mut ops, mode, param(2) as usize, 0, 0);
}
/// C07/C19/C22: a value of any kind is stored, any statements are asked of it, and it is read back, all by clients of a server.
/// params: mode, threads, statements, start states, value kinds, map key kinds, users (1: any of the three levels)
pub fn kinds() {
    let p = |i| param(i) as usize; let mut ops = Vec::new();
    let put = |ops: &mut Vec<Op>, s: S, u: usize| { let mut t = String::new(); if !crate::common::spell(&s, &mut t) { assume(false) } let g = ops.len(); client(ops, g, (t, Plan::Run(vec![s])), user(u)); };
    let w = choose(p(3)); if w > 0 { put(&mut ops, S::Set(key("k"), crate::kv::start_value(w), None), 0) }
    for _ in 0..p(2) { let s = crate::kv::stmt(choose(crate::kv::NSTMT), "k", p(4), p(5), 0); let u = if p(6) == 1 { choose(3) } else { 0 }; put(&mut ops, s, u) }
    put(&mut ops, S::TryGet(key("k")), 2); put(&mut ops, S::Type(key("k")), 1);
    run(&mut ops, param(0), p(1), 0, 0);
}
/// C20: the same read before and after a write by somebody else. params: mode, threads, budget, flags, rounds
pub fn stale() {
    let p = |i| param(i) as usize; let mut ops = Vec::new();
    let put = |ops: &mut Vec<Op>, s: S, g: usize| { let mut t = String::new(); if !crate::common::spell(&s, &mut t) { assume(false) } client(ops, g, (t, Plan::Run(vec![s])), user(0)); };
    let k = || key("k"); let (vec, map) = (V::Seq(CT::Int, vec![V::Int(1)]), V::Map(KT::Int, CT::Int, vec![(V::Int(1), V::Int(1))]));
    let (first, read, write) = match choose(11) {
        0 => (V::Int(1), S::Get(k()), S::Set(k(), V::Int(2), None)), 1 => (V::Int(1), S::TryGet(k()), S::Upd(k(), V::Int(2), None)), 2 => (V::Int(1), S::Ex(k()), S::Del(k())), 3 => (V::Int(1), S::Type(k()), S::Set(k(), V::Str(key("x")), None)),
        4 => (vec, S::VLen(k()), S::VPush(k(), V::Int(2))), 5 => (vec, S::VGet(k(), 0), S::VSet(k(), 0, V::Int(2))), 6 => (vec, S::VPop(k()), S::VPush(k(), V::Int(3))), 7 => (map, S::MLen(k()), S::MSet(k(), V::Int(2), V::Int(2))),
        8 => (map, S::MGet(k(), V::Int(1)), S::MSet(k(), V::Int(1), V::Int(2))), 9 => (map, S::MEx(k(), V::Int(1)), S::MDel(k(), V::Int(1))), _ => (vec, S::Get(k()), S::VPush(k(), V::Int(2))),
    };
    put(&mut ops, S::Set(k(), first, None), 0);
    for _ in 0..1 + choose(2) { let g = ops[ops.len() - 1].group + 1; put(&mut ops, read.clone(), g) }
    for _ in 0..p(4) { let g = ops[ops.len() - 1].group + 1; put(&mut ops, write.clone(), g); put(&mut ops, read.clone(), g + 1) }
    run(&mut ops, param(0), p(1), param(2), param(3));
}
/// C22: a user whose name is nearly that of a role: a character added, changed, dropped or in the other case, or much text besides. params: mode, threads
pub fn who() {
    let mut ops = Vec::new(); let mut v = ["admin", "write", "read"][choose(3)].as_bytes().to_vec(); let x = vsym::u8() & 0x7f; assume(x > 0x20 && x < 0x7f);
    match choose(9) {
        0 => v.insert(choose(v.len() + 1), x), 1 => { let at = choose(v.len()); v[at] = x } 2 => { v.remove(choose(v.len())); } 3 => { let at = choose(v.len()); v[at] ^= 32 }
        4 => { let n = [1, 7, 32, 64, 255, 1024][choose(6)]; for _ in 0..n { v.push(b'n') } v.push(x) } 5 => { let w = v.clone(); v.push(x); v.extend(w) } 6 => { let at = choose(v.len() - 1); v.truncate(at + 1); v.push(x) } 7 => { for c in &mut v { *c ^= 32 } } _ => { let at = choose(v.len() + 1); let w = ["é", "\u{200b}", "\u{1F600}"][choose(3)]; for (i, b) in w.bytes().enumerate() { v.insert(at + i, b) } }
    }
    let s = unsafe { String::from_utf8_unchecked(v) }; let l = named(&s);
    client(&mut ops, 0, cmd(1), user(0)); client(&mut ops, 1, cmd([0, 5, 11][choose(3)]), (Some(s), l)); client(&mut ops, 2, cmd(5), user(2));
    run(&mut ops, param(0), param(1) as usize, 0, 0);
}
/// C12/C19: the layout of a query: blanks, line ends, letter case, separators, text of every alphabet. params: mode, threads
pub fn layout() {
    let mut ops = Vec::new(); let x = sym(); let a = key("a"); let blank = [" ", "\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{2003}", "\n\n  "][choose(8)];
    let set = |v: &str| vec![S::Set(key("a"), V::Str(v.to_string()), None)];
    let (t, ss) = match choose(12) {
        0 => (format!("{}set a \"{}\"", blank, x), set(&x)), 1 => (format!("set a \"{}\"{}", x, blank), set(&x)), 2 => (format!("set{}a{}\"{}\"", blank, blank, x), set(&x)),
        3 => (format!("set a \"{}\";{}", x, blank), set(&x)), 4 => (format!("{};;set a \"{}\"", blank, x), set(&x)), 5 => (format!("SET A \"{}\"", x), set(&x)),
        6 => { let v = format!("{}{}{}", x, if blank == "\u{b}" || blank == "\u{c}" { " " } else { blank }, x); (format!("set a \"{}\"", v), set(&v)) }
        7 => { let v = format!("é{}名\u{1F600};set b 1", x); (format!("set a \"{}\"", v), set(&v)) }
        8 => (format!("set a \"\\\"{}\\\\\\n\"", x), set(&format!("\"{}\\\n", x))),
        9 => (format!("set a 1;{}set a \"{}\";{}get a", blank, x, blank), vec![S::Set(a.clone(), V::Int(1), None), S::Set(a.clone(), V::Str(x.clone()), None), S::Get(a.clone())]),
        10 => (format!("set é_9 1; Set a \"{}\"; type É_9", x), vec![S::Set(key("é_9"), V::Int(1), None), S::Set(a.clone(), V::Str(x.clone()), None), S::Type(key("é_9"))]),
        _ => (format!("{}", blank), vec![]),
    };
    client(&mut ops, 0, (t, Plan::Run(ss)), user(0)); client(&mut ops, 1, cmd(5), user(2)); client(&mut ops, 2, cmd(9), user(0));
    run(&mut ops, param(0), param(1) as usize, 0, 0);
}
/// C19: requests and responses of many characters, elements or statements, among small ones. params: mode, threads, kind, n
pub fn bulk() {
    let (kind, n) = (param(2), param(3) as usize); let mut ops = Vec::new(); let a = key("a"); let x = sym();
    let s = |i: usize| if i == n / 2 { x.clone() } else { key("z") }; let all = || { let mut v = String::new(); for i in 0..n { v.push_str(&s(i)) } v };
    client(&mut ops, 0, cmd(3), user(0));
    let (t, ss, q): (String, Vec<S>, (String, Vec<S>)) = match kind {
        0 => { let v = all(); (format!("set k \"{}\"", v), vec![S::Set(key("k"), V::Str(v), None)], (key("get k"), vec![S::Get(key("k"))])) }
        1 => { let mut t = key("set k int [];"); let mut v = vec![S::Set(key("k"), V::Seq(CT::Int, vec![]), None)]; for i in 0..n { t.push_str("vpush k 7;"); v.push(S::VPush(key("k"), V::Int(7))); let _ = i; } t.push_str("vlen k"); v.push(S::VLen(key("k"))); (t, v, (key("get k"), vec![S::Get(key("k"))])) }
        2 => { let mut t = key("set k str ["); let mut v = vec![]; for i in 0..n { if i > 0 { t.push(',') } t.push('"'); t.push_str(&s(i)); t.push('"'); v.push(V::Str(s(i))) } t.push(']'); (t, vec![S::Set(key("k"), V::Seq(CT::Str, v), None)], (key("get k"), vec![S::Get(key("k"))])) }
        3 => { let k = "k".repeat(n); (format!("set {} \"{}\"", k, x), vec![S::Set(k.clone(), V::Str(x.clone()), None)], (format!("get {}", k), vec![S::Get(k)])) }
        _ => { let mut t = key("set k int str {"); let mut v = vec![]; for i in 0..n { if i > 0 { t.push(',') } t.push_str(&format!("{}:\"{}\"", i, s(i))); v.push((V::Int(i as i64), V::Str(s(i)))) } t.push('}'); (t, vec![S::Set(key("k"), V::Map(KT::Int, CT::Str, v), None)], (key("get k"), vec![S::Get(key("k"))])) }
    };
    client(&mut ops, 1, (t, Plan::Run(ss)), user(1)); client(&mut ops, 2, (q.0, Plan::Run(q.1)), user(2)); client(&mut ops, 3, cmd(1), user(2));
    run(&mut ops, param(0), param(1) as usize, 0, 0);
}
