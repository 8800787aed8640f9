//! The same obligations at sizes: mostly concrete data with a few symbolic variables in decisive places.
use crate::common::*;
use crate::kv::*;
use crate::lang::*;
use crate::http::{self, Out};
use std::net::model::{self as net, Conn};
/// The i-th of many distinct names: one character for the first 58, two after that.
fn nth(p: &str, i: usize) -> String { let mut s = String::from(p); s.push((b'A' + (i % 58) as u8) as char); if i >= 58 { s.push((b'!' + (i / 58) as u8) as char) } s }
/// A position among n: all of them if few, else the ends and where a fixed limit might lie.
fn place(n: usize) -> usize { if n <= 100 { return choose(n) } let v: Vec<usize> = [0, 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, n / 2, n - 2, n - 1].into_iter().filter(|x| *x < n).collect(); v[choose(v.len())] }
fn conc(c: CT, i: usize) -> V { match c { CT::Int => V::Int(i as i64 * 7 - 5), CT::Str => V::Str(format!("s{}", i)), CT::Bool => V::Bool(i % 3 == 0), CT::Float => V::Float((i as f32 + 0.5).to_bits()) } }
/// C05: a vector of n elements built in one statement or by n appends, statements at any index, and every element popped again. params: n, element type, statements
pub fn vectors() {
    let (n, c) = (param(0) as usize, cts(param(1) as usize)); init_clock();
    let k = "k".to_string(); let mut w = World::new();
    if choose(2) == 0 { w.run(&S::Set(k.clone(), V::Seq(c, (0..n).map(|i| conc(c, i)).collect()), None), "set refused a vector"); }
    else { w.run(&S::Set(k.clone(), V::Seq(c, vec![]), None), "set refused a vector"); for i in 0..n { w.run(&S::VPush(k.clone(), conc(c, i)), "vpush on a long vector is answered wrongly"); } }
    w.run(&S::VLen(k.clone()), "a long vector's length differs from the reference sequence");
    for _ in 0..param(2) {
        let idx = vsym::u64() as usize;
        let wrong = || if c == CT::Int { V::Bool(true) } else { V::Int(7) };
        let s = match choose(6) { 0 => S::VPush(k.clone(), elem(c)), 1 => S::VPop(k.clone()), 2 => S::VSet(k.clone(), idx, elem(c)), 3 => S::VPush(k.clone(), wrong()), 4 => S::VSet(k.clone(), place(n), wrong()), _ => S::VGet(k.clone(), idx) };
        w.run(&s, "a statement on a long vector is answered differently from the reference sequence");
    }
    w.run(&S::Get(k.clone()), "a long vector's contents differ from the reference sequence");
    for _ in 0..n + param(2) as usize + 1 { w.run(&S::VPop(k.clone()), "vpop on a long vector is answered wrongly"); }
    w.run(&S::VLen(k.clone()), "a long vector's length differs from the reference sequence"); reach(1);
}
/// C06: a map of n entries, statements with any key. params: n, key type, statements
pub fn maps() {
    let (n, t) = (param(0) as usize, if param(1) == 0 { KT::Int } else { KT::Str }); init_clock(); unsafe { vsym::HASH_REV = choose(2) == 1; }
    let k = "k".to_string(); let mut w = World::new(); let kc = if t == KT::Int { CT::Int } else { CT::Str };
    let key = |i: usize| if t == KT::Int { V::Int(i as i64 * 3) } else { V::Str(nth("", i)) };
    if choose(2) == 0 { w.run(&S::Set(k.clone(), V::Map(t, CT::Int, (0..n).map(|i| (key(i), conc(CT::Int, i))).collect()), None), "set refused a map"); }
    else { w.run(&S::Set(k.clone(), V::Map(t, CT::Int, vec![]), None), "set refused a map"); for i in 0..n { w.run(&S::MSet(k.clone(), key(i), conc(CT::Int, i)), "mset on a large map is answered wrongly"); } }
    w.run(&S::MLen(k.clone()), "a large map's size differs from the reference map");
    let mut used = vec![];
    for _ in 0..param(2) {
        let a = mkey(t); used.push(a.clone());
        let other = || if t == KT::Int { V::Str("0".to_string()) } else { V::Int(0) };
        let s = match choose(7) { 0 => S::MSet(k.clone(), a, elem(CT::Int)), 1 => S::MDel(k.clone(), a), 2 => S::MGet(k.clone(), a), 3 => S::MSet(k.clone(), a, V::Bool(false)), 4 => S::MSet(k.clone(), key(place(n)), V::Str("1".to_string())), 5 => S::MSet(k.clone(), other(), V::Int(1)), _ => S::MEx(k.clone(), a) };
        w.run(&s, "a statement on a large map is answered differently from the reference map");
    }
    w.run(&S::Get(k.clone()), "a large map's contents differ from the reference map"); w.run(&S::MLen(k.clone()), "a large map's size differs from the reference map");
    for a in used { w.run(&S::MGet(k.clone(), a), "a large map's entry differs from the reference map"); }
    reach(1);
}
/// C01/C03: n keys, some expiring; any of the statements on any of them; removal until nothing expired is left. params: n, statements, every how many keys expires, symbolic key name, free draws (0: all)
pub fn keys() {
    let (n, m, e) = (param(0) as usize, param(1) as usize, param(2) as usize); init_clock(); if param(4) > 0 { unsafe { vsym::FREE = param(4) } }
    let keys: Vec<String> = (0..n).map(|i| nth("k", i)).collect(); let mut w = World::new();
    for i in 0..n { w.run(&S::Set(keys[i].clone(), conc(CT::Int, i), if e > 0 && i % e == 0 { Some(10 + i as u64 % 2) } else { None }), "set fails in a large store"); }
    for j in 0..m {
        let k = if param(3) == 1 { let mut s = String::from("k"); s.push_str(&ascii(1)); s } else { keys[place(n)].clone() };
        let s = match choose(6) { 0 => S::Set(k, V::Int(1), None), 1 => S::Set(k, V::Int(2), Some(5)), 2 => S::Del(k), 3 => S::SetLife(k, None), 4 => S::SetLife(k, Some(20)), _ => S::Upd(k, V::Int(3), None) };
        w.run(&s, "a statement's response in a large store differs from the reference map");
    }
    w.audit_values(&keys, "the contents of a large store differ from the reference map");
    if e > 0 {
        tick(100); let mut live = 0; for x in &w.m.e { if !dead(x.x) { live += 1 } }
        for _ in 0..n { let r = w.exec(&S::Expire); check(r.is_ok(), "a removal step fails in a large store"); }
        check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "expiring keys are still tracked after all of them expired and were removed");
        check(w.it.storage.len().unwrap_or(99) == live, "expired entries still occupy a large store after enough removal steps");
        w.audit_values(&keys, "the contents of a large store differ from the reference map after the removal of expired entries");
    }
    reach(1);
}
/// C03: n expiring keys, any draws, removal steps; with a statement on any key between. params: n, steps, kind (0 all expired, 1 some), free draws (0: all)
pub fn draws() {
    let (n, m) = (param(0) as usize, param(1) as usize); init_clock(); if param(3) > 0 { unsafe { vsym::FREE = param(3) } }
    let keys: Vec<String> = (0..n).map(|i| nth("k", i)).collect(); let mut w = World::new();
    for i in 0..n { w.run(&S::Set(keys[i].clone(), conc(CT::Int, i), Some(if param(2) == 1 && i % 2 == 1 { 1000 } else { 10 })), "set fails"); }
    tick(100);
    for i in 0..m { let l = w.it.storage.len().unwrap_or(99); let r = w.exec(&S::Expire); tr_resp(&r); match r { Ok(R::Size(x)) => { check(w.it.storage.len().unwrap_or(99) + x == l, "a removal step reports a different number of entries than it removed"); check(param(2) == 1 || i > 0 || x == 1, "a removal step among expired keys only removes nothing"); } _ => fail("a removal step fails") }
        if i == 0 { let k = keys[choose(n)].clone(); let s = match choose(3) { 0 => S::Set(k, V::Int(1), Some(7)), 1 => S::Del(k), _ => S::Set(k, V::Int(1), None) }; w.run(&s, "a statement's response differs from the reference map"); } }
    w.audit_values(&keys, "removing expired entries changed what a client can see");
    tick(1 << 20); let mut live = 0; for x in &w.m.e { if !dead(x.x) { live += 1 } }
    for _ in 0..n { let r = w.exec(&S::Expire); check(r.is_ok(), "a removal step fails"); }
    check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "expiring keys are still tracked after all of them expired and were removed");
    check(w.it.storage.len().unwrap_or(99) == live, "expired entries still occupy the store after enough removal steps");
    w.audit_values(&keys, "the state after removing all expired entries differs from the reference map"); reach(1);
}
/// C03: one expired key among n with lifetimes still running (and, if asked, one overwritten without one): a long run of
/// removal steps on a fixed well-mixed sequence of draws finds it, wherever it is. params: n, steps, first draws left symbolic
pub fn fair() {
    let (n, m) = (param(0) as usize, param(1) as usize); init_clock(); unsafe { vsym::FREE = param(2) }
    let keys: Vec<String> = (0..n).map(|i| nth("k", i)).collect(); let mut w = World::new();
    let at = place(n); let how = choose(4);
    for i in 0..n { w.run(&S::Set(keys[i].clone(), conc(CT::Int, i), Some(if i == at && how != 1 { 10 } else { 1 << 20 })), "set fails"); }
    let other = keys[(at + 1) % n].clone();
    match how { 0 => (), 1 => { w.run(&S::Set(keys[at].clone(), V::Int(5), Some(10)), "set fails"); } 2 => { w.run(&S::Del(other.clone()), "del fails"); } _ => { w.run(&S::Set(other.clone(), V::Int(6), None), "set fails"); } }
    let l = w.it.storage.len().unwrap_or(99); tick(100);
    let mut gone = 0; for _ in 0..m { match w.exec(&S::Expire) { Ok(R::Size(x)) => { gone += x; if gone > 0 { break } } _ => fail("a removal step fails") } }
    check(gone == 1, "an expired key is never sampled for removal"); check(w.it.storage.len().unwrap_or(99) + 1 == l, "a removal step reports a different number of entries than it removed");
    w.audit_values(&keys, "removing expired entries changed what a client can see"); reach(1);
}
/// C08/C09: a request of n statements with one that fails or is forbidden at any position. params: n
pub fn request() {
    let n = param(0) as usize; init_clock(); let (k, o) = ("k".to_string(), "o".to_string());
    let mut w = World::new(); w.run(&S::Set(o.clone(), V::Seq(CT::Int, vec![]), None), "set fails");
    let at = place(n); let odd = choose(7); let lv = choose(3);
    let writing = choose(2) == 1 || lv != 2;
    let ss: Vec<S> = (0..n).map(|i| if i == at { match odd { 0 => S::Get("x".to_string()), 1 => S::VPush(o.clone(), V::Bool(true)), 2 => S::VGet(o.clone(), 1 << 40), 3 => S::Shutdown, 4 => S::Set(k.clone(), V::Int(-1), None), 5 => S::MLen(o.clone()), _ => S::Ex(k.clone()) } } else if writing { if i % 2 == 0 { S::VPush(o.clone(), V::Int(i as i64)) } else { S::Set(k.clone(), V::Int(i as i64), None) } } else { S::VLen(o.clone()) }).collect();
    let r = w.submit(&ss, level(lv)); tr_resp(&r);
    if ss.iter().any(|s| match s { S::Shutdown => lv != 0, s => writes(s) && lv == 2 }) { reach(2); check(match &r { Err(ServerError::AuthorizationError(_)) => true, _ => false }, "a long request with a statement its user may not run is not refused with an authorisation error"); }
    else {
        let mut want = Want::Null; let mut stop = false;
        for s in &ss { if stop { continue; } want = w.m.step(s); stop = match want { Want::KeyErr | Want::IndexErr | Want::TypeErr | Want::Err | Want::Down => true, _ => false }; if stop { reach(3); } }
        check(agree(&r, &want), "a long request's response is not that of its last executed statement"); reach(4);
    }
    w.audit(&[k, o], "after a long request the state is not that of its statements in order up to the first failure"); reach(1);
}
/// C08/C09: the same statement several times in one request, by itself, alternating with another, or on two keys; short and long payloads. params: n, payload length
pub fn repeat() {
    let (n, len) = (param(0) as usize, param(1) as usize); init_clock();
    let (k, o) = (if choose(2) == 0 { "k".to_string() } else { "k".repeat(len + 1) }, "o".to_string()); let mut w = World::new();
    let (v, s) = { let mut t = ascii(1); for _ in 0..len { t.push('p') } (V::Str(t.clone()), t) };
    let first = match choose(4) { 0 => None, 1 => Some(v.clone()), 2 => Some(V::Seq(CT::Str, vec![v.clone(), v.clone(), V::Str("z".to_string())])), _ => Some(V::Map(KT::Str, CT::Str, vec![(v.clone(), v.clone())])) };
    if let Some(x) = first { w.run(&S::Set(k.clone(), x, None), "set refused a valid value"); }
    w.run(&S::Set(o.clone(), V::Seq(CT::Str, vec![]), None), "set fails");
    let kind = choose(15);
    let one = |k: &String, i: usize| -> S { let (k, v) = (k.clone(), v.clone()); match i { 0 => S::VPush(k, v), 1 => S::VPop(k), 2 => S::TrySet(k, v, None), 3 => S::Del(k), 4 => S::MDel(k, v), 5 => S::Upd(k, v, None), 6 => S::Set(k, v, None), 7 => S::MSet(k, v.clone(), v), 8 => S::VSet(k, 1, v), 9 => S::Get(k), 10 => S::VGet(k, 2), 11 => S::MEx(k, v), 12 => S::SetLife(k, Some(s.len() as u64)), 13 => S::Set(k, V::Seq(CT::Str, vec![v.clone(), v]), None), _ => S::Shutdown } };
    let how = choose(3); let lv = choose(3);
    let ss: Vec<S> = (0..n).map(|i| match how { 0 => one(&k, kind), 1 => if i % 2 == 0 { one(&k, kind) } else { S::VPush(o.clone(), v.clone()) }, _ => if i + 1 == n { one(&o, 0) } else { one(&k, kind) } }).collect();
    let r = w.submit(&ss, level(lv)); tr_resp(&r);
    if ss.iter().any(|s| match s { S::Shutdown => lv != 0, s => writes(s) && lv == 2 }) { reach(2); check(match &r { Err(ServerError::AuthorizationError(_)) => true, _ => false }, "a request that repeats a statement its user may not run is not refused with an authorisation error"); }
    else {
        let mut want = Want::Null; let mut stop = false;
        for s in &ss { if stop { continue; } want = w.m.step(s); stop = match want { Want::KeyErr | Want::IndexErr | Want::TypeErr | Want::Err | Want::Down => true, _ => false }; if stop { reach(3); } }
        check(agree(&r, &want), "the response to a request that repeats a statement is not that of its last executed statement"); reach(4);
    }
    w.audit(&[k, o], "after a request that repeats a statement the state is not that of its statements in order"); reach(1);
}
/// C10-C13: long texts. params: kind, n
pub fn text() {
    let (kind, n) = (param(0) as usize, param(1) as usize);
    let at = { let p = choose(4); [0, 1, n / 2, n - 1][p] };
    let word = |c: u8, lo: bool| -> String { let mut v = vec![b'q'; n]; v[at] = if lo && c >= b'A' && c <= b'Z' { c + 32 } else { c }; unsafe { String::from_utf8_unchecked(v) } };
    let (t, w): (String, Option<Vec<S>>) = match kind {
        // an identifier of n characters
        0 => { let c = vsym::u8() & 0x7f; assume((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_'); (format!("get {}", word(c, false)), Some(vec![S::Get(word(c, true))])) }
        // a string literal of n characters
        1 => { let c = vsym::u8() & 0x7f; assume(c != b'"' && c != b'\\'); (format!("set k \"{}\"", word(c, false)), Some(vec![S::Set("k".to_string(), V::Str(word(c, false)), None)])) }
        // n escapes, then a symbolic character
        2 => { let c = vsym::u8() & 0x7f; assume(c != b'"' && c != b'\\'); let mut s = String::new(); let mut v = String::new(); for i in 0..n { if i == at { s.push(c as char); v.push(c as char) } else { s.push_str("\\\""); v.push('"') } } (format!("set k \"{}\"", s), Some(vec![S::Set("k".to_string(), V::Str(v), None)])) }
        // n blanks, one of them any whitespace
        3 => { let c = vsym::u8() & 7; assume(c < 6); let mut s = vec![b' '; n]; s[at] = if c == 5 { b' ' } else { 9 + c }; let s = unsafe { String::from_utf8_unchecked(s) }; (format!("{}get{}k{};", s, s, s), Some(vec![S::Get("k".to_string())])) }
        // a vector literal of n elements
        4 => { let d = vsym::u8() & 7; let mut s = String::from("set k int ["); let mut v = vec![]; for i in 0..n { if i > 0 { s.push(',') } if i == at { s.push((b'0' + d) as char); v.push(V::Int(d as i64)) } else { s.push_str(&format!("{}", i)); v.push(V::Int(i as i64)) } } s.push(']'); (s, Some(vec![S::Set("k".to_string(), V::Seq(CT::Int, v), None)])) }
        // a map literal of n entries
        5 => { let d = vsym::u8() & 7; let mut s = String::from("set k str int {"); let mut v = vec![]; for i in 0..n { if i > 0 { s.push(',') } let e = if i == at { d as usize } else { i }; s.push_str(&format!("\"e{}\":{}", i, e)); v.push((V::Str(format!("e{}", i)), V::Int(e as i64))) } s.push('}'); (s, Some(vec![S::Set("k".to_string(), V::Map(KT::Str, CT::Int, v), None)])) }
        // n statements, or n - 1 and a malformed one
        6 => { let bad = choose(2) == 1; let mut s = String::new(); let mut v = vec![]; for i in 0..n { if i == at && bad { s.push_str("get 5;") } else { let d = vsym::u8() & 7; s.push_str("vpush o "); s.push((b'0' + d) as char); s.push(';'); v.push(S::VPush("o".to_string(), V::Int(d as i64))) } } (s, if bad { None } else { Some(v) }) }
        // n separators
        7 => { let mut s = String::from("get k"); for _ in 0..n { s.push(';') } s.push_str("get l"); (s, Some(vec![S::Get("k".to_string()), S::Get("l".to_string())])) }
        // n digits: zeros, then a number
        8 => { let d = vsym::u8() & 7; let mut s = String::from("set k "); for _ in 0..n { s.push('0') } s.push((b'1' + d) as char); (s, Some(vec![S::Set("k".to_string(), V::Int(1 + d as i64), None)])) }
        // n digits of a fraction
        9 => { let mut s = String::from("set k 1."); for _ in 0..n { s.push('0') } (s, Some(vec![S::Set("k".to_string(), V::Float(1f32.to_bits()), None)])) }
        // a string of n non-ASCII characters around a symbolic one
        10 => { let c = vsym::u8() & 0x7f; assume(c != b'"' && c != b'\\'); let mut v = String::new(); for i in 0..n { if i == at { v.push(c as char) } else { v.push(['é', '名', '\u{1F600}'][i % 3]) } } (format!("set k \"{}\"", v), Some(vec![S::Set("k".to_string(), V::Str(v), None)])) }
        // a vector of n strings, a malformed element among them
        11 => { let mut s = String::from("set k str ["); for i in 0..n { if i > 0 { s.push(',') } if i == at { s.push_str("1") } else { s.push_str("\"x\"") } } s.push(']'); (s, None) }
        // deep nonsense
        12 => { let mut s = String::from("set k int "); let b = ['[', '{', '"', ':'][choose(4)]; for _ in 0..n { s.push(b) } (s, None) }
        // a long word that is no identifier any more, and a long one of digits
        _ => { let mut s = String::from("set k "); for _ in 0..n { s.push('9') } (s, None) }
    };
    agree_parse(&parse(&t), &w, "a long request is not parsed to its statements"); reach(1);
}
/// C17/C18: long responses. params: mode, kind, n
pub fn response() {
    let n = param(2) as usize; let mut s = http::sender(param(0));
    let long = || { let at = [0, 1, n / 2, n - 1][choose(4)]; let c = vsym::u8() & 0x7f; let mut v = String::new(); for i in 0..n { if i == at { v.push(c as char) } else { v.push(['a', 'é', '\n', '\u{1F600}'][i % 4]) } } v };
    let o = match param(1) { 0 => Out::Val(V::Str(long())), 1 => Out::Val(V::Seq(CT::Int, (0..n).map(|i| V::Int(i as i64 * 1001)).collect())), 2 => Out::Val(V::Map(KT::Int, CT::Str, (0..n).map(|i| (V::Int(i as i64 - 3), V::Str(format!("\"{}", i)))).collect())), 3 => Out::Err(choose(11), long()), 4 => Out::Msg(long()), _ => Out::Val(V::Seq(CT::Str, (0..n).map(|i| V::Str(if i == n / 2 { ascii(1) } else { "é".to_string() })).collect())) };
    let c = &mut net::net().conns[0]; c.write_max = [usize::MAX, 1000][choose(2)];
    let r = s.send(http::out_resp(&o)); check(r.is_ok(), "sending a long response to a healthy connection failed"); drop(s);
    let c = &net::net().conns[0]; for b in &c.out { trace(*b as u64) }
    http::judge(&c.out, &o); check(c.closed, "the connection is left open after the response"); reach(1);
}
/// C14/C16: a body of about n bytes, its query n - 40 characters long, non-ASCII if asked, in reads of at most k bytes. params: mode, n, k, non-ASCII
pub fn body() {
    let n = param(1) as usize; let k = param(2) as usize; let at = [0, n / 2, n - 1][choose(3)];
    let x = http::plain(); let mut q = String::new(); for i in 0..n { if i == at { q.push(x as char) } else if param(3) == 1 { q.push(['é', '名', '\u{1F600}', 'z'][i % 4]) } else { q.push('z') } }
    let m = http::request(&q, "admin", 0, 0); let mut c = Conn::new(m); let mut p = k; while p < c.input.len() { c.cuts.push(p); p += k; } net::push(c);
    let g = http::receive(param(0)); http::expect(&g, &q, "admin"); reach(1);
}
/// C14: a request with non-ASCII text in query and header, split at every byte. params: mode, cuts
pub fn split_text() {
    let x = http::plain(); let q = format!("é{}名\u{1F600}", x as char); let user = "üser";
    let mut c = Conn::new(http::request(&q, user, 0, 0)); let n = c.input.len(); let mut lo = 1;
    for _ in 0..param(1) { if lo >= n { break } let p = lo + choose(n - lo); c.cuts.push(p); lo = p + 1; }
    net::push(c); let g = http::receive(param(0)); http::expect(&g, &q, user); reach(1);
}
/// C11: long and extreme float literals, one digit of each replaced by any other; read as the nearest single-precision value. params: literal
pub fn floats() {
    const T: [&str; 12] = ["0.0000000012345", "123456789.987654321", "16777217.0", "16777216.5", "340282350000000000000000000000000000000.0", "-0.000000000000000000000000000000000000011754944", "0.00000000000000000000000000000000000000000000140129846432", "1.00000005960464477539062", "8388608.500000000000000000001", "-99999999999999999999.0", "0.3333333333333333333333333333", "1234.5678"];
    let t = T[param(0) as usize]; let mut b = t.as_bytes().to_vec(); let at = choose(b.len()); if b[at] >= b'0' && b[at] <= b'9' { b[at] = b'0' + choose(10) as u8; }
    let t = unsafe { String::from_utf8_unchecked(b) }; let want: f32 = match t.parse() { Ok(x) => x, Err(_) => fail("reference: not a float") };
    agree_parse(&parse(&format!("set k {}", t)), &Some(vec![S::Set("k".to_string(), V::Float(want.to_bits()), None)]), "a float literal is stored as another value"); reach(1);
}
/// C01/C06: names and strings of n characters that differ in at most one of them. params: n, kind (0 keys of the store, 1 map keys, 2 values, 3 keys with lifetimes, then removal steps)
pub fn long() {
    let (n, kind) = (param(0) as usize, param(1)); init_clock();
    let at = place(n); let c = vsym::u8() & 0x7f; let d = vsym::u8() & 0x7f;
    let word = |c: u8, n: usize| -> String { let mut v = vec![b'q'; n]; if at < n { v[at] = c } unsafe { String::from_utf8_unchecked(v) } };
    let m = [n, n + 1, n - 1][choose(3)]; let (a, b) = (word(c, n), word(d, m)); let k = "k".to_string(); let mut w = World::new();
    match kind {
        0 => {
            w.run(&S::Set(a.clone(), V::Int(1), None), "set with a long key fails");
            let s = match choose(9) { 0 => S::Set(b.clone(), V::Int(2), None), 1 => S::TrySet(b.clone(), V::Int(3), None), 2 => S::Upd(b.clone(), V::Int(4), None), 3 => S::Del(b.clone()), 4 => S::SetLife(b.clone(), Some(9)), 5 => S::Ex(b.clone()), 6 => S::Type(b.clone()), 7 => S::VLen(b.clone()), _ => S::TryGet(b.clone()) };
            w.run(&s, "a statement with a long key is answered differently from the reference map"); w.audit(&[a, b], "the state of long keys differs from the reference map");
        }
        3 => {
            let l = |i| [None, Some(10), Some(1000)][i]; let keys = [a.clone(), b.clone()];
            w.run(&S::Set(a.clone(), V::Int(1), l(choose(3))), "set with a long key fails"); w.run(&S::Set(b.clone(), V::Int(2), l(choose(3))), "set with a long key fails");
            let s = match choose(4) { 0 => S::SetLife(a.clone(), l(choose(3))), 1 => S::Del(a.clone()), 2 => S::TrySet(a.clone(), V::Int(3), l(choose(3))), _ => S::Upd(b.clone(), V::Int(4), l(choose(3))) };
            w.run(&s, "a statement with a long key is answered differently from the reference map");
            tick(100); let live = |w: &World| { let mut n = 0; for x in &w.m.e { if !dead(x.x) { n += 1 } } n };
            for _ in 0..6 { let r = w.exec(&S::Expire); check(r.is_ok(), "a removal step fails with long keys"); }
            w.audit_values(&keys, "removing expired entries with long keys changed what a client can see"); tick(1 << 20);
            for _ in 0..6 { let r = w.exec(&S::Expire); check(r.is_ok(), "a removal step fails with long keys"); }
            check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "expiring keys are still tracked after all of them expired and were removed");
            check(w.it.storage.len().unwrap_or(99) == live(&w), "expired entries with long keys still occupy the store after enough removal steps"); w.audit_values(&keys, "removing expired entries with long keys changed what a client can see");
        }
        1 => {
            let put = |x: &String| V::Str(x.clone());
            if choose(2) == 0 { w.run(&S::Set(k.clone(), V::Map(KT::Str, CT::Int, vec![]), None), "set refused a map"); w.run(&S::MSet(k.clone(), put(&a), V::Int(1)), "mset with a long key fails"); } else { w.run(&S::Set(k.clone(), V::Map(KT::Str, CT::Int, vec![(put(&a), V::Int(1))]), None), "set refused a map with a long key"); }
            let s = match choose(4) { 0 => S::MSet(k.clone(), put(&b), V::Int(2)), 1 => S::MDel(k.clone(), put(&b)), 2 => S::MGet(k.clone(), put(&b)), _ => S::MEx(k.clone(), put(&b)) };
            w.run(&s, "a map statement with a long key is answered differently from the reference map"); w.run(&S::MLen(k.clone()), "a map of long keys has another size"); w.run(&S::MGet(k.clone(), put(&a)), "a map's long key is answered differently from the reference map"); w.run(&S::Get(k.clone()), "a map of long keys differs from the reference map");
        }
        _ => {
            w.run(&S::Set(k.clone(), if choose(2) == 0 { V::Str(a.clone()) } else { V::Seq(CT::Str, vec![V::Str(a.clone())]) }, None), "set refused a long string"); w.run(&S::Get(k.clone()), "a long string is read back differently");
            let s = match choose(5) { 0 => S::Set(k.clone(), V::Str(b.clone()), None), 1 => S::TrySet(k.clone(), V::Str(b.clone()), None), 2 => S::Upd(k.clone(), V::Str(b.clone()), None), 3 => S::VPush(k.clone(), V::Str(b.clone())), _ => S::VSet(k.clone(), 0, V::Str(b.clone())) };
            w.run(&s, "a statement with a long string is answered differently from the reference model"); w.audit(&[k], "a long string is stored differently");
        }
    }
    reach(1);
}
