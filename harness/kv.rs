//! Histories of statements against the reference model (C01-C09).
use crate::common::*;
/// A lifetime: mode 0 none; 1 none or up to 2^32 s; 2 also any 64-bit number; 3 always up to 2^32 s.
pub fn life(mode: usize) -> Option<u64> { if mode == 0 { return None; } if mode == 3 { return Some(secs32()); } match choose(mode + 1) { 0 => None, 1 => Some(secs32()), _ => Some(if text() { [u64::MAX >> 1, 1 << 62, (1 << 63) - 2][choose(3)] } else { vsym::u64() }) } }
pub fn keyname(mode: usize) -> String { match mode { 0 => ascii(1), 1 => ascii(choose(3)), _ => ascii(mode) } }
/// params: ops, keys, lifetimes, value kinds, clock (0 frozen, 1 advances), key names (0 one character, 1 up to two, n)
pub fn history() {
    let (n, nk, lm, kinds, clk, km) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, param(4) as usize, param(5) as usize);
    init_clock();
    let keys: Vec<String> = (0..nk).map(|_| keyname(km)).collect();
    let mut w = World::new();
    for i in 0..n {
        if clk == 1 && i > 0 { tick(vsym::u32() as u64); }
        // by symmetry the first operation can use the first key
        let k = keys[if i == 0 { 0 } else { choose(nk) }].clone();
        let nops = if lm == 0 { 4 } else { 5 };
        let s = match choose(nops) { 0 => S::Set(k, scalar(choose(kinds)), life(lm)), 1 => S::TrySet(k, scalar(choose(kinds)), life(lm)), 2 => S::Upd(k, scalar(choose(kinds)), life(lm)), 3 => S::Del(k), _ => S::SetLife(k, life(lm)) };
        w.run(&s, "a key-value statement's response differs from the reference map");
    }
    if clk == 1 { tick(vsym::u32() as u64); }
    w.audit(&keys, "after a history of key-value statements a key's state differs from the reference map");
    reach(1);
}
/// The lifetime of the entry a history is about (parameter 8: 1 one that goes on throughout; 2 one or none).
pub fn lasting() -> Option<u64> { match param(8) { 1 => Some(100), 2 => if choose(2) == 1 { Some(1 << 20) } else { None }, _ => None } }
pub fn cts(i: usize) -> CT { match i { 0 => CT::Int, 1 => CT::Str, 2 => CT::Bool, _ => CT::Float } }
pub fn elem(c: CT) -> V { match c { CT::Int => V::Int(int()), CT::Str => V::Str(ascii(1)), CT::Bool => V::Bool(if text() { choose(2) == 1 } else { vsym::bool() }), CT::Float => V::Float(flt()) } }
pub fn mkey(t: KT) -> V { match t { KT::Int => V::Int(int()), KT::Str => V::Str(ascii(1)) } }
pub fn vector(c: CT, n: usize) -> V { V::Seq(c, (0..n).map(|_| elem(c)).collect()) }
/// A map of `n` distinct keys.
pub fn map(t: KT, c: CT, n: usize) -> V { let mut v: Vec<(V, V)> = vec![]; for _ in 0..n { let k = mkey(t); for (a, _) in &v { assume(!veq(a, &k)); } v.push((k, elem(c))); } V::Map(t, c, v) }
/// Any value: scalars, vectors and maps of every type (`full`: with up to one element).
pub fn any_value(full: bool) -> V {
    match choose(7) { 0 => V::Null, 1 => V::Bool(if text() { choose(2) == 1 } else { vsym::bool() }), 2 => V::Int(int()), 3 => V::Str(ascii(1)), 4 => V::Float(flt()), 5 => { let c = cts(choose(4)); vector(c, if full { 1 } else { 0 }) } _ => { let t = if choose(2) == 0 { KT::Int } else { KT::Str }; let c = cts(choose(4)); map(t, c, if full { 1 } else { 0 }) } }
}
/// A small value: one of a few kinds.
pub fn few(v: usize) -> V { match v { 0 => V::Int(int()), 1 => V::Str(ascii(1)), 2 => V::Bool(if text() { choose(2) == 1 } else { vsym::bool() }), 3 => V::Float(flt()), 4 => V::Null, 5 => vector(CT::Int, 0), _ => map(KT::Int, CT::Int, 0) } }
pub const NSTMT: usize = 20;
/// Statement number `i` on key `k`; `nv` value kinds, `nm` map key kinds, lifetimes as in `life`.
pub fn stmt(i: usize, k: &str, nv: usize, nm: usize, lm: usize) -> S {
    let k = k.to_string(); let idx = || index();
    match i {
        0 => S::Get(k), 1 => S::TryGet(k), 2 => S::Ex(k), 3 => S::Type(k), 4 => S::Life(k), 5 => S::VGet(k, idx()), 6 => S::VLen(k), 7 => S::MGet(k, few(choose(nm))), 8 => S::MEx(k, few(choose(nm))), 9 => S::MLen(k),
        10 => S::Set(k, few(choose(nv)), life(lm)), 11 => S::TrySet(k, few(choose(nv)), life(lm)), 12 => S::Upd(k, few(choose(nv)), life(lm)), 13 => S::Del(k), 14 => S::SetLife(k, life(lm)), 15 => S::VPush(k, few(choose(nv))), 16 => S::VPop(k), 17 => S::VSet(k, idx(), few(choose(nv))), 18 => S::MSet(k, few(choose(nm)), few(choose(nv))), _ => S::MDel(k, few(choose(nm))),
    }
}
/// What a key holds at the start: nothing, a scalar, a vector or a map.
pub fn start(w: &mut World, k: &str, which: usize, l: Option<u64>) { if which > 0 { w.run(&S::Set(k.to_string(), start_value(which), l), "set refused a valid value"); } }
pub fn start_value(which: usize) -> V {
    match which { 0 | 2 => V::Null, 1 => V::Int(int()), 3 => vector(CT::Int, 2), 4 => vector(CT::Str, 1), 5 => map(KT::Int, CT::Int, 1), 6 => map(KT::Str, CT::Str, 1), 7 => V::Str(ascii(1)), 8 => vector(CT::Bool, 0), 9 => vector(CT::Float, 1), 10 => map(KT::Str, CT::Bool, 0), 11 => map(KT::Int, CT::Float, 1), 12 => V::Bool(if text() { choose(2) == 1 } else { vsym::bool() }), _ => V::Float(flt()) }
}
/// params: statements, lifetimes, start states, value kinds, map key kinds, clock between statements
/// Every statement of the language on one key (a second key must stay as it is).
pub fn any() {
    let (n, lm, ns, nv, nm, clk) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, param(4) as usize, param(5) as usize);
    init_clock();
    let (k, o) = ("k".to_string(), "o".to_string());
    let mut w = World::new();
    start(&mut w, &o, 1, None); start(&mut w, &k, choose(ns), life(lm));
    for _ in 0..n {
        if clk == 1 { tick(vsym::u32() as u64); }
        let s = stmt(choose(NSTMT), &k, nv, nm, lm);
        w.run(&s, "a statement's response differs from the reference model");
    }
    w.audit(&[k, o], "after a history of statements a key's state differs from the reference model");
    reach(1);
}
/// Expiry at full clock precision, for every kind of statement. params: start states
pub fn expiry() {
    let ns = param(0) as usize;
    init_clock_ns();
    let (k, o) = ("k".to_string(), "o".to_string());
    let mut w = World::new();
    start(&mut w, &o, 3, None); start(&mut w, &k, 1 + choose(ns), Some(secs32()));
    tick_ns();
    let gone = w.m.live(&k).is_none(); if gone { reach(2) } else { reach(3) }
    let s = stmt(choose(NSTMT), &k, 1, 1, 1);
    w.run(&s, "a statement on a key whose lifetime may have ended is answered wrongly");
    w.audit(&[k.clone(), o.clone()], "the state around the end of a lifetime differs from the reference model");
    reach(1);
}
/// C02/C03: a key whose lifetime has ended among others with lifetimes, ended or not, set before or after it; any statement on
/// it, then one that sets or deletes; then every trace of what expired can be removed. params: others at most, second statement
pub fn lapsed() {
    let (m, two) = (param(0) as usize, param(1) == 1); init_clock(); let k = "k".to_string(); let mut w = World::new();
    let n = choose(m + 1); let at = choose(n + 1); let gone = choose(2) == 1; let mut keys = vec![];
    for i in 0..n + 1 {
        if i == at { start(&mut w, &k, [1, 3, 5][choose(3)], Some(10)); keys.push(k.clone()) }
        if i < n { let o = ["a", "b", "c", "d", "e"][i].to_string(); w.run(&S::Set(o.clone(), V::Int(i as i64), Some(if gone && i % 2 == 0 { 10 } else { 1 << 40 })), "set fails"); keys.push(o) }
    }
    if choose(2) == 1 { tick(100) } else { tick(10) }
    let s = stmt(choose(NSTMT), &k, 1, 1, 1); w.run(&s, "a statement on a key whose lifetime may have ended is answered wrongly when others have lifetimes too");
    if two { let i = keys[choose(keys.len())].clone(); let s = match choose(5) { 0 => S::Set(i, V::Int(50), None), 1 => S::Set(i, V::Int(51), Some(5)), 2 => S::Del(i), 3 => S::TrySet(i, V::Int(52), Some(7)), _ => S::Upd(i, V::Int(53), Some(9)) }; w.run(&s, "a statement after a lifetime ended is answered differently from the reference map"); }
    w.audit_values(&keys, "the state around the end of a lifetime differs from the reference model");
    tick(1 << 44); let live = { let mut n = 0; for e in &w.m.e { if !dead(e.x) { n += 1 } } n };
    for _ in 0..n + 2 { let r = w.exec(&S::Expire); tr_resp(&r); check(r.is_ok(), "a removal step fails"); }
    check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "expiring keys are still tracked after all of them expired and were removed");
    check(w.it.storage.len().unwrap_or(99) == live, "expired entries still occupy the store after enough removal steps");
    w.audit_values(&keys, "the state after removing all expired entries differs from the reference map");
    reach(1);
}
/// The clock may pass an expiry in the middle of a read: the answer must be the one before or the one after.
pub fn straddle() {
    init_clock();
    let k = "k".to_string(); let mut w = World::new();
    start(&mut w, &k, 1 + choose(param(0) as usize), Some(secs32()));
    tick(vsym::u32() as u64);
    let s = stmt(choose(10), &k, 1, 1, 0);
    let before = w.m.step(&s);
    let c = vsym::clock(); let t0 = c.secs; c.jitter = 2; c.reads = 1;
    let r = w.exec(&s); let t1 = c.secs; tr_resp(&r); c.jitter = 0;
    let mut ok = { c.secs = t0; agree(&r, &before) };
    let mut t = t0; while t < t1 { t += 1; c.secs = t; let a = w.m.step(&s); ok |= agree(&r, &a); if t - t0 > 3 { break; } }
    check(ok, "a read during which the clock passed an expiry gives an answer that is right at no instant of the read");
    reach(1);
}
/// Bookkeeping of expiring keys. params: ops, keys, clock
pub fn purge() {
    let (n, nk, clk) = (param(0) as usize, param(1) as usize, param(2) as usize);
    init_clock();
    let keys: Vec<String> = (0..nk).map(|i| ["a", "b", "c", "d"][i].to_string()).collect();
    let mut w = World::new();
    for i in 0..n {
        if clk == 1 && i > 0 { tick(vsym::u32() as u64); }
        let k = keys[if i == 0 { 0 } else { choose(nk.min(i + 1)) }].clone();
        let s = match choose(7) { 0 => S::Set(k, V::Int(i as i64), None), 1 => S::Set(k, V::Int(i as i64), Some(secs32())), 2 => S::Del(k), 3 => S::SetLife(k, None), 4 => S::SetLife(k, Some(secs32())), 5 => S::TrySet(k, V::Int(i as i64), Some(secs32())), _ => { let l0 = w.it.storage.len(); purge_step(&mut w); S::Null } };
        w.run(&s, "a statement's response differs from the reference map");
    }
    if clk == 1 { tick(vsym::u32() as u64); }
    let live = |w: &World| { let mut n = 0; for e in &w.m.e { if !dead(e.x) { n += 1; } } n };
    purge_step(&mut w);
    w.audit_values(&keys, "removing expired entries changed what a client can see");
    // when every lifetime has ended, as many steps as there are keys remove every trace of them
    tick(1 << 33);
    for _ in 0..nk { purge_step(&mut w); }
    check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "expiring keys are still tracked after all of them expired and were removed");
    check(w.it.storage.len().unwrap_or(99) == live(&w), "expired entries still occupy the store after enough removal steps");
    w.audit_values(&keys, "the state after removing all expired entries differs from the reference map");
    for k in &keys { w.run(&S::Set(k.clone(), V::Int(7), Some(5)), "set fails after expired entries were removed"); w.run(&S::Del(k.clone()), "del fails after expired entries were removed"); }
    check(w.it.storage.expiring_keys_count().unwrap_or(99) == 0, "deleted keys are still tracked as expiring");
    reach(1);
}
/// One removal step: at most one entry goes, it was expired, and the count is what it reports.
fn purge_step(w: &mut World) {
    let l0 = w.it.storage.len().unwrap_or(99);
    let r = w.exec(&S::Expire); tr_resp(&r);
    let l1 = w.it.storage.len().unwrap_or(99);
    match r { Ok(R::Size(n)) => { check(n <= 1, "one removal step reports more than one entry"); check(l1 + n == l0, "a removal step reports a different number of entries than it removed"); if n == 1 { reach(3) } else { reach(2) } } Err(_) => { fail("a removal step fails") } _ => fail("a removal step gives an unexpected kind of response") }
}
/// Vectors are sequences. params: ops, initial length, element type
pub fn vectors() {
    let (n, len, c) = (param(0) as usize, param(1) as usize, param(2) as usize);
    init_clock();
    let c = if c < 4 { cts(c) } else { cts(choose(4)) }; let k = "k".to_string();
    let mut w = World::new();
    w.run(&S::Set(k.clone(), vector(c, len), lasting()), "set refused a vector");
    for _ in 0..n {
        let idx = index();
        let s = match choose(5) { 0 => S::VPush(k.clone(), elem(c)), 1 => S::VPop(k.clone()), 2 => S::VSet(k.clone(), idx, elem(c)), 3 => S::VGet(k.clone(), idx), _ => S::VLen(k.clone()) };
        w.run(&s, "a vector statement's response differs from the reference sequence");
    }
    w.run(&S::Get(k.clone()), "a vector's contents differ from the reference sequence");
    w.run(&S::VLen(k.clone()), "a vector's length differs from the reference sequence");
    reach(1);
}
/// Maps are finite maps. params: ops, initial size, key type, element type, key length
pub fn maps() {
    let (n, len, t, c) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
    init_clock(); unsafe { vsym::HASH_REV = param(4) == 1; }
    let t = match t { 0 => KT::Int, 1 => KT::Str, _ => if choose(2) == 0 { KT::Int } else { KT::Str } }; let c = if c < 4 { cts(c) } else { cts(choose(4)) }; let k = "k".to_string();
    let mut w = World::new();
    w.run(&S::Set(k.clone(), map(t, c, len), lasting()), "set refused a map");
    let key = || match t { KT::Int => V::Int(int()), KT::Str => V::Str(ascii(if param(4) == 2 { choose(3) } else { 1 })) };
    let mut used = vec![];
    for _ in 0..n {
        let a = key(); used.push(a.clone());
        let s = match choose(5) { 0 => S::MSet(k.clone(), a, elem(c)), 1 => S::MDel(k.clone(), a), 2 => S::MGet(k.clone(), a), 3 => S::MEx(k.clone(), a), _ => S::MLen(k.clone()) };
        w.run(&s, "a map statement's response differs from the reference map");
    }
    w.run(&S::Get(k.clone()), "a map's contents differ from the reference map");
    for a in used { w.run(&S::MGet(k.clone(), a), "a map entry differs from the reference map"); }
    w.run(&S::MLen(k.clone()), "a map's size differs from the reference map");
    reach(1);
}
/// Types: any stored value, any statement that gives it a value of any kind. params: statements, full values
pub fn types() {
    let (n, full) = (param(0) as usize, param(1) == 1);
    init_clock();
    let k = "k".to_string(); let mut w = World::new();
    let v = any_value(full); w.run(&S::Set(k.clone(), v, lasting()), "set refused a valid value");
    for _ in 0..n {
        let idx = index();
        let s = match choose(11) { 0 => S::VPush(k.clone(), any_value(false)), 1 => S::VSet(k.clone(), idx, any_value(false)), 2 => S::MSet(k.clone(), any_value(false), few(choose(4))), 3 => S::MSet(k.clone(), few(choose(2)), any_value(false)), 4 => S::MGet(k.clone(), any_value(false)), 5 => S::MEx(k.clone(), any_value(false)), 6 => S::MDel(k.clone(), any_value(false)), 7 => S::VPop(k.clone()), 8 => S::VGet(k.clone(), idx), 9 => S::VLen(k.clone()), _ => S::MLen(k.clone()) };
        w.run(&s, "a statement given a value of some type is answered wrongly");
        w.run(&S::Type(k.clone()), "a key's type differs from the reference model");
    }
    w.run(&S::Get(k.clone()), "a stored value differs from the reference model");
    reach(1);
}
/// Lifetimes through every statement that keeps or replaces them. params: statements, lifetimes
pub fn lifetimes() {
    let (n, lm) = (param(0) as usize, param(1) as usize);
    init_clock_ns();
    let k = "k".to_string(); let mut w = World::new();
    start(&mut w, &k, [1, 3, 5][choose(3)], life(lm));
    for _ in 0..n {
        if param(8) == 1 { tick_ns() } else { tick(vsym::u32() as u64) }
        let s = match choose(8) { 0 => S::Upd(k.clone(), V::Int(1), life(lm)), 1 => S::Set(k.clone(), V::Int(2), life(lm)), 2 => S::SetLife(k.clone(), life(lm)), 3 => S::VPush(k.clone(), V::Int(3)), 4 => S::MSet(k.clone(), V::Int(4), V::Int(5)), 5 => S::VPop(k.clone()), 6 => S::TrySet(k.clone(), V::Int(6), life(lm)), _ => S::Get(k.clone()) };
        w.run(&s, "a statement's response differs from the reference model");
        w.run(&S::Life(k.clone()), "the remaining lifetime differs from the reference model");
    }
    reach(1);
}
pub fn level(i: usize) -> AuthorizationLevel { match i { 0 => AuthorizationLevel::Admin, 1 => AuthorizationLevel::Write, _ => AuthorizationLevel::Read } }
pub fn writes(s: &S) -> bool { match s { S::Set(..) | S::Upd(..) | S::Del(_) | S::SetLife(..) | S::TrySet(..) | S::VSet(..) | S::VPush(..) | S::VPop(_) | S::MSet(..) | S::MDel(..) => true, _ => false } }
/// Whole requests: authorisation first and for all statements, then in order up to the first failure.
/// params: statements, statement kinds (0 every kind; 1 a small set), start states
pub fn requests() {
    let (n, small, ns) = (param(0) as usize, param(1) as usize, param(2) as usize);
    init_clock();
    let k = "k".to_string(); let o = "o".to_string();
    let mut w = World::new(); start(&mut w, &k, choose(ns), lasting()); start(&mut w, &o, 3, lasting());
    let mut ss: Vec<S> = vec![];
    for _ in 0..n {
        let s = if small == 1 { match choose(8) { 0 => S::Get(k.clone()), 1 => S::Set(k.clone(), V::Int(int()), None), 2 => S::Upd(k.clone(), V::Int(int()), None), 3 => S::Del(k.clone()), 4 => S::VPush(o.clone(), V::Int(int())), 5 => S::VGet(o.clone(), index()), 6 => S::Shutdown, _ => S::TrySet(k.clone(), V::Int(int()), None) } }
            else { let i = choose(NSTMT + 2); if i == NSTMT { S::Shutdown } else if i == NSTMT + 1 { S::Null } else { stmt(i, &k, 1, 1, 0) } };
        ss.push(s);
    }
    let lv = choose(3); let auth = level(lv);
    let r = w.submit(&ss, auth);
    tr_resp(&r);
    let refused = ss.iter().any(|s| match s { S::Shutdown => lv != 0, s => writes(s) && lv == 2 });
    if refused {
        reach(2);
        check(match &r { Err(ServerError::AuthorizationError(_)) => true, _ => false }, "a request with a statement its user may not run is not refused with an authorisation error");
    } else {
        let mut want = Want::Null; let mut stop = false;
        for s in &ss { if stop { continue; } want = w.m.step(s); stop = match want { Want::KeyErr | Want::IndexErr | Want::TypeErr | Want::Err | Want::Down => true, _ => false }; if stop { reach(3); } }
        check(agree(&r, &want), "a request's response is not that of its last executed statement");
        reach(4);
    }
    w.audit(&[k, o], "after a request the state is not that of its statements in order up to the first failure");
    reach(1);
}
