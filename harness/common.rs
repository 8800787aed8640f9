//! Helpers shared by the harnesses, and the reference model they compare the implementation with:
//! a finite map from keys to (value, expiry), vectors as sequences, maps as finite maps.
pub use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer, ValueType};
pub use server::auth::AuthorizationLevel; pub use server::error::ServerError;
pub use server::storage::hashmap_storage::HashMapStorage; pub use server::storage::*;
pub use vsym::{check, assume, choose, reach, trace, fail, param};
pub use InterpreterResponse as R;
pub use std::time::{Duration, SystemTime, UNIX_EPOCH};
pub const ADMIN: AuthorizationLevel = AuthorizationLevel::Admin;

#[derive(Clone, Copy, PartialEq)] pub enum CT { Bool, Str, Int, Float }
#[derive(Clone, Copy, PartialEq)] pub enum KT { Str, Int }
/// A value of the reference model.
#[derive(Clone)] pub enum V { Null, Bool(bool), Str(String), Int(i64), Float(u32), Seq(CT, Vec<V>), Map(KT, CT, Vec<(V, V)>) }
use V::*;
pub fn ct(c: CollectionType) -> CT { match c { CollectionType::Bool => CT::Bool, CollectionType::String => CT::Str, CollectionType::Int => CT::Int, CollectionType::Float => CT::Float } }
pub fn ctc(c: CT) -> CollectionType { match c { CT::Bool => CollectionType::Bool, CT::Str => CollectionType::String, CT::Int => CollectionType::Int, CT::Float => CollectionType::Float } }
pub fn kt(c: KeyType) -> KT { match c { KeyType::String => KT::Str, KeyType::Int => KT::Int } }
pub fn ktc(c: KT) -> KeyType { match c { KT::Str => KeyType::String, KT::Int => KeyType::Int } }
pub fn fits(c: CT, v: &V) -> bool { match (c, v) { (CT::Bool, Bool(_)) | (CT::Str, Str(_)) | (CT::Int, Int(_)) | (CT::Float, Float(_)) => true, _ => false } }
pub fn kfits(c: KT, v: &V) -> bool { match (c, v) { (KT::Str, Str(_)) | (KT::Int, Int(_)) => true, _ => false } }
pub fn sv(v: &V) -> StorageValue { match v {
    Null => StorageValue::Null, Bool(b) => StorageValue::Bool(*b), Str(s) => StorageValue::String(s.clone()), Int(i) => StorageValue::Int(*i), Float(f) => StorageValue::Float(f32::from_bits(*f)),
    Seq(c, xs) => { let mut r = StorageVector::new(ctc(*c)); for x in xs { if r.push(sv(x)).is_err() { fail("a vector refused an element of its own type") } } StorageValue::Vector(r) }
    Map(k, c, xs) => { let mut r = StorageMap::new(ktc(*k), ctc(*c)); for (a, b) in xs { if r.set(sv(a), sv(b)).is_err() { fail("a map refused an entry of its own types") } } StorageValue::Map(r) }
} }
/// Equality without branching on symbolic contents.
pub fn streq(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r }
pub fn veq(a: &V, b: &V) -> bool { match (a, b) { (Null, Null) => true, (Bool(x), Bool(y)) => x == y, (Str(x), Str(y)) => streq(x, y), (Int(x), Int(y)) => x == y, (Float(x), Float(y)) => x == y, _ => false } }
/// Does the stored value equal the reference value?
pub fn same(s: &StorageValue, v: &V) -> bool { match (s, v) {
    (StorageValue::Null, Null) => true, (StorageValue::Bool(x), Bool(y)) => x == y, (StorageValue::String(x), Str(y)) => streq(x, y), (StorageValue::Int(x), Int(y)) => x == y, (StorageValue::Float(x), Float(y)) => x.to_bits() == *y,
    (StorageValue::Vector(x), Seq(c, ys)) => { if ct(x.collection_type) != *c || x.len() != ys.len() { return false; } let mut r = true; for i in 0..ys.len() { match x.get(i) { Ok(e) => r &= same(e, &ys[i]), Err(_) => return false } } r & x.get(ys.len()).is_err() }
    (StorageValue::Map(x), Map(k, c, ys)) => { if kt(x.key_type) != *k || ct(x.collection_type) != *c || x.len() != ys.len() { return false; } let mut r = true; for (a, b) in ys { match x.get(&sv(a)) { Ok(e) => r &= same(e, b), Err(_) => return false } } r }
    _ => false,
} }
pub fn tr(v: &V) { match v { Null => trace(1), Bool(b) => trace(2 + *b as u64), Str(s) => for b in s.as_bytes() { trace(*b as u64) }, Int(i) => trace(*i as u64), Float(f) => trace(*f as u64), Seq(_, x) => { trace(x.len() as u64); for y in x { tr(y) } } Map(_, _, x) => { trace(x.len() as u64); for (a, b) in x { tr(a); tr(b) } } } }
/// Record a response, so that native replay can be compared with the symbolic run.
pub fn tr_resp(r: &Result<R, ServerError>) { match r {
    Err(e) => { trace(1000 + errk(e) as u64); } Ok(R::Null) => trace(1), Ok(R::Bool(b)) => trace(10 + *b as u64), Ok(R::Size(n)) => trace(100 + *n as u64), Ok(R::Value(v)) => { trace(2); tr_sv(v) } Ok(R::Expiration(e)) => { trace(3); if let Some(x) = e { trace(*x) } } Ok(R::Message(m)) => { trace(4); for b in m.as_bytes() { trace(*b as u64) } } Ok(R::Key(_)) => trace(5), Ok(R::ValueType(_)) => trace(6), Ok(R::ShuttingDown) => trace(7),
} }
fn tr_sv(v: &StorageValue) { match v { StorageValue::Null => trace(1), StorageValue::Bool(b) => trace(2 + *b as u64), StorageValue::String(s) => for b in s.as_bytes() { trace(*b as u64) }, StorageValue::Int(i) => trace(*i as u64), StorageValue::Float(f) => trace(f.to_bits() as u64), StorageValue::Vector(v) => trace(v.len() as u64), StorageValue::Map(m) => trace(m.len() as u64) } }

pub fn errk(e: &ServerError) -> u8 { match e { ServerError::KeyError(_) => 1, ServerError::NetworkError(_) => 2, ServerError::WriteError(_) => 3, ServerError::TokenizationError(_) => 4, ServerError::ParseError(_) => 5, ServerError::IndexError(_) => 6, ServerError::TypeError(_) => 7, ServerError::InternalError(_) => 8, ServerError::AuthorizationError(_) => 9, ServerError::AuthenticationError(_) => 10, ServerError::RequestError(_) => 11 } }

/// Unchecked symbolic strings: each byte is an arbitrary ASCII character.
pub fn ascii(n: usize) -> String { let mut v = vec![0u8; n]; vsym::fill(&mut v); for b in &mut v { *b = if text() { b'a' + (*b & 15) } else { *b & 0x7f }; } unsafe { String::from_utf8_unchecked(v) } }
/// Are statements given as text? Then symbolic values are small ones, so that they are spelled in one way.
pub fn text() -> bool { param(9) == 1 }
pub fn int() -> i64 { if text() { (vsym::u8() & 7) as i64 } else { vsym::i64() } }
pub fn flt() -> u32 { if text() { [1.5f32, -2.25, 100.0][choose(3)].to_bits() } else { vsym::u32() } }
pub fn index() -> usize { if text() { match choose(4) { 0 | 1 => (vsym::u8() & 3) as usize, 2 => 1 << 32, _ => i64::MAX as usize } } else { vsym::u64() as usize } }
/// A lifetime in seconds.
pub fn secs32() -> u64 { if text() { if choose(3) == 0 { (1 << 32) + 3 } else { (vsym::u8() & 7) as u64 } } else { vsym::u32() as u64 } }
fn spell_int(n: i64, t: &mut String) { if n >= 0 && n < 10 { t.push((b'0' + n as u8) as char) } else { t.push_str(&format!("{}", n)) } }
/// A value as a client writes it; false if there is no way to.
pub fn spell_value(v: &V, t: &mut String) -> bool { match v {
    Null => false, Bool(b) => { t.push_str(if *b { "true" } else { "false" }); true } Int(n) => { spell_int(*n, t); true } Str(s) => { t.push('"'); t.push_str(s); t.push('"'); true } Float(f) => { t.push_str(&format!("{:?}", f32::from_bits(*f))); true }
    Seq(c, v) => { t.push_str(tname(*c)); t.push_str(" ["); for (i, x) in v.iter().enumerate() { if i > 0 { t.push(',') } if !spell_value(x, t) { return false } } t.push(']'); true }
    Map(k, c, v) => { t.push_str(tname(if *k == KT::Int { CT::Int } else { CT::Str })); t.push(' '); t.push_str(tname(*c)); t.push_str(" {"); for (i, (a, b)) in v.iter().enumerate() { if i > 0 { t.push_str(", ") } if !spell_value(a, t) { return false } t.push(':'); if !spell_value(b, t) { return false } } t.push('}'); true }
} }
fn tname(c: CT) -> &'static str { match c { CT::Int => "int", CT::Str => "str", CT::Bool => "bool", CT::Float => "float" } }
/// A statement as a client writes it.
pub fn spell(s: &S, t: &mut String) -> bool {
    fn put(t: &mut String, c: &str, k: &str) { t.push_str(c); t.push(' '); t.push_str(k) }
    fn one(v: &V, t: &mut String) -> bool { t.push(' '); match v { Seq(..) | Map(..) => false, v => spell_value(v, t) } }
    fn keyed(v: &V, t: &mut String) -> bool { match v { Int(_) | Str(_) => one(v, t), _ => false } }
    fn num(n: u64, t: &mut String) -> bool { t.push(' '); spell_int(n as i64, t); n as i64 >= 0 }
    fn life(v: &V, l: &Option<u64>, t: &mut String) -> bool { match v { Null => l.is_none(), v => { t.push(' '); spell_value(v, t) && match l { Some(n) => num(*n, t), None => true } } } }
    match s {
        S::Get(k) => { put(t, "get", k); true } S::TryGet(k) => { put(t, "try_get", k); true } S::Ex(k) => { put(t, "ex", k); true } S::Del(k) => { put(t, "del", k); true } S::Type(k) => { put(t, "type", k); true } S::VLen(k) => { put(t, "vlen", k); true } S::VPop(k) => { put(t, "vpop", k); true } S::MLen(k) => { put(t, "mlen", k); true }
        S::Set(k, v, l) => { put(t, "set", k); life(v, l, t) } S::TrySet(k, v, l) => { put(t, "try_set", k); life(v, l, t) } S::Upd(k, v, l) => { put(t, "upd", k); life(v, l, t) }
        S::VGet(k, i) => { put(t, "vget", k); num(*i as u64, t) } S::VSet(k, i, v) => { put(t, "vset", k); num(*i as u64, t) && one(v, t) } S::VPush(k, v) => { put(t, "vpush", k); one(v, t) }
        S::MGet(k, a) => { put(t, "mget", k); keyed(a, t) } S::MEx(k, a) => { put(t, "mex", k); keyed(a, t) } S::MDel(k, a) => { put(t, "mdel", k); keyed(a, t) } S::MSet(k, a, v) => { put(t, "mset", k); keyed(a, t) && one(v, t) }
        S::Shutdown => { t.push_str("shutdown"); true } _ => false,
    }
}
pub fn scalar(kind: usize) -> V { match kind { 0 => Int(int()), 1 => Str(ascii(1)), 2 => Bool(if text() { choose(2) == 1 } else { vsym::bool() }), 3 => Float(flt()), _ => Null } }
pub fn init_clock() { let c = vsym::clock(); c.secs = (vsym::u64() & 0xff_ffff_ffff) as i64; c.nsec = 0; }
/// Nanoseconds within a second.
pub fn nanos() -> i64 { let n = vsym::bits(30) as i64; assume(n < 1_000_000_000); n }
pub fn init_clock_ns() { init_clock(); vsym::clock().nsec = nanos(); }
/// Any later instant (up to 2^32 s later).
pub fn tick_ns() { let (d, n) = (vsym::u32() as i64, nanos()); let c = vsym::clock(); assume(d > 0 || n >= c.nsec); c.secs += d; c.nsec = n; }
pub fn tick(d: u64) { vsym::clock().secs += d as i64; }
pub fn now() -> (i64, i64) { (vsym::clock().secs, vsym::clock().nsec) }
/// When an entry stops being visible: never, at an instant, or (a lifetime beyond the clock's range) never.
#[derive(Clone, Copy)] pub enum X { Never, At(i64, i64) }
pub fn dead(x: X) -> bool { match x { X::Never => false, X::At(s, n) => { let (a, b) = now(); a > s || (a == s && b > n) } } }
pub fn add_life(l: Option<u64>) -> X { match l { None => X::Never, Some(l) => { let (s, n) = now(); if l > (i64::MAX - s) as u64 { X::Never } else { X::At(s + l as i64, n) } } } }
pub fn too_long(l: Option<u64>) -> bool { match l { None => false, Some(l) => l > (i64::MAX - now().0) as u64 } }

#[derive(Clone)] pub struct Ent { pub k: String, pub v: V, pub x: X }
#[derive(Clone)] pub struct Ref { pub e: Vec<Ent> }
/// What the reference expects of a response.
pub enum Want { Val(V), Ok, Bool(bool), Size(usize), Exp(Option<(i64, i64)>), Type(V), Down, Null, Err, KeyErr, IndexErr, TypeErr, OkOrRefuse }
#[derive(Clone)] pub enum S { Get(String), Set(String, V, Option<u64>), Upd(String, V, Option<u64>), Ex(String), Del(String), Life(String), SetLife(String, Option<u64>), TryGet(String), TrySet(String, V, Option<u64>),
    VGet(String, usize), VSet(String, usize, V), VPush(String, V), VPop(String), VLen(String), MGet(String, V), MSet(String, V, V), MDel(String, V), MLen(String), MEx(String, V), Type(String), Expire, Shutdown, Null }
pub fn st(s: &S) -> Statement { match s {
    S::Get(k) => Statement::Get(k.clone()), S::Set(k, v, l) => Statement::Set(k.clone(), sv(v), *l), S::Upd(k, v, l) => Statement::Update(k.clone(), sv(v), *l), S::Ex(k) => Statement::Exists(k.clone()), S::Del(k) => Statement::Delete(k.clone()), S::Life(k) => Statement::GetLifetime(k.clone()), S::SetLife(k, l) => Statement::UpdateLifetime(k.clone(), *l), S::TryGet(k) => Statement::GetIfExists(k.clone()), S::TrySet(k, v, l) => Statement::SetIfNotExists(k.clone(), sv(v), *l),
    S::VGet(k, i) => Statement::VectorGet(k.clone(), *i), S::VSet(k, i, v) => Statement::VectorSet(k.clone(), *i, sv(v)), S::VPush(k, v) => Statement::VectorAppend(k.clone(), sv(v)), S::VPop(k) => Statement::VectorPop(k.clone()), S::VLen(k) => Statement::VectorLength(k.clone()),
    S::MGet(k, a) => Statement::MapGet(k.clone(), sv(a)), S::MSet(k, a, b) => Statement::MapSet(k.clone(), sv(a), sv(b)), S::MDel(k, a) => Statement::MapDelete(k.clone(), sv(a)), S::MLen(k) => Statement::MapLength(k.clone()), S::MEx(k, a) => Statement::MapExists(k.clone(), sv(a)), S::Type(k) => Statement::ValueType(k.clone()), S::Expire => Statement::ExpireKeys, S::Shutdown => Statement::Shutdown, S::Null => Statement::Null,
} }
impl Ref {
    pub fn new() -> Ref { Ref { e: Vec::new() } }
    pub fn find(&self, k: &str) -> Option<usize> { for i in 0..self.e.len() { if streq(&self.e[i].k, k) { return Some(i); } } None }
    /// The live entry under this key.
    pub fn live(&self, k: &str) -> Option<usize> { match self.find(k) { Some(i) if dead(self.e[i].x) => None, r => r } }
    pub fn put(&mut self, k: &str, v: V, x: X) { match self.find(k) { Some(i) => { self.e[i].v = v; self.e[i].x = x; } None => self.e.push(Ent { k: k.to_string(), v, x }) } }
    pub fn drop_key(&mut self, k: &str) { if let Some(i) = self.find(k) { self.e.swap_remove(i); } }
    /// Execute one statement; on an error the state is unchanged.
    pub fn step(&mut self, s: &S) -> Want { match s {
        S::Get(k) => match self.live(k) { Some(i) => Want::Val(self.e[i].v.clone()), None => Want::KeyErr },
        S::TryGet(k) => match self.live(k) { Some(i) => Want::Val(self.e[i].v.clone()), None => Want::Val(Null) },
        S::Ex(k) => Want::Bool(self.live(k).is_some()),
        S::Set(k, v, l) => { let t = too_long(*l); self.put(k, v.clone(), add_life(*l)); if t { Want::OkOrRefuse } else { Want::Ok } }
        S::Upd(k, v, l) => match self.live(k) { Some(_) => { let t = too_long(*l); self.put(k, v.clone(), add_life(*l)); if t { Want::OkOrRefuse } else { Want::Ok } } None => if too_long(*l) { Want::Err } else { Want::KeyErr } },
        S::TrySet(k, v, l) => match self.live(k) { Some(_) => if too_long(*l) { Want::OkOrRefuse } else { Want::Bool(false) }, None => { let t = too_long(*l); self.put(k, v.clone(), add_life(*l)); if t { Want::OkOrRefuse } else { Want::Bool(true) } } },
        S::Del(k) => { let r = self.live(k).is_some(); self.drop_key(k); Want::Bool(r) }
        S::Life(k) => match self.live(k) { Some(i) => Want::Exp(match self.e[i].x { X::Never => None, X::At(a, b) => Some((a, b)) }), None => Want::KeyErr },
        S::SetLife(k, l) => match self.live(k) { Some(i) => { let t = too_long(*l); self.e[i].x = add_life(*l); if t { Want::OkOrRefuse } else { Want::Ok } } None => if too_long(*l) { Want::Err } else { Want::KeyErr } },
        S::Type(k) => match self.live(k) { Some(i) => Want::Type(self.e[i].v.clone()), None => Want::KeyErr },
        S::VGet(k, i) => match self.vec(k) { Err(e) => e, Ok((_, v)) => if *i < v.len() { Want::Val(v[*i].clone()) } else { Want::IndexErr } },
        S::VSet(k, i, x) => match self.vec(k) { Err(e) => e, Ok((c, v)) => { let f = fits(c, x); if !f && *i >= v.len() { Want::Err } else if !f { Want::TypeErr } else if *i >= v.len() { Want::IndexErr } else { v[*i] = x.clone(); Want::Ok } } },
        S::VPush(k, x) => match self.vec(k) { Err(e) => e, Ok((c, v)) => if fits(c, x) { v.push(x.clone()); Want::Ok } else { Want::TypeErr } },
        S::VPop(k) => match self.vec(k) { Err(e) => e, Ok((_, v)) => Want::Val(v.pop().unwrap_or(Null)) },
        S::VLen(k) => match self.vec(k) { Err(e) => e, Ok((_, v)) => Want::Size(v.len()) },
        S::MGet(k, a) => match self.map(k) { Err(e) => e, Ok((t, _, m)) => if !kfits(t, a) { Want::TypeErr } else { match mfind(m, a) { Some(i) => Want::Val(m[i].1.clone()), None => Want::Err } } },
        S::MEx(k, a) => match self.map(k) { Err(e) => e, Ok((t, _, m)) => if !kfits(t, a) { Want::TypeErr } else { Want::Bool(mfind(m, a).is_some()) } },
        S::MLen(k) => match self.map(k) { Err(e) => e, Ok((_, _, m)) => Want::Size(m.len()) },
        S::MSet(k, a, b) => match self.map(k) { Err(e) => e, Ok((t, c, m)) => if !kfits(t, a) || !fits(c, b) { Want::TypeErr } else { match mfind(m, a) { Some(i) => m[i].1 = b.clone(), None => m.push((a.clone(), b.clone())) } Want::Ok } },
        S::MDel(k, a) => match self.map(k) { Err(e) => e, Ok((t, _, m)) => if !kfits(t, a) { Want::TypeErr } else { match mfind(m, a) { Some(i) => { m.swap_remove(i); Want::Bool(true) } None => Want::Bool(false) } } },
        S::Expire => Want::Size(usize::MAX), S::Shutdown => Want::Down, S::Null => Want::Null,
    } }
    fn vec(&mut self, k: &str) -> Result<(CT, &mut Vec<V>), Want> { match self.live(k) { None => Err(Want::KeyErr), Some(i) => match &mut self.e[i].v { Seq(c, v) => Ok((*c, v)), _ => Err(Want::TypeErr) } } }
    fn map(&mut self, k: &str) -> Result<(KT, CT, &mut Vec<(V, V)>), Want> { match self.live(k) { None => Err(Want::KeyErr), Some(i) => match &mut self.e[i].v { Map(t, c, v) => Ok((*t, *c, v)), _ => Err(Want::TypeErr) } } }
}
pub fn mfind(m: &[(V, V)], a: &V) -> Option<usize> { for i in 0..m.len() { if veq(&m[i].0, a) { return Some(i); } } None }
/// Compare a response with the reference's expectation.
pub fn agree(r: &Result<R, ServerError>, w: &Want) -> bool { match (r, w) {
    (Ok(R::Value(v)), Want::Val(x)) => same(v, x),
    (Ok(R::Message(_)), Want::Ok) => true,
    (Ok(R::Bool(b)), Want::Bool(c)) => *b == *c,
    (Ok(R::Size(n)), Want::Size(m)) => *m == usize::MAX || *n == *m,
    (Ok(R::Expiration(None)), Want::Exp(None)) => true,
    (Ok(R::Expiration(Some(d))), Want::Exp(Some((s, n)))) => { let (a, b) = now(); let late = (*n < b) as i64; (*s > a || (*s == a && *n >= b)) && *d == (s - a - late) as u64 }
    (Ok(R::ValueType(t)), Want::Type(v)) => match (t, v) { (ValueType::Null, Null) | (ValueType::Bool, Bool(_)) | (ValueType::Int, Int(_)) | (ValueType::Float, Float(_)) | (ValueType::String, Str(_)) => true, (ValueType::Vector(c), Seq(d, _)) => ct(*c) == *d, (ValueType::Map(k, c), Map(l, d, _)) => kt(*k) == *l && ct(*c) == *d, _ => false },
    (Ok(R::ShuttingDown), Want::Down) => true,
    (Ok(R::Null), Want::Null) => true,
    (Ok(R::Message(_)), Want::OkOrRefuse) | (Ok(R::Bool(_)), Want::OkOrRefuse) | (Err(_), Want::OkOrRefuse) => true,
    (Err(_), Want::Err) => true,
    (Err(ServerError::KeyError(_)), Want::KeyErr) => true,
    (Err(ServerError::IndexError(_)), Want::IndexErr) => true,
    (Err(ServerError::TypeError(_)), Want::TypeErr) => true,
    _ => false,
} }
/// The implementation and the reference side by side.
pub struct World { pub it: Interpreter<HashMapStorage>, pub m: Ref }
impl World {
    pub fn new() -> World { World { it: Interpreter::new(HashMapStorage::new()), m: Ref::new() } }
    pub fn exec(&mut self, s: &S) -> Result<R, ServerError> { self.submit(std::slice::from_ref(s), ADMIN) }
    /// One request, given as statements or (see `text`) as their text.
    pub fn submit(&mut self, ss: &[S], authorization: AuthorizationLevel) -> Result<R, ServerError> {
        let mut statements: Vec<Statement> = ss.iter().map(st).collect();
        if text() { let mut t = String::new(); let mut all = true; for (i, s) in ss.iter().enumerate() { if i > 0 { t.push_str(["; ", ";", " ;\n"][i % 3]) } all &= spell(s, &mut t) } if all { vsym::debug(&t); reach(91); statements = Parser::new(Tokenizer::new(&t).tokenize()?).parse()? } }
        self.it.interpret(InterpreterRequest { statements, authorization })
    }
    pub fn run(&mut self, s: &S, msg: &'static str) -> bool {
        let before = match s { S::Set(_, _, l) | S::Upd(_, _, l) | S::TrySet(_, _, l) | S::SetLife(_, l) if l.is_some() => Some(self.m.clone()), _ => None };
        let r = self.exec(s); tr_resp(&r);
        let w = self.m.step(s);
        check(agree(&r, &w), msg);
        if let (Want::OkOrRefuse, Err(_), Some(b)) = (&w, &r, before) { self.m = b; reach(90); }
        r.is_ok()
    }
    /// Every key's full observable state agrees with the reference.
    pub fn audit(&mut self, keys: &[String], msg: &'static str) { for k in keys { self.run(&S::Get(k.clone()), msg); self.run(&S::TryGet(k.clone()), msg); self.run(&S::Ex(k.clone()), msg); self.run(&S::Life(k.clone()), msg); self.run(&S::Type(k.clone()), msg); } }
    pub fn audit_values(&mut self, keys: &[String], msg: &'static str) { for k in keys { self.run(&S::Get(k.clone()), msg); } }
}
