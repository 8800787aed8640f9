//! The command language: tokenizer and parser (C10-C13).
use crate::common::*;
use crate::kv;
use server::analysis::{AnnotatedToken, Token};

pub fn parse(s: &str) -> Result<Vec<Statement>, ServerError> { let t = Tokenizer::new(s).tokenize()?; Parser::new(t).parse() }
/// Unchecked: does the parsed statement equal the reference statement?
pub fn eqst(a: &Statement, b: &S) -> bool { match (a, b) {
    (Statement::Get(k), S::Get(l)) | (Statement::Exists(k), S::Ex(l)) | (Statement::Delete(k), S::Del(l)) | (Statement::GetIfExists(k), S::TryGet(l)) | (Statement::VectorPop(k), S::VPop(l)) | (Statement::VectorLength(k), S::VLen(l)) | (Statement::MapLength(k), S::MLen(l)) | (Statement::ValueType(k), S::Type(l)) => streq(k, l),
    (Statement::Set(k, v, x), S::Set(l, w, y)) | (Statement::Update(k, v, x), S::Upd(l, w, y)) | (Statement::SetIfNotExists(k, v, x), S::TrySet(l, w, y)) => streq(k, l) & same(v, w) & (*x == *y),
    (Statement::VectorGet(k, i), S::VGet(l, j)) => streq(k, l) & (*i == *j), (Statement::VectorSet(k, i, v), S::VSet(l, j, w)) => streq(k, l) & (*i == *j) & same(v, w), (Statement::VectorAppend(k, v), S::VPush(l, w)) => streq(k, l) & same(v, w),
    (Statement::MapGet(k, v), S::MGet(l, w)) | (Statement::MapDelete(k, v), S::MDel(l, w)) | (Statement::MapExists(k, v), S::MEx(l, w)) => streq(k, l) & same(v, w), (Statement::MapSet(k, a, v), S::MSet(l, b, w)) => streq(k, l) & same(a, b) & same(v, w),
    (Statement::Shutdown, S::Shutdown) => true,
    _ => false,
} }
pub fn agree_parse(r: &Result<Vec<Statement>, ServerError>, w: &Option<Vec<S>>, msg: &'static str) {
    match (r, w) { (Err(_), None) => { reach(2); trace(0) } (Ok(a), Some(b)) => { reach(3); trace(1 + a.len() as u64); let mut ok = a.len() == b.len(); if ok { for i in 0..a.len() { ok &= eqst(&a[i], &b[i]); } } check(ok, msg) } _ => fail(msg) }
}
fn white(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
/// Every character of a command is whitespace or belongs to exactly one token, in order.
fn lossless(s: &str) {
    let cs: Vec<char> = s.chars().collect();
    let mut at = 0;
    for t in Tokenizer::new(s) { match t { Err(_) => { reach(2); trace(9); return } Ok(t) => {
        let l: Vec<char> = t.lexeme.chars().collect();
        check(t.position >= at && l.len() > 0 && t.position + l.len() <= cs.len(), "a token lies outside the command or overlaps another one");
        let mut ok = true; let mut gap = true; for i in at..t.position { gap &= cs[i].is_whitespace(); }
        for i in 0..l.len() { ok &= cs[t.position + i] == l[i]; }
        check(gap, "a character between two tokens is not whitespace"); check(ok, "a token's text is not the text at its position");
        at = t.position + l.len(); trace(at as u64);
    } } }
    let mut gap = true; for i in at..cs.len() { gap &= cs[i].is_whitespace(); }
    check(gap, "characters after the last token are not whitespace"); reach(3);
}
/// Any text of n ASCII characters (param 1: 0 with nothing before; else after the i-th prefix). params: n, prefix, lossless
pub fn total() {
    let n = param(0) as usize; let p = param(1) as usize;
    let mut s = match p { 0 => String::new(), 1 => String::from("set k "), 2 => String::from("set k int "), 3 => String::from("set k str int {"), 4 => format!("{} k ", CMDS[choose(CMDS.len())]), 5 => format!("{} ", CMDS[choose(CMDS.len())]), 6 => String::from("mset k 1 "), 7 => String::from("set k int int {1:"), 8 => String::from("set k \""), 9 => String::from("set k str [\"a\","), _ => String::from("get k;") };
    s.push_str(&ascii(n));
    if param(2) == 1 { lossless(&s); }
    match parse(&s) { Ok(v) => { trace(v.len() as u64); reach(3) } Err(e) => { trace(100 + errk(&e) as u64); reach(2); check(match e { ServerError::TokenizationError(_) | ServerError::ParseError(_) | ServerError::TypeError(_) => true, _ => false }, "a malformed command is refused with an unexpected kind of error") } }
    reach(1);
}
pub const ODD: [char; 14] = ['é', 'Σ', 'İ', 'ß', '²', '٣', '½', '\u{a0}', '\u{3000}', '\u{85}', '\u{0}', '\u{1F600}', '\u{300}', '名'];
/// Texts over a mix of non-ASCII characters and symbolic ASCII characters. params: n, prefix?
pub fn total_odd() {
    let n = param(0) as usize;
    let mut s = match param(1) { 0 => String::new(), 1 => String::from("set k "), 2 => String::from("set k \""), _ => String::from("set k 1") };
    for _ in 0..n { let i = choose(ODD.len() + 1); if i < ODD.len() { s.push(ODD[i]) } else { s.push_str(&ascii(1)) } }
    lossless(&s);
    match parse(&s) { Ok(v) => { trace(v.len() as u64); reach(3) } Err(e) => { trace(100 + errk(&e) as u64); reach(2) } }
    reach(1);
}
pub const CMDS: [&str; 19] = ["get", "try_get", "ex", "del", "type", "vlen", "vpop", "mlen", "set", "try_set", "upd", "vget", "vpush", "vset", "mget", "mex", "mdel", "mset", "shutdown"];

// ---- literals ----
/// One of m consecutive digits starting at lo; every value, with an evident upper bound.
fn digit(lo: u8, m: u8) -> u8 { let x = vsym::u8(); lo + ((x as u16 * m as u16) >> 8) as u8 }
/// Integers: sign and n digits, every value, wherever a statement takes one. params: digits, sign, position
pub fn ints() {
    let n = param(0) as usize; let neg = param(1) == 1;
    let mut d = vec![0u8; n]; let mut fits = true;
    if n < 19 { for i in 0..n { d[i] = digit(0, 10); } } else {
        // split on where the number first differs from the largest magnitude
        let max: &[u8] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
        let z = n - 19; let at = choose(n + 1);
        for i in 0..n {
            let m = if i < z { 0 } else { max[i - z] - b'0' };
            if i < at { d[i] = m; } else if i > at { d[i] = digit(0, 10); }
            else if m > 0 && (m == 9 || choose(2) == 0) { d[i] = digit(0, m); } else if m < 9 { d[i] = digit(m + 1, 9 - m); fits = false; } else { assume(false); }
        }
    }
    let mut v: i64 = 0; for b in &mut d { v = v.wrapping_mul(10); v = if neg { v.wrapping_sub(*b as i64) } else { v.wrapping_add(*b as i64) }; *b += b'0'; }
    let k = "k".to_string(); let x = V::Int(v);
    let (head, tail, w) = match param(2) { 0 => ("set k ", "", S::Set(k, x, None)), 1 => ("vget k ", "", S::VGet(k, v as usize)), 2 => ("vset k ", " 1", S::VSet(k, v as usize, V::Int(1))), 3 => ("set k 1 ", "", S::Set(k, V::Int(1), Some(v as u64))),
        4 => ("mget k ", "", S::MGet(k, x)), 5 => ("set k int [1,", "]", S::Set(k, V::Seq(CT::Int, vec![V::Int(1), x]), None)), 6 => ("set k str int {\"a\":", "}", S::Set(k, V::Map(KT::Str, CT::Int, vec![(V::Str("a".to_string()), x)]), None)), _ => ("vpush k ", "", S::VPush(k, x)) };
    // an index or a lifetime is not negative
    if param(2) >= 1 && param(2) <= 3 && v < 0 { fits = false; }
    let mut s = String::from(head); if neg { s.push('-'); }
    s.push_str(unsafe { std::str::from_utf8_unchecked(&d) }); s.push_str(tail); s.push_str(["", " ", ";", " ;"][choose(4)]);
    match parse(&s) {
        Ok(r) => { check(fits, "an integer literal out of range is accepted"); check(r.len() == 1 && eqst(&r[0], &w), "an integer literal is stored as another value"); reach(3) }
        Err(_) => { check(!fits, "an integer literal in range is refused"); reach(2) }
    }
    reach(1);
}
/// Reference reading of a string literal's text after the opening quote: the value and the number of characters used.
fn ref_string(t: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut v = vec![]; let mut i = 0;
    loop {
        if i >= t.len() { return None; }
        if t[i] == b'"' { return Some((v, i + 1)); }
        if t[i] == b'\\' { if i + 1 >= t.len() { return None; } v.push(match t[i + 1] { b'\\' => b'\\', b'"' => b'"', b'r' => b'\r', b't' => b'\t', b'n' => b'\n', _ => return None }); i += 2; } else { v.push(t[i]); i += 1; }
    }
}
/// A string literal with any one character beyond ASCII, anywhere a string may stand. params: bytes of its UTF-8 form, what surrounds it
pub fn unis() {
    let n = param(0) as usize; let (lo, hi) = match n { 2 => (0x80u32, 0x7ff), 3 => (0x800, 0xffff), _ => (0x10000, 0x10ffff) };
    let cp = vsym::u32() & 0x1f_ffff; assume(cp >= lo && cp <= hi); assume(cp < 0xd800 || cp > 0xdfff);
    let mut b: Vec<u8> = vec![]; let tail = |i: u32| 0x80 | (cp >> (6 * i)) as u8 & 0x3f;
    match n { 2 => b.extend([0xc0 | (cp >> 6) as u8, tail(0)]), 3 => b.extend([0xe0 | (cp >> 12) as u8, tail(1), tail(0)]), _ => b.extend([0xf0 | (cp >> 18) as u8, tail(2), tail(1), tail(0)]) }
    let c = unsafe { String::from_utf8_unchecked(b) };
    let v = match param(1) { 0 => c, 1 => format!("x{}y", c), 2 => format!("{} ", c), _ => format!("é{}{}", c, c) }; let k = "k".to_string(); let x = || V::Str(v.clone());
    let (t, w) = match choose(6) { 0 => (format!("set k \"{}\"", v), S::Set(k, x(), None)), 1 => (format!("set k \"{}\" 5;", v), S::Set(k, x(), Some(5))), 2 => (format!("set k str [\"{}\"]", v), S::Set(k, V::Seq(CT::Str, vec![x()]), None)), 3 => (format!("mset k \"{}\" \"{}\"", v, v), S::MSet(k, x(), x())), 4 => (format!("set k str str {{\"{}\": \"{}\"}}", v, v), S::Set(k, V::Map(KT::Str, CT::Str, vec![(x(), x())]), None)), _ => (format!("vpush k \"{}\"", v), S::VPush(k, x())) };
    agree_parse(&parse(&t), &Some(vec![w]), "a string literal with a character beyond ASCII is stored as another string"); reach(1);
}
/// A string literal of any n ASCII characters after the quote. params: n, closed (append a quote), tail
pub fn strings() {
    let n = param(0) as usize; let t = ascii(n); let mut text = t.clone(); if param(1) == 1 { text.push('"'); }
    let ts = ["", " ", ";"][choose(3)]; text.push_str(ts);
    let s = format!("set k \"{}", text);
    let r = parse(&s);
    match ref_string(text.as_bytes()) {
        Some((v, used)) if used + ts.len() == text.len() => { reach(3); let v = unsafe { String::from_utf8_unchecked(v) }; match &r { Ok(r) => check(r.len() == 1 && eqst(&r[0], &S::Set("k".to_string(), V::Str(v), None)), "a string literal is stored as another text"), Err(_) => fail("a well-formed string literal is refused") } }
        Some(_) => { reach(4); }
        None => { reach(2); check(r.is_err(), "an unfinished string literal is accepted"); }
    }
    trace(r.is_ok() as u64); reach(1);
}
const WORDS: [&str; 29] = ["get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset", "vget", "vpop", "vpush", "vlen", "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown"];
/// Identifiers of n characters: kind 0 every ASCII spelling, 1 letters beyond ASCII in either case, digits and underscores among
/// them; as the key of two statements. params: length, kind
pub fn idents() {
    let n = param(0) as usize; let (mut a, mut l) = (String::new(), String::new());
    if param(1) == 0 {
        let mut v = vec![0u8; n]; vsym::fill(&mut v); let mut w = v.clone();
        for i in 0..n { let c = v[i] & 0x7f; let up = c >= b'A' && c <= b'Z'; let ok = up | (c >= b'a' && c <= b'z') | (c == b'_') | (i > 0 && c >= b'0' && c <= b'9'); assume(ok); v[i] = c; w[i] = c | ((up as u8) << 5); }
        a = unsafe { String::from_utf8_unchecked(v) }; l = unsafe { String::from_utf8_unchecked(w) };
        for k in WORDS { if k.len() == n { assume(!streq(&l, k)); } }
    } else {
        const P: [(char, char); 12] = [('\u{c9}', '\u{e9}'), ('\u{416}', '\u{436}'), ('\u{394}', '\u{3b4}'), ('\u{538}', '\u{568}'), ('\u{df}', '\u{df}'), ('\u{540d}', '\u{540d}'), ('\u{10400}', '\u{10428}'), ('\u{661}', '\u{661}'), ('A', 'a'), ('z', 'z'), ('_', '_'), ('7', '7')];
        for i in 0..n { let (x, y) = P[choose(if i == 0 { 7 } else { 12 })]; a.push(if choose(2) == 0 { x } else { y }); l.push(y); }
    }
    agree_parse(&parse(&format!("set {} 1;get {}", a, l)), &Some(vec![S::Set(l.clone(), V::Int(1), None), S::Get(l)]), "an identifier is not taken for the key it names");
    reach(1);
}
/// Floats: [-]d.d... with symbolic digits, read like the standard library reads the same text. params: digits before, after
pub fn floats() {
    let (a, b) = (param(0) as usize, param(1) as usize);
    let mut t = String::new(); if choose(2) == 1 { t.push('-'); }
    let dig = |n: usize, t: &mut String| { let mut d = vec![0u8; n]; vsym::fill(&mut d); for x in &mut d { *x &= 15; assume(*x < 10); *x += b'0'; } t.push_str(unsafe { std::str::from_utf8_unchecked(&d) }) };
    dig(a, &mut t); t.push('.'); dig(b, &mut t);
    let want: f32 = match t.parse() { Ok(x) => x, Err(_) => { fail("reference: not a float") } };
    let r = parse(&format!("set k {}", t));
    match &r { Ok(r) => check(r.len() == 1 && eqst(&r[0], &S::Set("k".to_string(), V::Float(want.to_bits()), None)), "a float literal is stored as another value"), Err(_) => fail("a float literal is refused") }
    reach(1);
}

// ---- commands ----
fn anycase(w: &str) -> String { let mut v = w.as_bytes().to_vec(); for b in &mut v { if *b >= b'a' && *b <= b'z' && vsym::bool() { *b -= 32; } } unsafe { String::from_utf8_unchecked(v) } }
/// The case of keyword letters as symbolic data: one path for all 2^n spellings.
fn symcase(w: &str) -> String { let mut v = w.as_bytes().to_vec(); for b in &mut v { if *b >= b'a' && *b <= b'z' { *b ^= (vsym::bool() as u8) << 5; } } unsafe { String::from_utf8_unchecked(v) } }
fn gap() -> String { let n = if param(2) == 1 { 1 + choose(2) } else { 1 }; let mut v = vec![0u8; n]; vsym::fill(&mut v); for b in &mut v { let c = *b & 7; assume(c < 6); *b = if c == 5 { b' ' } else { 9 + c }; } unsafe { String::from_utf8_unchecked(v) } }
/// An identifier of n characters: as written, and as stored (lower case).
fn ident(n: usize) -> (String, String) {
    let mut v = vec![0u8; n]; vsym::fill(&mut v); let mut l = v.clone();
    for i in 0..n { let c = v[i] & 0x7f; let up = c >= b'A' && c <= b'Z'; let ok = up | (c >= b'a' && c <= b'z') | (c == b'_') | (i > 0 && c >= b'0' && c <= b'9'); assume(ok); v[i] = c; l[i] = c | ((up as u8) << 5); }
    let (a, b) = unsafe { (String::from_utf8_unchecked(v), String::from_utf8_unchecked(l)) };
    for k in ["ex", "lt", "get", "set", "del", "upd", "mex", "int", "str", "vec", "map"] { if k.len() == n { assume(!streq(&b, k)); } }
    (a, b)
}
fn lit_int() -> (String, V) { let d = vsym::u8() & 15; assume(d < 10); (unsafe { String::from_utf8_unchecked(vec![d + b'0']) }, V::Int(d as i64)) }
fn lit_str() -> (String, V) { let c = ascii(1); let b = c.as_bytes()[0]; assume(b != b'"' && b != b'\\'); (format!("\"{}\"", c), V::Str(c)) }
fn lit_bool() -> (String, V) { let b = choose(2) == 1; (symcase(if b { "true" } else { "false" }), V::Bool(b)) }
fn lit_flt() -> (String, V) { ("-2.5".to_string(), V::Float((-2.5f32).to_bits())) }
fn scalar_lit(k: usize) -> (String, V) { match k { 0 => lit_int(), 1 => lit_str(), 2 => lit_bool(), _ => lit_flt() } }
fn tyname(c: CT) -> String { symcase(match c { CT::Int => "int", CT::Str => "str", CT::Bool => "bool", CT::Float => "float" }) }
fn lit_of(c: CT) -> (String, V) { match c { CT::Int => lit_int(), CT::Str => lit_str(), CT::Bool => lit_bool(), CT::Float => lit_flt() } }
/// Optional whitespace around punctuation.
fn og() -> &'static str { if param(2) == 1 { ["", " "][choose(2)] } else { "" } }
fn value_lit(which: usize, size: usize) -> (String, V) { match which {
    0..=3 => scalar_lit(which),
    4 => { let c = kv::cts(choose(4)); let mut t = format!("{}{}[", tyname(c), gap()); let mut xs = vec![]; for i in 0..size { if i > 0 { t.push_str(og()); t.push(','); } t.push_str(og()); let (a, b) = lit_of(c); t.push_str(&a); xs.push(b); } t.push_str(og()); t.push(']'); (t, V::Seq(c, xs)) }
    5 => { let kt = if choose(2) == 0 { KT::Int } else { KT::Str }; let c = kv::cts(choose(4)); let mut t = format!("{}{}{}{}{{", tyname(if kt == KT::Int { CT::Int } else { CT::Str }), gap(), tyname(c), gap()); let mut xs: Vec<(V, V)> = vec![];
        for i in 0..size { if i > 0 { t.push_str(og()); t.push(','); } t.push_str(og()); let (a, k) = match kt { KT::Int => lit_int(), KT::Str => lit_str() }; t.push_str(&a); t.push_str(og()); t.push(':'); t.push_str(og()); let (b, v) = lit_of(c); t.push_str(&b); match mfind(&xs, &k) { Some(i) => xs[i].1 = v, None => xs.push((k, v)) } }
        t.push_str(og()); t.push('}'); (t, V::Map(kt, c, xs)) }
    6 => { let c = kv::cts(choose(4)); (tyname(c), V::Seq(c, vec![])) }
    7 => { let kt = if choose(2) == 0 { KT::Int } else { KT::Str }; let c = kv::cts(choose(4)); (format!("{}{}{}", tyname(if kt == KT::Int { CT::Int } else { CT::Str }), gap(), tyname(c)), V::Map(kt, c, vec![])) }
    _ => (String::new(), V::Null),
} }
/// A well-formed statement: its text and its meaning. `big`: also collection literals.
fn command(big: bool, idn: usize) -> (String, S) {
    let i = choose(19); let mut t = symcase(CMDS[i]); if i == 18 { return (t, S::Shutdown); }
    let (a, k) = ident(idn); t.push_str(&gap()); t.push_str(&a);
    let s = match i {
        0 => S::Get(k), 1 => S::TryGet(k), 2 => S::Ex(k), 3 => S::Del(k), 4 => S::Type(k), 5 => S::VLen(k), 6 => S::VPop(k), 7 => S::MLen(k),
        8 | 9 | 10 => { let w = if big { choose(9) } else { choose(2) }; let (x, v) = value_lit(w, param(1) as usize); if w < 8 { t.push_str(&gap()); t.push_str(&x); }
            let mut l = None; if w != 6 && w < 8 && choose(2) == 1 { let (x, v) = lit_int(); t.push_str(&gap()); t.push_str(&x); if let V::Int(n) = v { l = Some(n as u64); } }
            match i { 8 => S::Set(k, v, l), 9 => S::TrySet(k, v, l), _ => S::Upd(k, v, l) } }
        11 => { let (x, v) = lit_int(); t.push_str(&gap()); t.push_str(&x); let V::Int(n) = v else { unreachable!() }; S::VGet(k, n as usize) }
        12 => { let (x, v) = scalar_lit(choose(4)); t.push_str(&gap()); t.push_str(&x); S::VPush(k, v) }
        13 => { let (x, v) = lit_int(); t.push_str(&gap()); t.push_str(&x); let V::Int(n) = v else { unreachable!() }; let (y, v) = scalar_lit(choose(4)); t.push_str(&gap()); t.push_str(&y); S::VSet(k, n as usize, v) }
        14 | 15 | 16 => { let (x, v) = scalar_lit(choose(2)); t.push_str(&gap()); t.push_str(&x); match i { 14 => S::MGet(k, v), 15 => S::MEx(k, v), _ => S::MDel(k, v) } }
        _ => { let (x, a) = scalar_lit(choose(2)); t.push_str(&gap()); t.push_str(&x); let (y, v) = scalar_lit(choose(4)); t.push_str(&gap()); t.push_str(&y); S::MSet(k, a, v) }
    };
    (t, s)
}
/// Well-formed requests parse to exactly their statements, whatever the spelling. params: statements, literal size, whitespace variants, identifier length
pub fn grammar() {
    let n = param(0) as usize; let mut text = String::new(); let mut want = vec![];
    if param(2) == 1 { text.push_str(["", " ", ";", "\n"][choose(4)]); }
    for i in 0..n {
        if i > 0 { text.push_str([";", "; ", " ;\n;"][if param(2) == 1 { choose(3) } else { choose(2) }]); }
        let (t, s) = command(n == 1, param(3) as usize); text.push_str(&t); want.push(s);
    }
    text.push_str(["", ";", " ", "; "][choose(4)]);
    vsym::debug(&text); agree_parse(&parse(&text), &Some(want), "a well-formed request is not parsed to its statements"); reach(1);
}

// ---- the grammar, token by token ----
#[derive(Clone, Copy, PartialEq)] enum K { Cmd(usize), Id, Int, Neg, Str, True, Flt, TInt, TStr, TBool, TFloat, LB, RB, LC, RC, Comma, Colon, Semi, Word }
fn classes(i: usize) -> K { use K::*; [Id, Int, Neg, Str, True, Flt, TInt, TStr, TFloat, LB, RB, LC, RC, Comma, Colon, Semi, Cmd(0), TBool, Word][i] }
struct P { t: Vec<(K, V)>, i: usize }
impl P {
    fn end(&self) -> bool { self.i >= self.t.len() } fn k(&self) -> Option<K> { if self.end() { None } else { Some(self.t[self.i].0) } }
    fn stmt_end(&self) -> bool { self.end() || self.k() == Some(K::Semi) }
    fn next(&mut self) -> Option<(K, V)> { if self.end() { None } else { self.i += 1; Some(self.t[self.i - 1].clone()) } }
    fn id(&mut self) -> Option<String> { match self.next()? { (K::Id, V::Str(s)) => Some(s), _ => None } }
    fn key(&mut self) -> Option<V> { match self.next()? { (K::Int | K::Neg | K::Str, v) => Some(v), _ => None } }
    fn scalar(&mut self) -> Option<V> { match self.next()? { (K::Int | K::Neg | K::Str | K::True | K::Flt, v) => Some(v), _ => None } }
    fn index(&mut self) -> Option<usize> { match self.next()? { (K::Int, V::Int(n)) => Some(n as usize), _ => None } }
    fn life(&mut self) -> Option<Option<u64>> { if self.stmt_end() { return Some(None); } match self.next()? { (K::Int, V::Int(n)) => Some(Some(n as u64)), _ => None } }
    fn ty(k: K) -> Option<CT> { Some(match k { K::TInt => CT::Int, K::TStr => CT::Str, K::TFloat => CT::Float, K::TBool => CT::Bool, _ => return None }) }
    fn value(&mut self) -> Option<V> {
        if self.stmt_end() { return Some(V::Null); }
        let Some(c) = P::ty(self.k()?) else { return self.scalar() }; self.i += 1;
        if self.stmt_end() { return Some(V::Seq(c, vec![])); }
        let k = self.k()?;
        if let Some(e) = P::ty(k) {
            self.i += 1; let kt = match c { CT::Int => KT::Int, CT::Str => KT::Str, _ => return None };
            if self.k() != Some(K::LC) { return Some(V::Map(kt, e, vec![])); }
            self.i += 1; let mut xs: Vec<(V, V)> = vec![];
            if self.k()? == K::RC { self.i += 1; return Some(V::Map(kt, e, xs)); }
            loop { let a = self.key()?; if !kfits(kt, &a) { return None; } if self.next()?.0 != K::Colon { return None; } let b = self.scalar()?; if !fits(e, &b) { return None; } match mfind(&xs, &a) { Some(i) => xs[i].1 = b, None => xs.push((a, b)) } match self.next()?.0 { K::RC => return Some(V::Map(kt, e, xs)), K::Comma => {} _ => return None } }
        }
        if k != K::LB { return None; }
        self.i += 1; let mut xs = vec![];
        if self.k()? == K::RB { self.i += 1; return Some(V::Seq(c, xs)); }
        loop { let b = self.scalar()?; if !fits(c, &b) { return None; } xs.push(b); match self.next()?.0 { K::RB => return Some(V::Seq(c, xs)), K::Comma => {} _ => return None } }
    }
    fn stmt(&mut self) -> Option<S> {
        let K::Cmd(i) = self.next()?.0 else { return None }; if i == 18 { return Some(S::Shutdown); }
        let k = self.id()?;
        Some(match i { 0 => S::Get(k), 1 => S::TryGet(k), 2 => S::Ex(k), 3 => S::Del(k), 4 => S::Type(k), 5 => S::VLen(k), 6 => S::VPop(k), 7 => S::MLen(k),
            8 | 9 | 10 => { let v = self.value()?; let l = self.life()?; match i { 8 => S::Set(k, v, l), 9 => S::TrySet(k, v, l), _ => S::Upd(k, v, l) } }
            11 => S::VGet(k, self.index()?), 12 => S::VPush(k, self.scalar()?), 13 => { let n = self.index()?; S::VSet(k, n, self.scalar()?) }
            14 => S::MGet(k, self.key()?), 15 => S::MEx(k, self.key()?), 16 => S::MDel(k, self.key()?), _ => { let a = self.key()?; S::MSet(k, a, self.scalar()?) } })
    }
    fn all(&mut self) -> Option<Vec<S>> { let mut v = vec![]; loop { while self.k() == Some(K::Semi) { self.i += 1; } if self.end() { return Some(v); } v.push(self.stmt()?); } }
}
/// The token's text and value, if there is only one.
fn word(k: K) -> (String, V) { match k { K::Cmd(i) => (CMDS[i].to_string(), V::Null), K::True => ("true".to_string(), V::Bool(true)), K::Flt => ("1.5".to_string(), V::Float(1.5f32.to_bits())),
            K::TInt => ("int".to_string(), V::Null), K::TStr => ("str".to_string(), V::Null), K::TBool => ("bool".to_string(), V::Null), K::TFloat => ("float".to_string(), V::Null), K::Word => (["none", "vec", "map", "lt"][choose(4)].to_string(), V::Null),
            K::LB => ("[".to_string(), V::Null), K::RB => ("]".to_string(), V::Null), K::LC => ("{".to_string(), V::Null), K::RC => ("}".to_string(), V::Null), K::Comma => (",".to_string(), V::Null), K::Colon => (":".to_string(), V::Null), K::Semi => (";".to_string(), V::Null), _ => unreachable!() } }
/// A text of these tokens: plain ones stand for fixed literals, the others for any.
fn render(toks: Vec<(K, bool)>) -> (String, P) {
    let mut text = String::new(); let mut p = P { t: vec![], i: 0 };
    for (j, (k, plain)) in toks.into_iter().enumerate() {
        let (t, v) = if plain { match k { K::Id => ("k".to_string(), V::Str("k".to_string())), K::Int => (format!("{}", j), V::Int(j as i64)), K::Neg => (format!("-{}", j), V::Int(-(j as i64))), K::Str => (format!("\"s{}\"", j), V::Str(format!("s{}", j))), k => word(k) } } else { match k { K::Id => { let c = vsym::u8() & 7; let s = unsafe { String::from_utf8_unchecked(vec![b'k' + c]) }; (s.clone(), V::Str(s)) }
            K::Int => lit_int(), K::Neg => { let (t, v) = lit_int(); let V::Int(n) = v else { unreachable!() }; assume(n > 0); (format!("-{}", t), V::Int(-n)) } K::Str => lit_str(), k => word(k) }  };
        text.push_str(&t); text.push(' '); p.t.push((k, v));
    }
    (text, p)
}
/// Every token sequence: start (params 0: command index, or 100 for every command, 200 for any token) then n free tokens.
/// params: start, free tokens, fixed head tokens after the command (bit mask of presets), classes
pub fn sequences() {
    let (c0, n, head, ncl) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
    let mut toks: Vec<K> = vec![];
    if c0 == 100 { toks.push(K::Cmd(choose(19))) } else if c0 < 100 { toks.push(K::Cmd(c0)) }
    match head { 1 => toks.push(K::Id), 2 => toks.extend([K::Id, K::TInt, K::LB]), 3 => toks.extend([K::Id, K::TStr, K::TInt, K::LC]), 4 => toks.extend([K::Id, K::TInt]), 5 => toks.extend([K::Id, K::TStr, K::TInt, K::LC, K::Str, K::Colon, K::Int]), 6 => toks.extend([K::Id, K::TInt, K::LB, K::Int]), 7 => toks.extend([K::Id, K::TInt, K::TStr]), 8 => toks.extend([K::Id, K::Semi]), _ => {} }
    for _ in 0..n { toks.push(classes(choose(ncl))); }
    let (text, mut p) = render(toks.into_iter().map(|k| (k, false)).collect());
    let want = p.all();
    agree_parse(&parse(&text), &want, "a sequence of tokens is parsed differently from the grammar"); reach(1);
}

/// C13: long well-formed requests in which one token is dropped, replaced or added, at any place. params: template, elements
pub fn edited() {
    use K::*; let n = param(1) as usize; let mut t: Vec<K> = vec![];
    let vec = |t: &mut Vec<K>, ty: K, e: K| { t.extend([ty, LB]); for i in 0..n { if i > 0 { t.push(Comma) } t.push(e) } t.push(RB) };
    let map = |t: &mut Vec<K>, kt: K, ty: K, a: K, e: K| { t.extend([kt, ty, LC]); for i in 0..n { if i > 0 { t.push(Comma) } t.extend([a, Colon, e]) } t.push(RC) };
    match param(0) {
        0 => { t.extend([Cmd(8), Id]); vec(&mut t, TInt, Int); t.push(Int) } 1 => { t.extend([Cmd(9), Id]); vec(&mut t, TStr, Str); t.push(Semi) } 2 => { t.extend([Cmd(10), Id]); vec(&mut t, TFloat, Flt); t.extend([Semi, Cmd(0), Id]) }
        3 => { t.extend([Cmd(8), Id]); map(&mut t, TInt, TStr, Int, Str); t.push(Int) } 4 => { t.extend([Cmd(9), Id]); map(&mut t, TStr, TInt, Str, Neg) } 5 => { t.extend([Cmd(8), Id]); map(&mut t, TStr, TBool, Str, True); t.extend([Semi, Cmd(1), Id, Semi]) }
        6 => for i in 0..n { t.extend([Cmd(13), Id, Int, Str, Semi]); if i % 2 == 1 { t.extend([Cmd(17), Id, Str, Flt, Semi]) } }
        7 => for i in 0..n { match i % 6 { 0 => t.extend([Cmd(8), Id, Int, Int]), 1 => t.extend([Cmd(3), Id]), 2 => t.extend([Cmd(11), Id, Int]), 3 => t.extend([Cmd(14), Id, Neg]), 4 => t.extend([Cmd(12), Id, Flt]), _ => t.extend([Cmd(18)]) } t.push(Semi) },
        _ => for i in 0..n { t.extend([Cmd(i % 8), Id]); if i + 1 < n { t.push(Semi) } }
    }
    let mut u: Vec<(K, bool)> = t.into_iter().map(|k| (k, true)).collect(); let at = choose(u.len());
    match choose(3) { 0 => { u.remove(at); } 1 => u[at] = (classes(choose(19)), false), _ => u.insert(at, (classes(choose(19)), false)) }
    let (text, mut p) = render(u); let want = p.all(); vsym::debug(&text);
    agree_parse(&parse(&text), &want, "a request with one token changed is parsed differently from the grammar"); reach(1);
}
