//! LLVM textual IR reader.  Functions are decoded lazily, on first call.
use crate::expr::mask;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const OBJ_SHIFT: u32 = 24;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Fp(u32), Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Label, Meta, Opaque }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr => 8, Ty::Fp(w) => (*w as u64 / 8).next_power_of_two(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = b.next_power_of_two().min(16); (b + a - 1) / a * a }
            Ty::Ptr => 8, Ty::Fp(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (t.bits() as u64 * *n as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => { let mut o = 0; for t in f.iter() { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } if !*packed { let a = self.align(); o = (o + a - 1) / a * a; } o }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) | Ty::Fp(w) => *w, Ty::Ptr => 64, t => (t.size() * 8) as u32 } }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => { let mut o = 0; for (j, t) in f.iter().enumerate() { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } if j == i { return o; } o += t.size(); } o }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field {:?}", self) } }
    pub fn nfields(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) }
}

#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Rc<u128>), S(u32), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpExt, FpTrunc, FpToUi, FpToSi, UiToFp, SiToFp }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), R(Opnd), Asm }

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<(Opnd, Ty)>, pub ret: Ty, pub normal: Option<u32> }

#[derive(Debug)]
pub enum Inst {
    Alloca { d: u32, off: u64, size: u64 },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, p: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Bin { d: u32, op: Bin, ty: Ty, a: Opnd, b: Opnd },
    ICmp { d: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    FCmp { d: u32, p: FPred, ty: Ty, a: Opnd, b: Opnd },
    Cast { d: u32, op: Cast, from: Ty, to: Ty, v: Opnd },
    Select { d: u32, cty: Ty, c: Opnd, ty: Ty, a: Opnd, b: Opnd },
    Copy { d: u32, v: Opnd },
    FNeg { d: u32, ty: Ty, v: Opnd },
    Extract { d: u32, v: Opnd, idx: Vec<u32> },
    Insert { d: u32, ty: Ty, v: Opnd, e: Opnd, idx: Vec<u32> },
    ExtractEl { d: u32, ty: Ty, v: Opnd, i: Opnd },
    InsertEl { d: u32, ty: Ty, v: Opnd, e: Opnd, i: Opnd },
    Shuffle { d: u32, n: u32, a: Opnd, b: Opnd, ma: Vec<i32>, ty: Ty },
    Call { d: Option<u32>, c: Box<CallI> },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Rmw { d: u32, op: Rmw, ty: Ty, p: Opnd, v: Opnd },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, d: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opnd> },
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub name: String, pub nargs: u32, pub arg_regs: Vec<u32>, pub nregs: u32, pub frame_size: u64, pub blocks: Vec<Block>, pub idx: u32 }

pub struct FnDecl { pub name: String, pub body: Option<(usize, usize)>, pub parsed: RefCell<Option<Rc<Func>>>, pub hits: Cell<u64>, pub kind: Cell<u32> }
pub struct Global { pub name: String, pub constant: bool, pub tls: bool, pub ty: Ty, pub init: Option<(usize, usize)>, pub size: u64 }

pub struct Module {
    pub text: &'static [u8],
    pub lines: Vec<(u32, u32)>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<&'static str, u32>,
    pub aliases: HashMap<&'static str, (usize, usize)>,
    pub types: RefCell<HashMap<&'static str, Ty>>,
    pub type_lines: HashMap<&'static str, (usize, usize)>,
}

pub struct P<'m> { pub m: &'m Module, pub s: &'static [u8], pub i: usize, pub regs: Option<HashMap<&'static str, u32>> }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'m> P<'m> {
    pub fn new(m: &'m Module, s: &'static [u8]) -> P<'m> { P { m, s, i: 0, regs: None } }
    pub fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("IR parse: expected {:?} at ...{}", c as char, String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])); } }
    pub fn peek_word(&mut self) -> &'static str { self.ws(); let st = self.i; let mut j = st; while j < self.s.len() && is_id(self.s[j]) { j += 1; } unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) } }
    pub fn word(&mut self) -> &'static str { let w = self.peek_word(); self.i += w.len(); w }
    pub fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    /// name after a sigil, possibly quoted
    pub fn name(&mut self) -> &'static str {
        if self.s[self.i] == b'"' { let st = self.i + 1; let mut j = st; while self.s[j] != b'"' { j += 1; } self.i = j + 1; unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) } }
        else { let st = self.i; while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; } unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) } }
    }
    pub fn skip_group(&mut self) { // at '(' '[' '{' '<'
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => { d -= 1; }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
            if d == 0 { return; }
        }
    }
    pub fn num(&mut self) -> i128 { let w = self.word(); w.parse().unwrap_or_else(|_| panic!("num {:?}", w)) }
    pub fn try_ty(&mut self) -> Option<Ty> {
        let c = self.peek();
        let base = match c {
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.struct_body(true); self.expect(b'>'); t }
                else { let n = self.num() as u32; assert!(self.eat_word("x")); let t = self.ty(); self.expect(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            b'[' => { self.i += 1; let n = self.num() as u64; assert!(self.eat_word("x")); let t = self.ty(); self.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            b'{' => self.struct_body(false),
            b'%' => { self.i += 1; let n = self.name(); self.m.named_ty(n) }
            _ => {
                let w = self.peek_word();
                let t = match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Fp(32), "double" => Ty::Fp(64), "half" | "bfloat" => Ty::Fp(16), "fp128" | "x86_fp80" => Ty::Fp(128),
                    "label" => Ty::Label, "metadata" => Ty::Meta, "token" => Ty::Opaque, "opaque" => Ty::Opaque,
                    _ => { let b = w.as_bytes(); if b.len() > 1 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) { Ty::Int(w[1..].parse().unwrap()) } else { return None; } }
                };
                self.i += w.len();
                if t == Ty::Ptr && self.peek_word() == "addrspace" { self.word(); self.skip_group(); }
                t
            }
        };
        Some(base)
    }
    pub fn ty(&mut self) -> Ty { let st = self.i; self.try_ty().unwrap_or_else(|| panic!("type expected: {}", String::from_utf8_lossy(&self.s[st..(st + 80).min(self.s.len())]))) }
    fn struct_body(&mut self, packed: bool) -> Ty {
        self.expect(b'{');
        let mut v = vec![];
        if !self.eat(b'}') { loop { v.push(self.ty()); if self.eat(b',') { continue; } self.expect(b'}'); break; } }
        Ty::Struct(Rc::new(v), packed)
    }
    pub fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.peek() == b'=' { self.i += 1; self.expect(b'"'); while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            if c == b'#' { self.i += 1; self.word(); continue; }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() { return; }
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "c" | "asm" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "to" | "ptrtoaddr" | "mul" | "shl") { return; }
            let save = self.i;
            if self.try_ty().is_some() { self.i = save; return; }
            self.i += w.len();
            if self.peek() == b'(' { self.skip_group(); }
            else if w == "align" || w == "cc" { if self.peek().is_ascii_digit() { self.word(); } }
        }
    }
    pub fn typed(&mut self) -> (Ty, Opnd) { let t = self.ty(); let o = self.opnd(&t); (t, o) }
    pub fn label(&mut self, lab: &HashMap<&'static str, u32>) -> u32 { assert!(self.eat_word("label")); self.expect(b'%'); let n = self.name(); lab[n] }
    pub fn opnd(&mut self, t: &Ty) -> Opnd {
        if self.peek() == b'%' {
            self.i += 1; let n = self.name();
            let r = self.regs.as_mut().expect("reg outside function");
            let k = r.len() as u32; return Opnd::R(*r.entry(n).or_insert(k));
        }
        Opnd::K(self.konst(t))
    }
    pub fn zero(t: &Ty) -> Val {
        match t { Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)), Ty::Fp(128) => Val::W(Rc::new(0)), Ty::Int(_) | Ty::Ptr | Ty::Fp(_) => Val::C(0),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => Val::A(Rc::new((0..t.nfields()).map(|i| P::zero(&t.field(i))).collect())), _ => Val::C(0) }
    }
    pub fn konst(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let n = self.name(); return Val::C(self.m.addr_of(n)); }
            b'<' => { // vector or packed struct
                self.i += 1;
                if self.peek() == b'{' { let v = self.agg(b'{', b'}', t); self.expect(b'>'); return v; }
                self.i -= 1; return self.agg(b'<', b'>', t);
            }
            b'{' => return self.agg(b'{', b'}', t),
            b'[' => return self.agg(b'[', b']', t),
            _ => {}
        }
        let w = self.peek_word();
        match w {
            "true" => { self.word(); return Val::C(1) }
            "false" => { self.word(); return Val::C(0) }
            "null" | "none" | "undef" | "poison" | "zeroinitializer" => { self.word(); return P::zero(t); }
            "splat" => { self.word(); self.expect(b'('); let (_, v) = self.typed(); self.expect(b')'); let v = match v { Opnd::K(v) => v, _ => unreachable!() }; return Val::A(Rc::new(vec![v; t.nfields()])); }
            "getelementptr" => {
                self.word(); while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") { let x = self.word(); if x == "inrange" { self.ws(); self.skip_group(); } }
                self.expect(b'('); let ety = self.ty(); self.expect(b',');
                let (_, p) = self.typed(); let mut addr = kc(&p) as i64;
                let mut cur = ety; let mut first = true;
                while self.eat(b',') { self.eat_word("inrange"); let (it, o) = self.typed(); let k = sx(kc(&o), it.bits()); if first { addr += k * cur.size() as i64; first = false; } else { addr += match &cur { Ty::Struct(..) => cur.field_off(k as usize) as i64, _ => k * cur.field(0).size() as i64 }; cur = cur.field(if matches!(cur, Ty::Struct(..)) { k as usize } else { 0 }); } }
                self.expect(b')');
                return Val::C(addr as u64);
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                self.word(); while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                self.expect(b'('); let (_, v) = self.typed(); assert!(self.eat_word("to")); let tt = self.ty(); self.expect(b')');
                let k = kc(&v);
                // a 32-bit difference of two addresses (relative lookup table): objects are 2^24 apart here, so store object distance and offset; llvm.load.relative decodes it
                if w == "trunc" && tt.bits() == 32 { let (d, o) = (k as i64 >> 24, k & 0xff_ffff); assert!(o < 4096 && d.abs() < 1 << 19, "address difference"); return Val::C((d << 12) as u64 & 0xffff_ffff | o); }
                assert!(w != "trunc", "constant truncation"); return Val::C(if tt.bits() < 64 { k & mask(tt.bits()) as u64 } else { k });
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                self.word(); while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                self.expect(b'('); let (tt, a) = self.typed(); self.expect(b','); let (_, b) = self.typed(); self.expect(b')');
                let (a, b) = (kc(&a), kc(&b));
                let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), _ => a << b };
                return Val::C(r & mask(tt.bits()) as u64);
            }
            "blockaddress" => panic!("blockaddress"),
            "asm" => return Val::C(0),
            _ => {}
        }
        if c == b'c' && self.s[self.i + 1] == b'"' {
            self.i += 2; let mut v = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::C(b'\\' as u64)); self.i += 2; }
                else if self.s[self.i] == b'\\' { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); v.push(Val::C(u64::from_str_radix(h, 16).unwrap())); self.i += 3; }
                else { v.push(Val::C(self.s[self.i] as u64)); self.i += 1; }
            }
            self.i += 1;
            return Val::A(Rc::new(v));
        }
        // number (decimal int, hex float, decimal float)
        let st = self.i;
        while self.i < self.s.len() && (is_id(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
        let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        match t {
            Ty::Int(n) => {
                let v: u128 = if w.starts_with('-') { w.parse::<i128>().unwrap_or_else(|_| panic!("int {:?}", w)) as u128 } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?}", String::from_utf8_lossy(&self.s[st..(st + 60).min(self.s.len())]))) };
                let v = v & mask(*n);
                if *n > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) }
            }
            Ty::Fp(n) => {
                let (f64bits, direct) = if let Some(h) = w.strip_prefix("f0x") { (u64::from_str_radix(h, 16).unwrap(), true) }
                    else if w.starts_with("0x") { (u64::from_str_radix(w[2..].trim_start_matches(|c| c == 'K' || c == 'L' || c == 'H'), 16).unwrap_or(0), false) }
                    else if w == "inf" || w == "+inf" { (f64::INFINITY.to_bits(), false) } else if w == "-inf" { (f64::NEG_INFINITY.to_bits(), false) }
                    else if w.contains("nan") || w.contains("qnan") { (f64::NAN.to_bits(), false) }
                    else { (w.parse::<f64>().unwrap_or_else(|_| panic!("float {:?}", w)).to_bits(), false) };
                if direct { Val::C(f64bits) } else if *n == 32 { Val::C((f64::from_bits(f64bits) as f32).to_bits() as u64) } else { Val::C(f64bits) }
            }
            _ => panic!("constant {:?} of type {:?}: {}", w, t, String::from_utf8_lossy(&self.s[st.saturating_sub(100)..(st + 80).min(self.s.len())])),
        }
    }
    fn agg(&mut self, o: u8, c: u8, _t: &Ty) -> Val {
        self.expect(o);
        let mut v = vec![];
        if !self.eat(c) { loop { let (_, x) = self.typed(); v.push(match x { Opnd::K(v) => v, _ => panic!("reg in const agg") }); if self.eat(b',') { continue; } self.expect(c); break; } }
        Val::A(Rc::new(v))
    }
    fn flags(&mut self) { while matches!(self.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inrange") { self.word(); } }
}
fn kc(o: &Opnd) -> u64 { match o { Opnd::K(Val::C(c)) => *c, Opnd::K(Val::W(w)) => **w as u64, _ => panic!("const expected {:?}", o) } }
fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).unwrap_or_else(|e| { eprintln!("rsym: {}: {}", path, e); std::process::exit(72) }).into_boxed_slice());
        let mut lines = vec![];
        let mut st = 0usize;
        while st < text.len() { let e = memchr(text, st); lines.push((st as u32, e as u32)); st = e + 1; }
        let mut m = Module { text, lines, fns: vec![], fn_by_name: HashMap::new(), globals: vec![], glob_by_name: HashMap::new(), aliases: HashMap::new(), types: RefCell::new(HashMap::new()), type_lines: HashMap::new() };
        let mut gl: Vec<usize> = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let (s, e) = m.lines[i]; let l = &text[s as usize..e as usize];
            if l.is_empty() { i += 1; continue; }
            match l[0] {
                b'@' => gl.push(i),
                b'%' => { let mut p = P { m: &m, s: l, i: 1, regs: None }; let n = p.name(); p.expect(b'='); p.eat_word("type"); let o = s as usize + p.i; m.type_lines.insert(n, (o, e as usize)); }
                b'd' if l.starts_with(b"define ") || l.starts_with(b"declare ") => {
                    let def = l[2] == b'f';
                    let n = fname(&m, l);
                    let mut body = None;
                    if def { let st = i + 1; let mut j = st; while text[m.lines[j].0 as usize..m.lines[j].1 as usize] != *b"}" { j += 1; } body = Some((i, j)); i = j; }
                    let k = m.fns.len() as u32;
                    m.fns.push(FnDecl { name: n.to_string(), body, parsed: RefCell::new(None), hits: Cell::new(0), kind: Cell::new(0) });
                    m.fn_by_name.insert(n, k);
                }
                _ => {}
            }
            i += 1;
        }
        for li in gl {
            let (s, e) = m.lines[li]; let l = &text[s as usize..e as usize];
            let mut p = P { m: &m, s: l, i: 1, regs: None };
            let n = p.name(); p.expect(b'=');
            let mut tls = false; let mut ext = false;
            loop {
                let w = p.word();
                match w {
                    "global" | "constant" => {
                        let ty = p.ty();
                        let init = if ext || p.peek() == b',' || p.peek() == 0 { None } else { Some((s as usize + p.i, e as usize)) };
                        let size = ty.size();
                        let k = m.globals.len() as u32;
                        m.globals.push(Global { name: n.to_string(), constant: w == "constant", tls, ty, init, size });
                        m.glob_by_name.insert(n, k);
                        break;
                    }
                    "alias" => { let _ = p.ty(); p.expect(b','); let o = s as usize + p.i; m.aliases.insert(n, (o, e as usize)); break; }
                    "ifunc" => break,
                    "thread_local" => { tls = true; if p.peek() == b'(' { p.skip_group(); } }
                    "external" | "extern_weak" => ext = true,
                    "addrspace" => p.skip_group(),
                    "" => { eprintln!("rsym: global? {}", String::from_utf8_lossy(&l[..l.len().min(200)])); std::process::exit(72) }
                    _ => {}
                }
            }
        }
        m
    }
    pub fn line(&self, i: usize) -> &'static [u8] { let (s, e) = self.lines[i]; &self.text[s as usize..e as usize] }
    pub fn named_ty(&self, n: &'static str) -> Ty {
        if let Some(t) = self.types.borrow().get(n) { return t.clone(); }
        let (s, e) = self.type_lines[n];
        let mut p = P::new(self, &self.text[s..e]);
        let t = p.ty();
        self.types.borrow_mut().insert(n, t.clone());
        t
    }
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(&g) = self.glob_by_name.get(n) { return (g as u64 + 1) << OBJ_SHIFT; }
        if let Some(&f) = self.fn_by_name.get(n) { return FN_BASE + f as u64 * 16; }
        if let Some(&(s, e)) = self.aliases.get(n) { let mut p = P::new(self, &self.text[s..e]); let (_, o) = p.typed(); return kc(&o); }
        panic!("unknown symbol @{}", n)
    }
    pub fn global_init(&self, g: u32) -> Option<Vec<u8>> {
        let gl = &self.globals[g as usize];
        let (s, e) = gl.init?;
        let mut p = P::new(self, &self.text[s..e]);
        let v = p.konst(&gl.ty);
        let mut b = vec![0u8; gl.size as usize];
        ser(&v, &gl.ty, &mut b, 0);
        Some(b)
    }
    pub fn func(&self, i: u32) -> Rc<Func> {
        if let Some(f) = &*self.fns[i as usize].parsed.borrow() { return f.clone(); }
        let f = Rc::new(self.parse_fn(i));
        *self.fns[i as usize].parsed.borrow_mut() = Some(f.clone());
        f
    }
    fn parse_fn(&self, fi: u32) -> Func {
        let (l0, l1) = self.fns[fi as usize].body.expect("body");
        let head = self.line(l0);
        // arguments
        let mut p = P::new(self, head);
        p.regs = Some(HashMap::new());
        let at = find_at(head); p.i = at + 1; p.name(); p.expect(b'(');
        let mut arg_regs = vec![]; let mut unnamed = 0u32;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.i += 3; p.expect(b')'); break; }
                let _ = p.ty(); p.attrs();
                let r = p.regs.as_mut().unwrap(); let k = r.len() as u32;
                if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); if n.as_bytes()[0].is_ascii_digit() { unnamed += 1; } p.regs.as_mut().unwrap().insert(n, k); }
                else { let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str()); unnamed += 1; r.insert(n, k); }
                arg_regs.push(k);
                if p.eat(b',') { continue; }
                p.expect(b')'); break;
            }
        }
        let mut regs = p.regs.take().unwrap();
        // blocks
        let mut labels: HashMap<&'static str, u32> = HashMap::new();
        let mut ranges: Vec<(usize, usize)> = vec![];
        let mut i = l0 + 1;
        let mut cur: Option<usize> = None;
        while i < l1 {
            let l = self.line(i);
            if l.is_empty() { i += 1; continue; }
            if l[0] == b';' { i += 1; continue; }
            if l[0] != b' ' && l[0] != b'\t' && l[0] != b']' { // label
                if let Some(st) = cur { ranges.push((st, i)); }
                let mut q = P::new(self, l); let n = q.name();
                let k = labels.len() as u32; labels.insert(n, k);
                cur = Some(i + 1);
            } else if cur.is_none() {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                labels.insert(n, 0); cur = Some(i);
            }
            i += 1;
        }
        ranges.push((cur.unwrap(), l1));
        let mut blocks = vec![];
        let mut frame = 0u64;
        for (s, e) in ranges {
            let mut b = Block { phis: vec![], insts: vec![] };
            let mut i = s;
            while i < e {
                let l = self.line(i);
                let lt = trim(l);
                if lt.is_empty() || lt[0] == b'#' || lt[0] == b';' { i += 1; continue; }
                let start = self.lines[i].0 as usize;
                let mut j = i;
                // multi-line: switch, invoke, landingpad
                let body = if lt[0] == b'%' { match find(lt, b" = ") { Some(k) => &lt[k + 3..], None => lt } } else { lt };
                if body.starts_with(b"switch ") { while find(self.line(j), b"]").is_none() || (j == i && !ends_switch(self.line(j))) { j += 1; } }
                else if body.starts_with(b"invoke ") { while find(self.line(j), b"unwind label").is_none() { j += 1; } }
                else if body.starts_with(b"landingpad ") { while j + 1 < e && { let n = trim(self.line(j + 1)); n.starts_with(b"cleanup") || n.starts_with(b"catch") || n.starts_with(b"filter") } { j += 1; } }
                let end = self.lines[j].1 as usize;
                let mut p = P::new(self, &self.text[start..end]);
                p.regs = Some(std::mem::take(&mut regs));
                self.parse_inst(&mut p, &labels, &mut b, &mut frame);
                regs = p.regs.take().unwrap();
                i = j + 1;
            }
            if b.insts.is_empty() { b.insts.push(Inst::Unreachable); }
            blocks.push(b);
        }
        Func { name: self.fns[fi as usize].name.clone(), nargs: arg_regs.len() as u32, arg_regs, nregs: regs.len() as u32, frame_size: frame, blocks, idx: fi }
    }
    fn parse_inst(&self, p: &mut P, lab: &HashMap<&'static str, u32>, b: &mut Block, frame: &mut u64) {
        let mut d = None;
        if p.peek() == b'%' {
            p.i += 1; let n = p.name(); p.expect(b'=');
            let r = p.regs.as_mut().unwrap(); let k = r.len() as u32; d = Some(*r.entry(n).or_insert(k));
        }
        let dd = || d.unwrap();
        let st = p.i;
        let op = p.word();
        let inst = match op {
            "alloca" => {
                p.eat_word("inalloca"); let t = p.ty(); let mut n = 1;
                let mut al = t.align();
                while p.eat(b',') { if p.eat_word("align") { al = al.max(p.num() as u64); } else if p.peek() == b'!' { break; } else { let (_, o) = p.typed(); match o { Opnd::K(_) => n = kc(&o), _ => { b.insts.push(Inst::Unsupported("dynamic alloca".into())); return; } } } }
                *frame = (*frame + al - 1) / al * al; let off = *frame; let size = t.size() * n; *frame += size;
                Inst::Alloca { d: dd(), off, size }
            }
            "load" => { p.flags(); let ty = p.ty(); p.expect(b','); let (_, a) = p.typed(); Inst::Load { d: dd(), ty, p: a } }
            "store" => { p.flags(); let (ty, v) = p.typed(); p.expect(b','); let (_, a) = p.typed(); Inst::Store { ty, v, p: a } }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") { p.word(); }
                let ety = p.ty(); p.expect(b','); let (pt, a) = p.typed();
                if pt.is_agg() { b.insts.push(Inst::Unsupported("vector gep".into())); return; }
                let mut off = 0i64; let mut idx = vec![]; let mut cur = ety; let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, o) = p.typed();
                    if it.is_agg() { b.insts.push(Inst::Unsupported("vector gep".into())); return; }
                    let scale = if first { cur.size() as i64 } else {
                        match &cur {
                            Ty::Struct(..) => { let k = kc(&o) as usize; off += cur.field_off(k) as i64; let nx = cur.field(k); cur = nx; continue; }
                            _ => { let nx = cur.field(0); cur = nx; cur.size() as i64 }
                        }
                    };
                    first = false;
                    match &o { Opnd::K(_) => off += sx(kc(&o), it.bits()) * scale, _ => idx.push((o, it.bits(), scale)) }
                }
                Inst::Gep { d: dd(), p: a, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.flags(); let (ty, a) = p.typed(); p.expect(b','); let bb = p.opnd(&ty);
                let o = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                Inst::Bin { d: dd(), op: o, ty, a, b: bb }
            }
            "icmp" => {
                p.flags();
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let (ty, a) = p.typed(); p.expect(b','); let bb = p.opnd(&ty); Inst::ICmp { d: dd(), p: pr, ty, a, b: bb }
            }
            "fcmp" => {
                p.flags(); use FPred::*;
                let pr = match p.word() { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, "true" => True, x => panic!("fcmp {}", x) };
                let (ty, a) = p.typed(); p.expect(b','); let bb = p.opnd(&ty); Inst::FCmp { d: dd(), p: pr, ty, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                p.flags(); let (from, v) = p.typed(); assert!(p.eat_word("to")); let to = p.ty();
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::Bit, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    _ => { let (f, t) = (from.bits(), to.bits()); if f == t { Cast::Bit } else if f < t { Cast::ZExt } else { Cast::Trunc } } };
                Inst::Cast { d: dd(), op: c, from, to, v }
            }
            "select" => { p.flags(); let (cty, c) = p.typed(); p.expect(b','); let (ty, a) = p.typed(); p.expect(b','); let (_, bb) = p.typed(); Inst::Select { d: dd(), cty, c, ty, a, b: bb } }
            "phi" => {
                p.flags(); let t = p.ty(); let mut v = vec![];
                loop { p.expect(b'['); let o = p.opnd(&t); p.expect(b','); p.expect(b'%'); let n = p.name(); v.push((lab[n], o)); p.expect(b']'); if !p.eat(b',') { break; } if p.peek() == b'!' { break; } }
                b.phis.push((dd(), v)); return;
            }
            "br" => {
                if p.peek_word() == "label" { let t = p.label(lab); Inst::Br { t } }
                else { let (_, c) = p.typed(); p.expect(b','); let t = p.label(lab); p.expect(b','); let f = p.label(lab); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let (ty, v) = p.typed(); p.expect(b','); let df = p.label(lab); p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') { let (_, k) = p.typed(); p.expect(b','); let t = p.label(lab); cases.push((kc(&k), t)); }
                Inst::Switch { ty, v, d: df, cases }
            }
            "ret" => { let t = p.ty(); if t == Ty::Void { Inst::Ret { v: None } } else { let o = p.opnd(&t); Inst::Ret { v: Some(o) } } }
            "unreachable" => Inst::Unreachable,
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { p.word(); }
                p.flags(); p.attrs();
                let ret = p.ty();
                if p.peek() == b'(' { p.skip_group(); }
                let callee = match p.peek() {
                    b'@' => { p.i += 1; let n = p.name(); match self.fn_by_name.get(n) { Some(&f) => Callee::F(f), None => { let a = self.addr_of(n); Callee::R(Opnd::K(Val::C(a))) } } }
                    b'%' => Callee::R(p.opnd(&Ty::Ptr)),
                    _ => {
                        if p.peek_word() == "asm" {
                            p.word(); loop { let w = p.peek_word(); if w.is_empty() { break; } p.word(); }
                            let mut empty = false;
                            for k in 0..2 { p.expect(b'"'); let s0 = p.i; while p.s[p.i] != b'"' { p.i += 1; } if k == 0 { empty = p.i == s0; } p.i += 1; if k == 0 { p.expect(b','); } }
                            if !empty { b.insts.push(Inst::Unsupported(format!("asm {}", String::from_utf8_lossy(&p.s[st..p.s.len().min(st + 160)])))); return; }
                            Callee::Asm
                        } else { Callee::R(Opnd::K(p.konst(&Ty::Ptr))) }
                    }
                };
                p.expect(b'(');
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = p.ty();
                        if t == Ty::Meta { // skip the metadata operand
                            let mut dep = 0; loop { match p.s[p.i] { b'(' | b'{' => dep += 1, b')' if dep == 0 => break, b')' | b'}' => dep -= 1, b',' if dep == 0 => break, b'"' => { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } _ => {} } p.i += 1; }
                            args.push((Opnd::K(Val::C(0)), Ty::Int(64)));
                        } else { p.attrs(); let o = p.opnd(&t); args.push((o, t)); }
                        if p.eat(b',') { continue; }
                        p.expect(b')'); break;
                    }
                }
                let mut normal = None;
                if op == "invoke" { while p.peek_word() != "to" { let w = p.word(); if w.is_empty() { if p.peek() == b'[' || p.peek() == b'(' { p.skip_group(); } else { p.i += 1; } } } p.word(); normal = Some(p.label(lab)); }
                Inst::Call { d: if ret == Ty::Void { None } else { d }, c: Box::new(CallI { callee, args, ret, normal }) }
            }
            "extractvalue" => { let (_, v) = p.typed(); let mut idx = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.num() as u32); } Inst::Extract { d: dd(), v, idx } }
            "insertvalue" => { let (ty, v) = p.typed(); p.expect(b','); let (_, e) = p.typed(); let mut idx = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.num() as u32); } Inst::Insert { d: dd(), ty, v, e, idx } }
            "extractelement" => { let (ty, v) = p.typed(); p.expect(b','); let (_, i) = p.typed(); Inst::ExtractEl { d: dd(), ty, v, i } }
            "insertelement" => { let (ty, v) = p.typed(); p.expect(b','); let (_, e) = p.typed(); p.expect(b','); let (_, i) = p.typed(); Inst::InsertEl { d: dd(), ty, v, e, i } }
            "shufflevector" => {
                let (ty, a) = p.typed(); p.expect(b','); let (_, bb) = p.typed(); p.expect(b','); let mt = p.ty();
                let n = mt.nfields() as u32;
                let ma = if matches!(p.peek_word(), "poison" | "undef" | "zeroinitializer") { vec![0; n as usize] } else { match p.konst(&mt) { Val::A(v) => v.iter().map(|x| match x { Val::C(c) => *c as i32, _ => 0 }).collect(), _ => vec![] } };
                Inst::Shuffle { d: dd(), n: match &ty { Ty::Vec(n, _) => *n, _ => 0 }, a, b: bb, ma, ty }
            }
            "fence" => Inst::Nop,
            "freeze" => { let (_, v) = p.typed(); Inst::Copy { d: dd(), v } }
            "fneg" => { p.flags(); let (ty, v) = p.typed(); Inst::FNeg { d: dd(), ty, v } }
            "cmpxchg" => { p.flags(); let (_, a) = p.typed(); p.expect(b','); let (ty, c) = p.typed(); p.expect(b','); let (_, n) = p.typed(); Inst::CmpXchg { d: dd(), ty, p: a, c, n } }
            "atomicrmw" => {
                p.flags();
                let o = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => panic!("atomicrmw {}", x) };
                let (_, a) = p.typed(); p.expect(b','); let (ty, v) = p.typed(); Inst::Rmw { d: dd(), op: o, ty, p: a, v }
            }
            "landingpad" | "resume" | "cleanupret" | "catchret" | "catchswitch" | "catchpad" | "cleanuppad" => Inst::Unsupported(op.to_string()),
            _ => Inst::Unsupported(String::from_utf8_lossy(&p.s[st..p.s.len().min(st + 120)]).to_string()),
        };
        b.insts.push(inst);
    }
}
fn ends_switch(l: &[u8]) -> bool { // a one-line switch: "... [ ... ]"
    let t = trim0(l); t.last() == Some(&b']') || find(t, b"], !").is_some() || find(t, b"] ").is_some()
}
fn trim(l: &'static [u8]) -> &'static [u8] { trim0(l) }
fn trim0(mut l: &[u8]) -> &[u8] { while !l.is_empty() && l[0] == b' ' { l = &l[1..]; } while !l.is_empty() && l[l.len() - 1] == b' ' { l = &l[..l.len() - 1]; } l }
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
fn memchr(t: &[u8], st: usize) -> usize { t[st..].iter().position(|&c| c == b'\n').map(|k| st + k).unwrap_or(t.len()) }
fn find_at(l: &[u8]) -> usize { // the '@' of the function name: first '@' outside quotes
    let mut i = 0; let mut q = false;
    while i < l.len() { if l[i] == b'"' { q = !q; } if l[i] == b'@' && !q { return i; } i += 1; }
    panic!("no @ in define")
}
fn fname(m: &Module, l: &'static [u8]) -> &'static str { let at = find_at(l); let mut p = P { m, s: l, i: at + 1, regs: None }; p.name() }
fn ser(v: &Val, t: &Ty, b: &mut [u8], o: usize) {
    match v {
        Val::C(c) => { let n = t.size().min(8) as usize; b[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]); }
        Val::W(w) => { let n = t.size().min(16) as usize; b[o..o + n].copy_from_slice(&w.to_le_bytes()[..n]); }
        Val::A(x) => { for (i, e) in x.iter().enumerate() { ser(e, &t.field(i), b, o + t.field_off(i) as usize); } }
        Val::S(_) => unreachable!(),
    }
}
