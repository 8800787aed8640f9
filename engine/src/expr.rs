//! Hash-consed bit-vector expression DAG with a local simplifier and evaluator.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite, Table,
    // floating point on bit patterns (b = format width)
    FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno, FToF, SiToF, UiToF, FToSi, FToUi,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Table { pub vals: Vec<u64>, pub w: u16 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, E, FxB>,
    pub support: Vec<Option<Rc<Vec<u32>>>>,
    pub tables: Vec<Rc<Table>>,
    pub table_map: HashMap<(u64, u64, u16), u32>,
    pub sym_w: Vec<u16>,
    pub ub: Vec<u128>, pub sr: Vec<(i128, i128)>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
}

#[derive(Default, Clone, Copy)]
pub struct FxB;
pub struct FxH(u64);
impl std::hash::BuildHasher for FxB { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s }
}

/// An assignment of concrete values to symbols (missing = 0).
pub type Model = HashMap<u32, u128, FxB>;

pub fn binop_const(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = sext(x, w); let sh = if y >= w as u128 { w - 1 } else { y as u32 }; ((s >> sh) as u128) & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128, Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }
}

pub fn f_of(bits: u128, w: u32) -> f64 { if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) } }
pub fn fop_const(op: Op, x: u128, y: u128, w: u32) -> u128 {
    macro_rules! fb { ($o:tt) => { if w == 32 { (f32::from_bits(x as u32) $o f32::from_bits(y as u32)).to_bits() as u128 } else { (f64::from_bits(x as u64) $o f64::from_bits(y as u64)).to_bits() as u128 } } }
    match op {
        Op::FAdd => fb!(+), Op::FSub => fb!(-), Op::FMul => fb!(*), Op::FDiv => fb!(/),
        Op::FOeq => (f_of(x, w) == f_of(y, w)) as u128,
        Op::FOlt => (f_of(x, w) < f_of(y, w)) as u128,
        Op::FOle => (f_of(x, w) <= f_of(y, w)) as u128,
        Op::FUno => (f_of(x, w).is_nan() || f_of(y, w).is_nan()) as u128,
        _ => unreachable!(),
    }
}
pub fn fcast_const(op: Op, x: u128, wf: u32, wt: u32) -> u128 {
    match op {
        Op::FToF => if wf == 32 && wt == 64 { (f32::from_bits(x as u32) as f64).to_bits() as u128 } else if wf == 64 && wt == 32 { (f64::from_bits(x as u64) as f32).to_bits() as u128 } else { x },
        Op::SiToF => { let s = sext(x, wf); if wt == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Op::UiToF => if wt == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        Op::FToSi => ((f_of(x, wf) as i128) as u128) & mask(wt),
        Op::FToUi => (f_of(x, wf) as u128) & mask(wt),
        _ => unreachable!(),
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx {
                nodes: vec![], map: HashMap::with_hasher(FxB), support: vec![], tables: vec![], table_map: HashMap::new(),
                sym_w: vec![], ub: vec![], sr: vec![], memo_gen: vec![], memo_val: vec![], gen: 0,
            }));
        }
        &mut *CTX
    }
}

impl Ctx {
    pub fn node(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn as_const(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let u = self.upper(&n); let (lo, hi) = self.signed(&n, u); self.sr.push((lo, hi));
        self.ub.push(if lo >= 0 && (hi as u128) < u { hi as u128 } else { u });
        self.nodes.push(n);
        self.support.push(None);
        self.map.insert(n, e);
        e
    }
    /// An upper bound on the node's unsigned value.
    fn upper(&self, n: &Node) -> u128 {
        let w = n.w as u32; let m = mask(w); let u = |e: E| self.ub[e as usize];
        let pow = |x: u128| if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
        match n.op {
            Op::Const => n.k, Op::ZExt => u(n.a), Op::And => u(n.a).min(u(n.b)), Op::Or | Op::Xor => pow(u(n.a) | u(n.b)).min(m), Op::Ite => u(n.b).max(u(n.c)),
            Op::Add if w < 127 => { let t = u(n.a) + u(n.b); if t <= m { t } else { m } }
            Op::Mul if w <= 64 => { let t = u(n.a) * u(n.b); if t <= m { t } else { m } }
            Op::UDiv => match self.as_const(n.b) { Some(k) if k > 0 => u(n.a) / k, _ => m },
            Op::URem => match self.as_const(n.b) { Some(k) if k > 0 => u(n.a).min(k - 1), _ => m },
            Op::Extract => if u(n.a) >> n.b <= m { u(n.a) >> n.b } else { m },
            Op::Concat => (u(n.a) << self.w(n.b)) | u(n.b),
            Op::LShr => u(n.a), Op::Table => self.tables[n.b as usize].vals.iter().copied().max().unwrap_or(0) as u128 & m,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => m,
        }
    }
    /// Bounds on the node's signed value (nodes up to 64 bits).
    fn signed(&self, n: &Node, u: u128) -> (i128, i128) {
        let w = n.w as u32; if w > 64 { return (i128::MIN, i128::MAX); }
        let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let r = |e: E| self.sr[e as usize];
        let (mut lo, mut hi) = match n.op {
            Op::Const => { let v = sext(n.k, w) as i128; (v, v) }
            Op::SExt => r(n.a),
            Op::Add => (r(n.a).0 + r(n.b).0, r(n.a).1 + r(n.b).1),
            Op::Sub => (r(n.a).0 - r(n.b).1, r(n.a).1 - r(n.b).0),
            Op::Mul => { let (a, b) = (r(n.a), r(n.b)); let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) }
            Op::Ite => (r(n.b).0.min(r(n.c).0), r(n.b).1.max(r(n.c).1)),
            _ => (mn, mx),
        };
        if lo < mn || hi > mx { lo = mn; hi = mx; }
        if u <= mx as u128 { lo = lo.max(0); hi = hi.min(u as i128); if n.op == Op::ZExt && self.w(n.a) <= 64 { let a = r(n.a); if a.0 >= 0 { lo = lo.max(a.0); hi = hi.min(a.1); } } }
        (lo, hi)
    }
    /// Bounds on the unsigned value.
    pub fn urange(&self, e: E) -> (u128, u128) { let (lo, hi) = self.sr[e as usize]; if self.w(e) <= 64 && lo >= 0 { (lo as u128, hi as u128) } else { (0, self.ub[e as usize]) } }
    /// Flatten a chain of additions (and, when `subs`, subtractions) into terms with coefficients; false if too long.
    fn flat(&self, e: E, k: i128, subs: bool, out: &mut Vec<(E, i128)>, c: &mut i128, fuel: &mut u32) -> bool {
        if *fuel == 0 { return false; } *fuel -= 1;
        let n = self.node(e);
        match n.op {
            Op::Const => { *c += k * n.k as i128; true }
            Op::Add => self.flat(n.a, k, subs, out, c, fuel) && self.flat(n.b, k, subs, out, c, fuel),
            Op::Sub if subs => self.flat(n.a, k, subs, out, c, fuel) && self.flat(n.b, -k, subs, out, c, fuel),
            _ => { if let Some(t) = out.iter_mut().find(|t| t.0 == e) { t.1 += k; } else { out.push((e, k)); } true }
        }
    }
    fn sum(&mut self, mut ts: Vec<E>, c: u128, w: u32) -> E {
        ts.sort_unstable(); let mut acc: Option<E> = None;
        for t in ts { acc = Some(match acc { None => t, Some(a) => self.bin(Op::Add, a, t) }); }
        let k = self.cst(c, w); match acc { None => k, Some(a) => self.bin(Op::Add, a, k) }
    }
    /// Cancel common terms of `a` and `b` (modulo 2^w): the two sides of an equality or a difference.
    fn cancel(&mut self, a: E, b: E, w: u32) -> Option<(E, E)> {
        if w > 64 { return None; }
        let lin = |s: &Ctx, e: E| matches!(s.node(e).op, Op::Add | Op::Sub);
        if !lin(self, a) && !lin(self, b) { return None; }
        let (mut v, mut c, mut fuel) = (vec![], 0i128, 24u32);
        if !self.flat(a, 1, true, &mut v, &mut c, &mut fuel) { return None; }
        let n0 = v.iter().filter(|t| t.1 != 0).count(); let mut v2 = vec![]; let mut c2 = 0;
        if !self.flat(b, 1, true, &mut v2, &mut c2, &mut fuel) { return None; }
        let n1 = v2.iter().filter(|t| t.1 != 0).count();
        for (e, k) in v2 { if let Some(t) = v.iter_mut().find(|t| t.0 == e) { t.1 -= k; } else { v.push((e, -k)); } }
        c -= c2; v.retain(|t| t.1 != 0);
        if v.len() >= n0 + n1 || v.iter().any(|t| t.1.abs() != 1) { return None; }
        let (p, q): (Vec<_>, Vec<_>) = v.into_iter().partition(|t| t.1 > 0);
        let x = self.sum(p.into_iter().map(|t| t.0).collect(), (c as u128) & mask(w), w); let y = self.sum(q.into_iter().map(|t| t.0).collect(), 0, w);
        Some((x, y))
    }
    /// The same for an unsigned comparison; only where neither side can wrap around.
    fn cancel_exact(&mut self, a: E, b: E, w: u32) -> Option<(E, E)> {
        if w > 64 || (self.node(a).op != Op::Add && self.node(b).op != Op::Add) { return None; }
        let mut side = |e: E| { let (mut v, mut c, mut fuel) = (vec![], 0i128, 12u32); if !self.flat(e, 1, false, &mut v, &mut c, &mut fuel) { return None; }
            let mut tot = c as u128; for t in &v { tot = tot.checked_add(self.ub[t.0 as usize].checked_mul(t.1 as u128)?)?; } if tot > mask(w) { None } else { Some((v, c)) } };
        let (va, ca) = side(a)?; let (vb, cb) = side(b)?;
        let (na, nb) = (va.len(), vb.len());
        let mut v = va; for (e, k) in vb { if let Some(t) = v.iter_mut().find(|t| t.0 == e) { t.1 -= k; } else { v.push((e, -k)); } }
        v.retain(|t| t.1 != 0); let k = ca.min(cb);
        if v.iter().any(|t| t.1.abs() != 1) || (v.len() >= na + nb && k == 0) { return None; }
        let (p, q): (Vec<_>, Vec<_>) = v.into_iter().partition(|t| t.1 > 0);
        let x = self.sum(p.into_iter().map(|t| t.0).collect(), (ca - k) as u128, w); let y = self.sum(q.into_iter().map(|t| t.0).collect(), (cb - k) as u128, w);
        if (x, y) == (a, b) { None } else { Some((x, y)) }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E { self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn sym(&mut self, id: u32, w: u32) -> E {
        while self.sym_w.len() <= id as usize { self.sym_w.push(0); }
        self.sym_w[id as usize] = w as u16;
        self.mk(Node { op: Op::Sym, w: w as u16, a: id, b: 0, c: 0, k: 0 })
    }
    fn n3(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E { self.mk(Node { op, w: w as u16, a, b, c, k: 0 }) }

    pub fn not1(&mut self, e: E) -> E { let one = self.cst(1, 1); self.bin(Op::Xor, e, one) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op { Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle | FUno => 1, _ => w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if matches!(op, FAdd | FSub | FMul | FDiv | FOeq | FOlt | FOle | FUno) {
            if let (Some(x), Some(y)) = (ca, cb) { return self.cst(fop_const(op, x, y, w), rw); }
            return self.n3(op, rw, a, b, 0);
        }
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(binop_const(op, x, y, w), rw); }
        // canonicalise constants to the right for commutative ops
        let (a, b, ca, cb) = if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) { (b, a, cb, ca) }
            else if ca.is_none() && cb.is_none() && a > b && matches!(op, Add | Mul | And | Or | Xor | Eq) { (b, a, cb, ca) }
            else { (a, b, ca, cb) };
        let m = mask(w);
        let na = self.node(a);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let (Some(y), Op::ZExt) = (cb, na.op) { let i = self.node(na.a); if i.op == Add { if let Some(k) = self.as_const(i.b) { if k.wrapping_add(y) & m == 0 && self.ub[i.a as usize] + k <= mask(i.w as u32) { return self.zext(i.a, w); } } } }
                if let Some(y) = cb { if na.op == Add { if let Some(x) = self.as_const(na.b) { let k = self.cst(x.wrapping_add(y), w); return self.bin(Add, na.a, k); } } }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(y) = cb { let k = self.cst((!y).wrapping_add(1), w); return self.bin(Add, a, k); }
                if let Some((x, y)) = self.cancel(a, b, w) { return self.bin(Sub, x, y); }
                if na.op == Add && na.a == b { return na.b; }
                if na.op == Add && na.b == b { return na.a; }
                let nb = self.node(b);
                if na.op == Add && nb.op == Add && na.a == nb.a { return self.bin(Sub, na.b, nb.b); }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.bin(Shl, a, k); } }
            }
            UDiv => { if cb == Some(1) { return a; }
                if let (Some(y), Op::UDiv) = (cb, na.op) { if let Some(k) = self.as_const(na.b) { if k > 0 && y > 0 && w <= 64 { if k * y > m { return self.cst(0, w); } let k = self.cst(k * y, w); return self.bin(UDiv, na.a, k); } } }
                if let Some(y) = cb { if y > self.ub[a as usize] { return self.cst(0, w); } } if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.bin(LShr, a, k); } } }
            URem => { if cb == Some(1) { return self.cst(0, w); } if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y - 1, w); return self.bin(And, a, k); } } }
            And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) || a == b { return a; }
                if let Some(y) = cb {
                    if na.op == And { if let Some(x) = self.as_const(na.b) { let k = self.cst(x & y, w); return self.bin(And, na.a, k); } }
                    if na.op == ZExt { let iw = self.w(na.a); if y & mask(iw) == mask(iw) { return a; } if y & mask(iw) == 0 { return self.cst(0, w); }
                        let k = self.cst(y & mask(iw), iw); let i = self.bin(And, na.a, k); return self.zext(i, w); }
                    if na.op == Concat { let lw = self.w(na.b); let kh = self.cst(y >> lw, w - lw); let kl = self.cst(y, lw);
                        if y >> lw == 0 { let l = self.bin(And, na.b, kl); return self.zext(l, w); }
                        let h = self.bin(And, na.a, kh); let l = self.bin(And, na.b, kl); return self.concat(h, l); }
                    // low mask == truncate
                    if y != 0 && (y & y.wrapping_add(1)) == 0 { let n = 128 - y.leading_zeros(); if na.op != Add && na.op != Mul && na.op != Sub { let t = self.extract(a, 0, n); if self.node(t).op != Extract { return self.zext(t, w); } } }
                }
            }
            Or => {
                if cb == Some(0) || a == b { return a; }
                if cb == Some(m) { return b; }
                // zext(x) | (zext(y) << k) style recombination
                if let Some(r) = self.or_concat(a, b, w).or_else(|| self.or_concat(b, a, w)) { return r; }
            }
            Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if w == 1 { let nb = self.node(b); for (p, n) in [(a, nb), (b, na)] { if n.op == And { let np = self.not1(p); if n.a == np || n.b == np { let q = if n.a == np { n.b } else { n.a }; return self.bin(Or, p, q); } } } }
                if let Some(y) = cb {
                    if na.op == Xor { if let Some(x) = self.as_const(na.b) { let k = self.cst(x ^ y, w); return self.bin(Xor, na.a, k); } }
                    if w == 1 && y == 1 && na.op == Ite { let (t, f) = (self.as_const(na.b), self.as_const(na.c)); if let (Some(t), Some(f)) = (t, f) { let t = self.cst(t ^ 1, 1); let f = self.cst(f ^ 1, 1); return self.ite(na.a, t, f); } }
                }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { if y >= w as u128 { return self.cst(0, w); }
                    // shl by constant == concat(extract, 0)
                    let y = y as u32; let hi = self.extract(a, 0, w - y); let z = self.cst(0, y); return self.concat(hi, z); }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { if y >= w as u128 { return self.cst(0, w); }
                    let y = y as u32; let hi = self.extract(a, y, w - y); return self.zext(hi, w); }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { let y = (y as u32).min(w - 1); let hi = self.extract(a, y, w - y); return self.sext(hi, w); }
            }
            Eq => {
                if a == b { return self.cst(1, 1); }
                if w <= 64 { let (x, y) = (self.sr[a as usize], self.sr[b as usize]); if x.1 < y.0 || y.1 < x.0 { return self.cst(0, 1); } let (x, y) = (self.urange(a), self.urange(b)); if x.1 < y.0 || y.1 < x.0 { return self.cst(0, 1); } }
                if w == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return self.not1(a); } }
                if let Some(y) = cb {
                    match na.op {
                        ZExt => { let iw = self.w(na.a); if y >> iw != 0 { return self.cst(0, 1); } let k = self.cst(y, iw); return self.bin(Eq, na.a, k); }
                        SExt => { let iw = self.w(na.a); let t = y & mask(iw); if (sext(t, iw) as u128) & m != y { return self.cst(0, 1); } let k = self.cst(t, iw); return self.bin(Eq, na.a, k); }
                        Add => { if let Some(x) = self.as_const(na.b) { let k = self.cst(y.wrapping_sub(x), w); return self.bin(Eq, na.a, k); } }
                        Xor => { if let Some(x) = self.as_const(na.b) { let k = self.cst(y ^ x, w); return self.bin(Eq, na.a, k); } if y == 0 { return self.bin(Eq, na.a, na.b); } }
                        Sub => { if y == 0 { return self.bin(Eq, na.a, na.b); } }
                        UDiv if w <= 64 => { if let Some(k) = self.as_const(na.b) { if k > 0 { if y * k > m { return self.cst(0, 1); }
                            let lo = self.cst(y * k, w); let ge = { let l = self.bin(Ult, na.a, lo); self.not1(l) };
                            if (y + 1) * k > m { return ge; } let hi = self.cst((y + 1) * k, w); let lt = self.bin(Ult, na.a, hi); return self.bin(And, ge, lt); } } }
                        Or => { if y == 0 { let z = self.cst(0, w); let l = self.bin(Eq, na.a, z); let r = self.bin(Eq, na.b, z); return self.bin(And, l, r); } }
                        Concat => { let lw = self.w(na.b); let kl = self.cst(y, lw); let kh = self.cst(y >> lw, w - lw);
                            let l = self.bin(Eq, na.b, kl); if self.as_const(l) == Some(0) { return l; }
                            let h = self.bin(Eq, na.a, kh); return self.bin(And, h, l); }
                        Ite => {
                            let (t, f) = (self.as_const(na.b), self.as_const(na.c));
                            if t.is_some() || f.is_some() {
                                let et = self.bin(Eq, na.b, b); let ef = self.bin(Eq, na.c, b); return self.ite(na.a, et, ef);
                            }
                        }
                        And => { // (x & c) == c' impossible bits
                            if let Some(x) = self.as_const(na.b) { if y & !x != 0 { return self.cst(0, 1); } } }
                        _ => {}
                    }
                }
                if cb.is_none() { if let Some((x, y)) = self.cancel(a, b, w) { return self.bin(Eq, x, y); } }
                if let Some(y) = cb { if y > self.ub[a as usize] { return self.cst(0, 1); } }
                let nb = self.node(b);
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Eq, na.a, nb.a); }
                if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) { let h = self.bin(Eq, na.a, nb.a); let l = self.bin(Eq, na.b, nb.b); return self.bin(And, h, l); }
            }
            Ult => {
                if a == b { return self.cst(0, 1); }
                { let (x, y) = (self.urange(a), self.urange(b)); if x.1 < y.0 { return self.cst(1, 1); } if x.0 >= y.1 { return self.cst(0, 1); } }
                if cb == Some(0) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Eq, a, z); }
                if ca == Some(m) { return self.cst(0, 1); }
                if let Some(y) = cb { if self.ub[a as usize] < y { return self.cst(1, 1); } }
                if let Some(x) = ca { if self.ub[b as usize] <= x { return self.cst(0, 1); } }
                if let Some((x, y)) = self.cancel_exact(a, b, w) { return self.bin(Ult, x, y); }
                if let (Some(c), Op::UDiv, true) = (cb, na.op, w <= 64) { if let Some(k) = self.as_const(na.b) { if k > 0 { if c * k > m { return self.cst(1, 1); } let k = self.cst(c * k, w); return self.bin(Ult, na.a, k); } } }
                if let (Some(c), true) = (ca, w <= 64) { let nb = self.node(b); if nb.op == UDiv { if let Some(k) = self.as_const(nb.b) { if k > 0 { if (c + 1) * k > m { return self.cst(0, 1); } let k = self.cst((c + 1) * k, w); let r = self.bin(Ult, nb.a, k); return self.not1(r); } } } }
                if ca == Some(0) { let z = self.cst(0, w); let e = self.bin(Eq, b, z); return self.not1(e); }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb, w) { return r; }
            }
            Ule => {
                if a == b { return self.cst(1, 1); }
                let r = self.bin(Ult, b, a); return self.not1(r);
            }
            Slt => {
                if a == b { return self.cst(0, 1); }
                if w <= 64 { let (x, y) = (self.sr[a as usize], self.sr[b as usize]); if x.1 < y.0 { return self.cst(1, 1); } if x.0 >= y.1 { return self.cst(0, 1); } }
                if w <= 64 { let h = mask(w - 1); let (ua, ub) = (self.ub[a as usize], self.ub[b as usize]);
                    if ua <= h && ub <= h { return self.bin(Ult, a, b); }
                    if ua <= h && cb.map_or(false, |y| y > h) { return self.cst(0, 1); }
                    if ub <= h && ca.map_or(false, |x| x > h) { return self.cst(1, 1); } }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb, w) { return r; }
            }
            Sle => {
                if a == b { return self.cst(1, 1); }
                let r = self.bin(Slt, b, a); return self.not1(r);
            }
            _ => {}
        }
        // distribute over small constant ites
        if cb.is_some() && na.op == Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
            let t = self.bin(op, na.b, b); let f = self.bin(op, na.c, b); return self.ite(na.a, t, f);
        }
        if ca.is_some() { let nb = self.node(b); if nb.op == Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
            let t = self.bin(op, a, nb.b); let f = self.bin(op, a, nb.c); return self.ite(nb.a, t, f);
        } }
        self.n3(op, rw, a, b, 0)
    }

    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // a = concat(h, 0_k), b = zext(l) with l at most k bits
        let na = self.node(a); let nb = self.node(b);
        if na.op == Op::Concat && self.as_const(na.b) == Some(0) {
            let k = self.w(na.b);
            if nb.op == Op::ZExt && self.w(nb.a) <= k { let lo = self.zext(nb.a, k); return Some(self.concat(na.a, lo)); }
            if nb.op == Op::Const && nb.k >> k == 0 { let lo = self.cst(nb.k, k); return Some(self.concat(na.a, lo)); }
        }
        // zext(concat(h,0_k)) | zext(l)
        if na.op == Op::ZExt {
            let ni = self.node(na.a);
            if ni.op == Op::Concat && self.as_const(ni.b) == Some(0) && nb.op == Op::ZExt && self.w(nb.a) <= self.w(ni.b) {
                let k = self.w(ni.b); let lo = self.zext(nb.a, k); let c = self.concat(ni.a, lo); return Some(self.zext(c, w));
            }
            if ni.op == Op::Concat && self.as_const(ni.b) == Some(0) && nb.op == Op::Const && nb.k >> self.w(ni.b) == 0 {
                let k = self.w(ni.b); let lo = self.cst(nb.k, k); let c = self.concat(ni.a, lo); return Some(self.zext(c, w));
            }
        }
        None
    }

    fn cmp_zext(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>, w: u32) -> Option<E> {
        let na = self.node(a); let nb = self.node(b);
        let u = |s: &mut Ctx, x: E, y: E| s.bin(Op::Ult, x, y);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a)); let mw = wa.max(wb);
            if mw < w { let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return Some(u(self, x, y)); }
        }
        if na.op == Op::ZExt { if let Some(y) = cb {
            let iw = self.w(na.a);
            if op == Op::Slt && sext(y, w) < 0 { return Some(self.cst(0, 1)); }
            if y > mask(iw) { return Some(self.cst(1, 1)); }
            let k = self.cst(y, iw); return Some(u(self, na.a, k));
        } }
        if nb.op == Op::ZExt { if let Some(x) = ca {
            let iw = self.w(nb.a);
            if op == Op::Slt && sext(x, w) < 0 { return Some(self.cst(1, 1)); }
            if x >= mask(iw) { return Some(self.cst(0, 1)); }
            let k = self.cst(x, iw); return Some(u(self, k, nb.a));
        } }
        None
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        debug_assert!(ew < w);
        let n = self.node(e);
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => { let t = self.zext(n.b, w); let f = self.zext(n.c, w); self.ite(n.a, t, f) }
            _ => self.n3(Op::ZExt, w, e, 0, 0),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let n = self.node(e);
        match n.op {
            Op::Const => { let v = sext(n.k, ew) as u128; self.cst(v, w) }
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ if ew <= 64 && self.ub[e as usize] <= mask(ew - 1) => self.zext(e, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => { let t = self.sext(n.b, w); let f = self.sext(n.c, w); self.ite(n.a, t, f) }
            _ => self.n3(Op::SExt, w, e, 0, 0),
        }
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        if lo == 0 && w == ew { return e; }
        debug_assert!(lo + w <= ew);
        let n = self.node(e);
        match n.op {
            Op::Const => self.cst(n.k >> lo, w),
            Op::Extract => { let l = n.b; self.extract(n.a, l + lo, w) }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.cst(0, w) } else if lo + w <= iw { self.extract(n.a, lo, w) } else { let i = self.extract(n.a, lo, iw - lo); self.zext(i, w) }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::SExt if lo < self.w(n.a) => { let iw = self.w(n.a); let i = self.extract(n.a, lo, iw - lo); self.sext(i, w) }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, lo - lw, w) } else if lo + w <= lw { self.extract(n.b, lo, w) }
                else { let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, lo + w - lw); self.concat(h, l) }
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); self.bin(n.op, x, y) }
            Op::Ite => { let t = self.extract(n.b, lo, w); let f = self.extract(n.c, lo, w); self.ite(n.a, t, f) }
            // the low bits of a sum depend on the low bits of its terms only
            Op::Add | Op::Sub if lo + w < ew => {
                let m = lo + w; let x = self.extract(n.a, 0, m); let y = self.extract(n.b, 0, m);
                if self.as_const(x).is_some() && self.as_const(y).is_some() { let s = self.bin(n.op, x, y); self.extract(s, lo, w) } else { self.n3(Op::Extract, w, e, lo, 0) }
            }
            _ => self.n3(Op::Extract, w, e, lo, 0),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let (nh, nl) = (self.node(hi), self.node(lo));
        if nh.op == Op::Const && nl.op == Op::Const { return self.cst((nh.k << lw) | nl.k, hw + lw); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, hw + lw); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw { return self.extract(nh.a, nl.b, hw + lw); }
        // extract against a base that starts at bit 0 of something non-extract: e.g. hi = extract(x, lw..), lo = x' = trunc(x)
        if nl.op == Op::Concat { // concat(hi, concat(m, l)) -> try merge hi,m
            if nh.op == Op::Extract { let nm = self.node(nl.a); if nm.op == Op::Extract && nm.a == nh.a && nh.b == nm.b + self.w(nl.a) { let h = self.concat(hi, nl.a); return self.concat(h, nl.b); } }
            if nh.op == Op::Const && self.as_const(nl.a).is_some() { let h = self.concat(hi, nl.a); return self.concat(h, nl.b); }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a { let t = self.concat(nh.b, nl.b); let f = self.concat(nh.c, nl.c); return self.ite(nh.a, t, f); }
        if nh.op == Op::SExt { let c = self.concat(nh.a, lo); return self.sext(c, hw + lw); }
        // refold a bitwise operation that extraction was pushed through
        if nh.op == nl.op && matches!(nh.op, Op::And | Op::Or | Op::Xor) { let a = self.concat(nh.a, nl.a); let b = self.concat(nh.b, nl.b); if self.node(a).op != Op::Concat && self.node(b).op != Op::Concat { return self.bin(nh.op, a, b); } }
        if nh.op == Op::ZExt { let c = self.concat(nh.a, lo); return self.zext(c, hw + lw); }
        self.n3(Op::Concat, hw + lw, hi, lo, 0)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        let nc = self.node(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        let nt = self.node(t); if nt.op == Op::Ite && nt.a == c { return self.ite(c, nt.b, f); }
        let nf = self.node(f); if nf.op == Op::Ite && nf.a == c { return self.ite(c, t, nf.c); }
        self.n3(Op::Ite, w, c, t, f)
    }
    pub fn fcast(&mut self, op: Op, e: E, wt: u32) -> E {
        if let Some(x) = self.as_const(e) { let v = fcast_const(op, x, self.w(e), wt); return self.cst(v, wt); }
        if op == Op::FToF && self.w(e) == wt { return e; }
        // float -> double -> float is the identity on bit patterns up to NaN payloads
        if op == Op::FToF && wt == 32 { let n = self.node(e); if n.op == Op::FToF && self.w(n.a) == 32 { return n.a; } }
        self.n3(op, wt, e, 0, 0)
    }
    pub fn table(&mut self, key: (u64, u64, u16), mk: impl FnOnce() -> Table, idx: E) -> E {
        let t = match self.table_map.get(&key) { Some(&t) => t, None => { let t = self.tables.len() as u32; self.tables.push(Rc::new(mk())); self.table_map.insert(key, t); t } };
        let tb = self.tables[t as usize].clone();
        if let Some(i) = self.as_const(idx) { let v = tb.vals.get(i as usize).copied().unwrap_or(0); return self.cst(v as u128, tb.w as u32); }
        self.mk(Node { op: Op::Table, w: tb.w, a: idx, b: t, c: 0, k: 0 })
    }

    pub fn kids(&self, n: &Node) -> ([E; 3], usize) {
        use Op::*;
        match n.op {
            Const | Sym => ([0; 3], 0),
            ZExt | SExt | Extract | Table | FToF | SiToF | UiToF | FToSi | FToUi => ([n.a, 0, 0], 1),
            Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = &self.support[e as usize] { return s.clone(); }
        let n = self.node(e);
        let r = if n.op == Op::Sym { Rc::new(vec![n.a]) } else {
            let (k, c) = self.kids(&n);
            if c == 0 { Rc::new(vec![]) }
            else if c == 1 { self.support(k[0]) }
            else {
                let mut v: Vec<u32> = vec![];
                for i in 0..c { v.extend(self.support(k[i]).iter()); }
                v.sort_unstable(); v.dedup(); Rc::new(v)
            }
        };
        self.support[e as usize] = Some(r.clone());
        r
    }
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        self.gen += 1;
        let n = self.nodes.len();
        if self.memo_gen.len() < n { self.memo_gen.resize(n + 1024, 0); self.memo_val.resize(n + 1024, 0); }
        self.ev(e, m)
    }
    /// evaluate several expressions under one memo generation
    pub fn eval_all(&mut self, es: &[E], m: &Model) -> Vec<u128> {
        self.gen += 1;
        let n = self.nodes.len();
        if self.memo_gen.len() < n { self.memo_gen.resize(n + 1024, 0); self.memo_val.resize(n + 1024, 0); }
        es.iter().map(|&e| self.ev(e, m)).collect()
    }
    fn ev(&mut self, e: E, m: &Model) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op { Op::Const => return n.k, Op::Sym => return m.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32), _ => {} }
        if self.memo_gen[i] == self.gen { return self.memo_val[i]; }
        let w = n.w as u32;
        let v = match n.op {
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => { let x = self.ev(n.a, m); (sext(x, self.w(n.a)) as u128) & mask(w) }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(w),
            Op::Concat => { let h = self.ev(n.a, m); let l = self.ev(n.b, m); (h << self.w(n.b)) | l }
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::Table => { let x = self.ev(n.a, m); let t = self.tables[n.b as usize].clone(); if x < t.vals.len() as u128 { t.vals[x as usize] as u128 } else { 0 } }
            Op::FToF | Op::SiToF | Op::UiToF | Op::FToSi | Op::FToUi => { let x = self.ev(n.a, m); fcast_const(n.op, x, self.w(n.a), w) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => { let x = self.ev(n.a, m); let y = self.ev(n.b, m); fop_const(n.op, x, y, self.w(n.a)) }
            op => { let x = self.ev(n.a, m); let y = self.ev(n.b, m); binop_const(op, x, y, self.w(n.a)) }
        };
        self.memo_gen[i] = self.gen;
        self.memo_val[i] = v;
        v
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Sym => format!("s{}:{}", n.a, n.w),
            Op::Extract => format!("(extract {} +{}:{})", self.show(n.a, depth - 1), n.b, n.w),
            _ => { let (k, c) = self.kids(&n); let v: Vec<String> = k[..c].iter().map(|&x| self.show(x, depth - 1)).collect(); format!("({:?}:{} {})", n.op, n.w, v.join(" ")) }
        }
    }
}
