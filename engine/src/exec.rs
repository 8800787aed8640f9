//! The symbolic executor: states, memory, threads, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E> }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<Val>, pub block: u32, pub ip: u32, pub obj: u32, pub ret: Option<u32>, pub normal: Option<u32> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TS { Run, Wait(u64, u64), Done }
pub const NEVER: u64 = u64::MAX;
const STALL_CH: u64 = 1 << 62 | 3;

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Rc<Frame>>, pub cur: Option<Rc<Frame>>, pub st: TS, pub timed_out: bool }

#[derive(Clone, Copy)]
pub enum T { Sym(u32), Num(u64) }

#[derive(Clone)]
pub struct State {
    pub fr: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub threads: Vec<Thread>,
    pub tid: usize,
    pub mem: HashMap<u32, Rc<Obj>, FxB>,
    pub next_obj: u32,
    pub pc: Vec<E>,
    pub fixed: HashMap<u32, u128, FxB>,
    pub bound: HashMap<E, u64, FxB>,
    pub model: Rc<Model>,
    pub tape: Vec<T>,
    pub nsym: u32,
    pub trace: Vec<(Val, u32)>,
    pub steps: u64,
    pub now: u64,
    pub budget: u64,
    pub sflags: u64,
    pub depth: u32,
}

pub struct Violation { pub kind: String, pub msg: String, pub loc: String, pub stack: Vec<String>, pub tape: Vec<u64>, pub steps: u64 }
pub struct Sample { pub tape: Vec<u64>, pub trace: Vec<u64>, pub outcome: String, pub steps: u64 }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub infeasible: u64, pub insts: u64, pub branches: u64, pub forks: u64, pub asserts: u64, pub assert_q: u64, pub reach: BTreeMap<u64, u64>, pub viol: Vec<Violation>, pub nviol: u64, pub samples: Vec<Sample>, pub errors: BTreeMap<String, u64>, pub max_steps: u64, pub max_pc: u64, pub max_depth: u64 }

pub struct Cfg { pub params: Vec<u64>, pub max_steps: u64, pub sample_every: u64, pub max_samples: usize, pub max_viol: u64 }

/// Why execution of the current path stopped.
pub enum Stop { End(&'static str), Viol { kind: &'static str, msg: String, loc: String }, Infeasible, Error(String), Retry }
type R<X> = Result<X, Stop>;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub st: State,
    pub work: Vec<State>,
    pub solver: Solver,
    pub ginit: Vec<Option<Rc<Obj>>>,
    pub stats: Stats,
    pub cfg: Cfg,
    pub symid: HashMap<(u32, u32), u32>,
    pub prof: HashMap<(u32, u32), u64>,
    pub profile: bool,
}

fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

// kinds of callable
pub const K_UNK: u32 = 0; pub const K_DEF: u32 = 1;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg, timeout_ms: u32) -> Exec<'m> {
        cx().cst(0, 8);
        let n = m.globals.len();
        let dummy = Rc::new(Func { name: String::new(), nargs: 0, arg_regs: vec![], nregs: 0, frame_size: 0, blocks: vec![], idx: 0 });
        let fr = Frame { f: dummy, regs: vec![], block: 0, ip: 0, obj: 0, ret: None, normal: None };
        let st = State { fr, frames: vec![], threads: vec![], tid: 0, mem: HashMap::with_hasher(FxB), next_obj: (n as u32 + 2).max(0x10000), pc: vec![], fixed: HashMap::with_hasher(FxB), bound: HashMap::with_hasher(FxB), model: Rc::new(Model::with_hasher(FxB)), tape: vec![], nsym: 0, trace: vec![], steps: 0, now: 0, budget: 0, sflags: 0, depth: 0 };
        Exec { m, st, work: vec![], solver: Solver::new(timeout_ms), ginit: vec![None; n], stats: Stats::default(), cfg, symid: HashMap::new(), prof: HashMap::new(), profile: std::env::var("RSYM_PROF").is_ok() }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fn_by_name.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let func = self.m.func(f);
        self.st.threads.push(Thread { frames: vec![], cur: None, st: TS::Run, timed_out: false });
        self.st.fr = self.mk_frame(func, None, None);
        Ok(())
    }
    fn mk_frame(&mut self, f: Rc<Func>, ret: Option<u32>, normal: Option<u32>) -> Frame {
        let obj = if f.frame_size > 0 { self.new_obj(f.frame_size as usize) } else { 0 };
        let h = &self.m.fns[f.idx as usize].hits; h.set(h.get() + 1);
        Frame { regs: vec![Val::C(0); f.nregs as usize], f, block: 0, ip: 0, obj, ret, normal }
    }
    pub fn new_obj(&mut self, size: usize) -> u32 {
        let id = self.st.next_obj; self.st.next_obj += 1;
        self.st.mem.insert(id, Rc::new(Obj { data: vec![0; size], sym: vec![] }));
        id
    }

    // ---------- values ----------
    #[inline] fn opv(&self, o: &Opnd) -> Val { match o { Opnd::R(r) => self.st.fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }
    #[inline] fn set(&mut self, d: u32, v: Val) { self.st.fr.regs[d as usize] = v; }
    pub fn e(&self, v: &Val, w: u32) -> E { match v { Val::C(c) => cx().cst(*c as u128, w), Val::W(c) => cx().cst(**c, w), Val::S(e) => { debug_assert_eq!(cx().w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") } }
    pub fn v(&self, e: E) -> Val { let n = cx().node(e); if n.op == Op::Const { if n.w <= 64 { Val::C(n.k as u64) } else { Val::W(Rc::new(n.k)) } } else { Val::S(e) } }
    fn cw(v: u128, w: u32) -> Val { if w <= 64 { Val::C((v & mask(w)) as u64) } else { Val::W(Rc::new(v & mask(w))) } }

    // ---------- constraints ----------
    fn slice(&self, c: E) -> Vec<E> {
        let mut syms: HashSet<u32> = cx().support(c).iter().copied().collect();
        let pc = &self.st.pc;
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let s = cx().support(p);
                if s.iter().any(|x| syms.contains(x)) { used[i] = true; ch = true; out.push(p); syms.extend(s.iter().copied()); }
            }
            if !ch { return out; }
        }
    }
    fn sat_with(&mut self, c: E) -> R<Option<Rc<Model>>> {
        let mut q = self.slice(c); q.push(c);
        match self.solver.check(q) {
            Ans::Unsat => Ok(None),
            Ans::Sat(m) => { let mut mm = (*self.st.model).clone(); for (k, v) in m.iter() { mm.insert(*k, *v); } Ok(Some(Rc::new(mm))) }
            Ans::Unknown => Err(Stop::Error("solver answered unknown".into())),
        }
    }
    fn add_pc(&mut self, c: E) { add_pc(&mut self.st, c) }
    fn all_fixed(&self, c: E) -> bool { cx().support(c).iter().all(|s| self.st.fixed.contains_key(s)) }
    /// Decide a 1-bit expression: returns its truth on the current path, forking the other side when feasible.
    fn decide(&mut self, c: E) -> R<bool> {
        if let Some(k) = cx().as_const(c) { return Ok(k == 1); }
        let side = cx().eval(c, &self.st.model) == 1;
        if self.all_fixed(c) { return Ok(side); }
        let cond = if side { c } else { cx().not1(c) };
        if self.st.pc.contains(&cond) { return Ok(side); }
        let neg = if side { cx().not1(c) } else { c };
        self.stats.branches += 1;
        if self.profile { *self.prof.entry((self.st.fr.f.idx, self.st.fr.block)).or_insert(0) += 1; if std::env::var("RSYM_SHOW").is_ok() { eprintln!("BR {}", cx().show(c, 12)); } }
        if let Some(m) = self.sat_with(neg)? {
            let mut alt = self.st.clone();
            alt.model = m; add_pc(&mut alt, neg); alt.depth += 1;
            self.stats.forks += 1;
            if self.profile { *self.prof.entry((self.st.fr.f.idx, self.st.fr.block)).or_insert(0) += 1; }
            self.st.depth += 1;
            self.work.push(alt);
            self.add_pc(cond);
        }
        Ok(side)
    }
    /// Concrete value of `v`; other feasible values are explored by re-executing the instruction.
    fn conc(&mut self, v: &Val, w: u32) -> R<u64> {
        let e = match v { Val::C(c) => return Ok(*c), Val::W(x) => return Ok(**x as u64), Val::S(e) => *e, Val::A(_) => return Err(Stop::Error("aggregate where scalar expected".into())) };
        if let Some(k) = self.st.bound.get(&e) { return Ok(*k); }
        let k = cx().eval(e, &self.st.model) as u64;
        if self.all_fixed(e) { self.st.bound.insert(e, k); return Ok(k); }
        let ke = cx().cst(k as u128, w);
        let eq = cx().bin(Op::Eq, e, ke);
        let ne = cx().not1(eq);
        self.stats.branches += 1;
        if let Some(m) = self.sat_with(ne)? {
            let mut alt = self.st.clone();
            alt.model = m; add_pc(&mut alt, ne); alt.depth += 1;
            self.stats.forks += 1;
            if self.profile { *self.prof.entry((self.st.fr.f.idx, self.st.fr.block)).or_insert(0) += 1; }
            self.work.push(alt);
            self.add_pc(eq);
        }
        self.st.bound.insert(e, k);
        Ok(k)
    }
    fn cv(&mut self, o: &Opnd, w: u32) -> R<u64> { match o { Opnd::K(Val::C(c)) => Ok(*c), Opnd::R(r) => { if let Val::C(c) = &self.st.fr.regs[*r as usize] { return Ok(*c); } let v = self.opv(o); self.conc(&v, w) } _ => { let v = self.opv(o); self.conc(&v, w) } } }

    // ---------- memory ----------
    fn gobj(&mut self, id: u32) -> Option<Rc<Obj>> {
        let g = (id as usize).wrapping_sub(1);
        if g >= self.m.globals.len() { return None; }
        if self.ginit[g].is_none() {
            let b = self.m.global_init(g as u32).unwrap_or_else(|| vec![0; self.m.globals[g].size.max(8) as usize]);
            self.ginit[g] = Some(Rc::new(Obj { data: b, sym: vec![] }));
        }
        self.ginit[g].clone()
    }
    fn robj(&mut self, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let id = (addr >> OBJ_SHIFT) as u32; let off = (addr & 0xff_ffff) as usize;
        let o = match self.st.mem.get(&id) { Some(o) if (addr >> OBJ_SHIFT) < 0x7000_00 => o.clone(), _ => match self.gobj(id) { Some(o) if addr < FN_BASE => o, _ => return Err(self.memerr("read of invalid address", addr, n)) } };
        if off as u64 + n > o.data.len() as u64 { return Err(self.memerr("out-of-bounds read", addr, n)); }
        Ok((o, off))
    }
    fn memerr(&self, what: &str, addr: u64, n: u64) -> Stop { Stop::Viol { kind: "memory", msg: format!("{} {:#x}+{} (object size {:?})", what, addr, n, self.st.mem.get(&((addr >> OBJ_SHIFT) as u32)).map(|o| o.data.len())), loc: String::new() } }
    fn wobj(&mut self, addr: u64, n: u64) -> R<(&mut Obj, usize)> {
        let id = (addr >> OBJ_SHIFT) as u32; let off = (addr & 0xff_ffff) as usize;
        if addr >= FN_BASE { return Err(self.memerr("write to invalid address", addr, n)); }
        if !self.st.mem.contains_key(&id) {
            match self.gobj(id) { Some(o) => { if self.m.globals[id as usize - 1].constant { return Err(self.memerr("write to constant", addr, n)); } self.st.mem.insert(id, o); } None => return Err(self.memerr("write to invalid address", addr, n)) }
        }
        let len = self.st.mem[&id].data.len() as u64;
        if off as u64 + n > len { return Err(self.memerr("out-of-bounds write", addr, n)); }
        Ok((Rc::make_mut(self.st.mem.get_mut(&id).unwrap()), off))
    }
    fn load_scalar(&mut self, addr: u64, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let id = (addr >> OBJ_SHIFT) as u32; let off = (addr & 0xff_ffff) as usize;
        // fast path
        if n <= 8 { if let Some(o) = self.st.mem.get(&id) { if addr < FN_BASE && off + n <= o.data.len() && (o.sym.is_empty()) {
            let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::C(u64::from_le_bytes(b) & m64(bits)));
        } } }
        let (o, off) = self.robj(addr, n as u64)?;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&s| s == 0) {
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Self::cw(u128::from_le_bytes(b), bits));
        }
        let c = cx();
        let mut acc: Option<E> = None;
        for i in 0..n { let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { c.cst(o.data[off + i] as u128, 8) }; acc = Some(match acc { None => b, Some(a) => c.concat(b, a) }); }
        let mut r = acc.unwrap();
        if bits < n as u32 * 8 { r = c.extract(r, 0, bits); }
        Ok(self.v(r))
    }
    fn store_scalar(&mut self, addr: u64, bits: u32, v: &Val) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c) => { let (o, off) = self.wobj(addr, n as u64)?; let b = c.to_le_bytes(); o.data[off..off + n].copy_from_slice(&b[..n]); if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = 0; } } }
            Val::W(c) => { let (o, off) = self.wobj(addr, n as u64)?; let b = c.to_le_bytes(); o.data[off..off + n].copy_from_slice(&b[..n]); if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = 0; } } }
            Val::S(e) => {
                let c = cx(); let e = c.zext(*e, n as u32 * 8);
                let mut bs = Vec::with_capacity(n);
                for i in 0..n { bs.push(c.extract(e, i as u32 * 8, 8)); }
                self.store_bytes_sym(addr, &bs)?;
            }
            Val::A(_) => return Err(Stop::Error("aggregate store as scalar".into())),
        }
        Ok(())
    }
    fn store_bytes_sym(&mut self, addr: u64, bs: &[E]) -> R<()> {
        let (o, off) = self.wobj(addr, bs.len() as u64)?;
        if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        for (i, &b) in bs.iter().enumerate() {
            match cx().as_const(b) { Some(k) => { o.data[off + i] = k as u8; o.sym[off + i] = 0; } None => { o.sym[off + i] = b; } }
        }
        Ok(())
    }
    fn load_ty(&mut self, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::Int(w) | Ty::Fp(w) => self.load_scalar(addr, *w),
            Ty::Ptr => self.load_scalar(addr, 64),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => { let tot = *n * t.bits(); let v = self.load_scalar(addr, tot)?; Ok(self.split(&v, tot, *n, t.bits())) }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let mut r = Vec::with_capacity(ty.nfields()); for i in 0..ty.nfields() { r.push(self.load_ty(&ty.field(i), addr + ty.field_off(i))?); } Ok(Val::A(Rc::new(r))) }
            _ => Ok(Val::C(0)),
        }
    }
    fn store_ty(&mut self, ty: &Ty, addr: u64, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) | Ty::Fp(w) => self.store_scalar(addr, *w, v),
            Ty::Ptr => self.store_scalar(addr, 64, v),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => { let e = self.join(v, *n, t.bits()); let x = self.v(e); self.store_scalar(addr, *n * t.bits(), &x) }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let a = match v { Val::A(a) => a.clone(), _ => return Err(Stop::Error("scalar store as aggregate".into())) }; for (i, x) in a.iter().enumerate() { self.store_ty(&ty.field(i), addr + ty.field_off(i), x)?; } Ok(()) }
            _ => Ok(()),
        }
    }
    fn split(&self, v: &Val, tot: u32, n: u32, w: u32) -> Val { let e = self.e(v, tot); Val::A(Rc::new((0..n).map(|i| { let x = cx().extract(e, i * w, w); self.v(x) }).collect())) }
    fn join(&self, v: &Val, n: u32, w: u32) -> E { match v { Val::A(a) => { let mut acc: Option<E> = None; for i in 0..n as usize { let b = self.e(&a[i], w); acc = Some(match acc { None => b, Some(x) => cx().concat(b, x) }); } acc.unwrap() } _ => panic!("join") } }

    /// Address operand: concrete, or resolved against a constant table when symbolic.
    fn load_any(&mut self, ty: &Ty, p: &Val) -> R<Val> {
        if let Val::S(a) = p {
            let bits = ty.bits(); let n = ((bits + 7) / 8) as u64;
            if !ty.is_agg() && bits <= 64 && !self.st.bound.contains_key(a) && !self.all_fixed(*a) {
                let k = cx().eval(*a, &self.st.model) as u64;
                let id = (k >> OBJ_SHIFT) as u32;
                if id as usize <= self.m.globals.len() && id > 0 && k < FN_BASE && self.m.globals[id as usize - 1].constant {
                    let o = self.gobj(id).unwrap();
                    if o.data.len() as u64 >= n && o.data.len() <= 1 << 16 {
                        let base = (id as u64) << OBJ_SHIFT;
                        let (be, le) = (cx().cst(base as u128, 64), cx().cst((o.data.len() as u64 - n) as u128, 64));
                        let idx = cx().bin(Op::Sub, *a, be);
                        let inr = cx().bin(Op::Ule, idx, le);
                        let out = cx().not1(inr);
                        if cx().as_const(out) == Some(0) || self.sat_with(out)?.is_none() {
                            let oo = o.clone();
                            let e = cx().table((id as u64, n, bits as u16), || { let vals = (0..=oo.data.len() - n as usize).map(|i| { let mut b = [0u8; 8]; b[..n as usize].copy_from_slice(&oo.data[i..i + n as usize]); u64::from_le_bytes(b) & m64(bits) }).collect(); Table { vals, w: bits as u16 } }, idx);
                            return Ok(self.v(e));
                        }
                    }
                }
            }
        }
        let a = self.conc(p, 64)?;
        self.load_ty(ty, a)
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, so) = self.robj(src, n)?;
        let n = n as usize;
        let data = o.data[so..so + n].to_vec();
        let sym = if o.sym.is_empty() || o.sym[so..so + n].iter().all(|&x| x == 0) { None } else { Some(o.sym[so..so + n].to_vec()) };
        drop(o);
        let (d, off) = self.wobj(dst, n as u64)?;
        d.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(s) => { if d.sym.is_empty() { d.sym = vec![0; d.data.len()]; } d.sym[off..off + n].copy_from_slice(&s); }
            None => if !d.sym.is_empty() { for s in &mut d.sym[off..off + n] { *s = 0; } if d.sym.iter().all(|&x| x == 0) { d.sym = vec![]; } }
        }
        Ok(())
    }
    fn byte(&self, o: &Obj, i: usize) -> E { if !o.sym.is_empty() && o.sym[i] != 0 { o.sym[i] } else { cx().cst(o.data[i] as u128, 8) } }
    fn read_cstr(&mut self, p: u64, n: u64) -> String { match self.robj(p, n) { Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string(), _ => String::new() } }

    // ---------- arithmetic ----------
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = m64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx(x, w) >> y.min(63)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 { return Err(Stop::Error("division by zero reached the executor".into())); }
                    match op { Bin::UDiv => x / y, Bin::URem => x % y, Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64, _ => sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                }
                Bin::FAdd => fop_const(Op::FAdd, x as u128, y as u128, w) as u64, Bin::FSub => fop_const(Op::FSub, x as u128, y as u128, w) as u64,
                Bin::FMul => fop_const(Op::FMul, x as u128, y as u128, w) as u64, Bin::FDiv => fop_const(Op::FDiv, x as u128, y as u128, w) as u64,
                Bin::FRem => if w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 } else { (f64::from_bits(x) % f64::from_bits(y)).to_bits() },
            };
            return Ok(Val::C(r & m));
        }
        let o = match op { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => return Err(Stop::Error("symbolic frem".into())) };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = cx().bin(o, x, y);
        Ok(self.v(r))
    }
    fn bin_ty(&mut self, op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match ty {
            Ty::Vec(_, t) => { let w = t.bits(); match (a, b) { (Val::A(x), Val::A(y)) => { let mut r = Vec::with_capacity(x.len()); for (p, q) in x.iter().zip(y.iter()) { r.push(self.bin(op, w, p, q)?); } Ok(Val::A(Rc::new(r))) } _ => Err(Stop::Error("vector operand".into())) } }
            t => self.bin(op, t.bits(), a, b),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (s, t) = (sx(x, w), sx(y, w));
            return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s > t, Pred::Sge => s >= t, Pred::Slt => s < t, Pred::Sle => s <= t } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = cx();
        let r = match p { Pred::Eq => c.bin(Op::Eq, x, y), Pred::Ne => { let e = c.bin(Op::Eq, x, y); c.not1(e) } Pred::Ugt => c.bin(Op::Ult, y, x), Pred::Uge => c.bin(Op::Ule, y, x), Pred::Ult => c.bin(Op::Ult, x, y), Pred::Ule => c.bin(Op::Ule, x, y), Pred::Sgt => c.bin(Op::Slt, y, x), Pred::Sge => c.bin(Op::Sle, y, x), Pred::Slt => c.bin(Op::Slt, x, y), Pred::Sle => c.bin(Op::Sle, x, y) };
        self.v(r)
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = cx();
        use FPred::*;
        let or = |c: &mut Ctx, p: E, q: E| c.bin(Op::Or, p, q);
        let uno = c.bin(Op::FUno, x, y);
        let r = match p {
            False => c.cst(0, 1), True => c.cst(1, 1), Oeq => c.bin(Op::FOeq, x, y), Olt => c.bin(Op::FOlt, x, y), Ole => c.bin(Op::FOle, x, y), Ogt => c.bin(Op::FOlt, y, x), Oge => c.bin(Op::FOle, y, x),
            Uno => uno, Ord => c.not1(uno),
            Ueq => { let q = c.bin(Op::FOeq, x, y); or(c, uno, q) } Une => { let q = c.bin(Op::FOeq, x, y); c.not1(q) }
            One => { let q = c.bin(Op::FOeq, x, y); let q = or(c, uno, q); c.not1(q) }
            Ult => { let q = c.bin(Op::FOle, y, x); c.not1(q) } Ule => { let q = c.bin(Op::FOlt, y, x); c.not1(q) } Ugt => { let q = c.bin(Op::FOle, x, y); c.not1(q) } Uge => { let q = c.bin(Op::FOlt, x, y); c.not1(q) }
        };
        self.v(r)
    }
    fn cast1(&mut self, op: Cast, fw: u32, tw: u32, v: &Val) -> R<Val> {
        if let Val::C(x) = v {
            match op { Cast::Trunc => return Ok(Val::C(x & m64(tw))), Cast::ZExt if tw <= 64 => return Ok(Val::C(*x)), Cast::SExt if tw <= 64 => return Ok(Val::C(sx(*x, fw) as u64 & m64(tw))), Cast::Bit => return Ok(Val::C(*x)), _ => {} }
        }
        let e = self.e(v, fw);
        let c = cx();
        let r = match op { Cast::Trunc => c.extract(e, 0, tw), Cast::ZExt => c.zext(e, tw), Cast::SExt => c.sext(e, tw), Cast::Bit => e, Cast::FpExt | Cast::FpTrunc => c.fcast(Op::FToF, e, tw), Cast::FpToUi => c.fcast(Op::FToUi, e, tw), Cast::FpToSi => c.fcast(Op::FToSi, e, tw), Cast::UiToFp => c.fcast(Op::UiToF, e, tw), Cast::SiToFp => c.fcast(Op::SiToF, e, tw) };
        Ok(self.v(r))
    }
    fn cast(&mut self, op: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if op == Cast::Bit && (from.is_agg() || to.is_agg()) {
            if from == to { return Ok(v.clone()); }
            // through bytes (or bits for sub-byte elements)
            let (fe, fwid) = match from { Ty::Vec(n, t) => (Some(*n), t.bits()), t => (None, t.bits()) };
            let tot = fe.unwrap_or(1) * fwid;
            if tot > 128 {
                let id = self.new_obj((tot / 8) as usize); let a = (id as u64) << OBJ_SHIFT; self.store_ty(from, a, v)?; let r = self.load_ty(to, a)?; self.st.mem.remove(&id); return Ok(r);
            }
            let e = match fe { Some(n) => self.join(v, n, fwid), None => self.e(v, fwid) };
            let x = self.v(e);
            return Ok(match to { Ty::Vec(n, t) => self.split(&x, tot, *n, t.bits()), _ => x });
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
            if let Val::A(a) = v { let (fw, tw) = (f.bits(), t.bits()); let mut r = Vec::with_capacity(a.len()); for x in a.iter() { r.push(self.cast1(op, fw, tw, x)?); } return Ok(Val::A(Rc::new(r))); }
        }
        self.cast1(op, from.bits(), to.bits(), v)
    }
    fn select(&mut self, c: &Val, ty: &Ty, a: Val, b: Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k == 1 { a } else { b }),
            Val::S(ce) => self.ite(*ce, ty, a, b),
            Val::A(cs) => { if let (Val::A(x), Val::A(y)) = (&a, &b) { let et = ty.field(0); let mut r = vec![]; for i in 0..cs.len() { r.push(self.select(&cs[i], &et, x[i].clone(), y[i].clone())?); } Ok(Val::A(Rc::new(r))) } else { Err(Stop::Error("vector select".into())) } }
            _ => Err(Stop::Error("select".into())),
        }
    }
    fn ite(&mut self, c: E, ty: &Ty, a: Val, b: Val) -> R<Val> {
        if ty.is_agg() { if let (Val::A(x), Val::A(y)) = (&a, &b) { let mut r = vec![]; for i in 0..x.len() { r.push(self.ite(c, &ty.field(i), x[i].clone(), y[i].clone())?); } return Ok(Val::A(Rc::new(r))); } }
        let w = ty.bits(); let (x, y) = (self.e(&a, w), self.e(&b, w)); let r = cx().ite(c, x, y); Ok(self.v(r))
    }

    // ---------- control ----------
    fn goto(&mut self, t: u32) -> R<()> {
        let f = self.st.fr.f.clone();
        let b = &f.blocks[t as usize];
        let prev = self.st.fr.block;
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == prev).expect("phi").1;
                let v = self.opv(o); self.set(*d, v);
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis { let o = &inc.iter().find(|x| x.0 == prev).expect("phi").1; vals.push(self.opv(o)); }
                for ((d, _), v) in b.phis.iter().zip(vals) { self.set(*d, v); }
            }
        }
        self.st.fr.block = t; self.st.fr.ip = 0;
        Ok(())
    }
    fn do_ret(&mut self, v: Option<Val>) -> R<()> {
        if self.st.fr.obj != 0 { let o = self.st.fr.obj; self.st.mem.remove(&o); }
        let (ret, normal) = (self.st.fr.ret, self.st.fr.normal);
        match self.st.frames.pop() {
            Some(f) => {
                self.st.fr = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                if let (Some(d), Some(v)) = (ret, v) { self.set(d, v); }
                if let Some(n) = normal { self.goto(n)?; } else { self.st.fr.ip += 1; }
                Ok(())
            }
            None => {
                if self.st.tid == 0 { return Err(Stop::End("ok")); }
                let t = self.st.tid; self.st.threads[t].st = TS::Done;
                let ch = (1u64 << 63) | t as u64;
                self.wake(ch);
                self.schedule()
            }
        }
    }
    fn wake(&mut self, ch: u64) { for t in self.st.threads.iter_mut() { if let TS::Wait(c, _) = t.st { if c == ch { t.st = TS::Run; t.timed_out = false; } } } }
    fn switch_to(st: &mut State, n: usize) {
        if n == st.tid { return; }
        let cur = st.tid;
        let fr = Rc::new(st.fr.clone());
        st.threads[cur].frames = std::mem::take(&mut st.frames);
        st.threads[cur].cur = Some(fr);
        st.frames = std::mem::take(&mut st.threads[n].frames);
        st.fr = (*st.threads[n].cur.take().unwrap()).clone();
        st.tid = n;
    }
    fn fire_timer(st: &mut State) -> Option<usize> { Self::fire_nth(st, 0) }
    /// Distinct deadlines of waiting threads, earliest first.
    fn deadlines(st: &State) -> Vec<u64> { let mut v: Vec<u64> = st.threads.iter().filter_map(|t| if let TS::Wait(_, u) = t.st { if u != NEVER { Some(u.max(st.now)) } else { None } } else { None }).collect(); v.sort(); v.dedup(); v }
    fn fire_nth(st: &mut State, k: usize) -> Option<usize> {
        let t = if k > 0 { *Self::deadlines(st).get(k)? } else { st.threads.iter().filter_map(|t| if let TS::Wait(_, u) = t.st { if u != NEVER { Some(u) } else { None } } else { None }).min()? };
        if t > st.now { st.now = t; }
        let now = st.now; let mut first = None;
        for (i, t) in st.threads.iter_mut().enumerate() { if let TS::Wait(_, u) = t.st { if u != NEVER && u <= now { t.st = TS::Run; t.timed_out = true; if first.is_none() { first = Some(i); } } } }
        first
    }
    /// Pick the next thread to run.  The current frame's ip must already point past the call.
    fn schedule(&mut self) -> R<()> {
        let order = loop {
            let n = self.st.threads.len(); let cur = self.st.tid;
            let order: Vec<usize> = (0..n).map(|k| (cur + k) % n).filter(|&k| self.st.threads[k].st == TS::Run).collect();
            if !order.is_empty() { break order; }
            if Self::fire_timer(&mut self.st).is_none() { return Err(Stop::Viol { kind: "deadlock", msg: format!("all {} live threads are blocked", self.st.threads.iter().filter(|t| t.st != TS::Done).count()), loc: String::new() }); }
        };
        let left = if self.st.sflags & 2 != 0 { 0 } else { self.st.budget as usize };
        let mut opts = if self.st.sflags & 16 != 0 { 1 } else { order.len().min(left + 1) };
        let delays = opts;
        // the running thread may stall for a while
        let naps: &[u64] = if left == 0 || self.st.threads.len() == 1 || order[0] != self.st.tid { &[] } else { match self.st.sflags & 40 { 40 => &[20_000_000, 2_000_000_000], 8 => &[20_000_000], 32 => &[2_000_000_000], _ => &[] } };
        opts += naps.len();
        let base = opts;
        if self.st.sflags & 1 != 0 && left >= 1 { let n = Self::deadlines(&self.st).len(); opts += if self.st.sflags & 4 != 0 { n.min(4) } else { n.min(1) }; }
        for i in (1..opts).rev() {
            let mut alt = self.st.clone();
            alt.tape.push(T::Num(i as u64));
            if i >= delays && i < base { alt.budget -= 1; let c = alt.tid; alt.threads[c].st = TS::Wait(STALL_CH, alt.now + naps[i - delays]); let w = if order.len() > 1 { order[1] } else { Self::fire_timer(&mut alt).unwrap() }; Self::switch_to(&mut alt, w); }
            else if i < base { alt.budget -= i as u64; Self::switch_to(&mut alt, order[i]); }
            else { alt.budget -= 1; let w = Self::fire_nth(&mut alt, i - base).unwrap(); Self::switch_to(&mut alt, w); }
            self.stats.forks += 1;
            if self.profile { *self.prof.entry((self.st.fr.f.idx, self.st.fr.block)).or_insert(0) += 1; }
            self.work.push(alt);
        }
        if opts > 1 { self.st.tape.push(T::Num(0)); }
        Self::switch_to(&mut self.st, order[0]);
        Ok(())
    }
    fn enter(&mut self, f: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> R<()> {
        let func = self.m.func(f);
        if self.st.frames.len() > 4000 { return Err(Stop::Viol { kind: "hang", msg: "call depth above 4000".into(), loc: String::new() }); }
        let mut fr = self.mk_frame(func, ret, normal);
        for (i, v) in args.into_iter().enumerate() { if i < fr.f.arg_regs.len() { let r = fr.f.arg_regs[i]; fr.regs[r as usize] = v; } }
        let old = std::mem::replace(&mut self.st.fr, fr);
        self.st.frames.push(Rc::new(old));
        Ok(())
    }

    pub fn step(&mut self) -> R<()> {
        let f = self.st.fr.f.clone();
        let blk = &f.blocks[self.st.fr.block as usize];
        let start = self.st.fr.ip as usize;
        // straight-line run inside one block
        let mut ip = start;
        loop {
            self.st.steps += 1;
            self.st.fr.ip = ip as u32;
            if ip >= blk.insts.len() { return Err(Stop::Error(format!("fell off block {} of {}: len {} insts {:?}", self.st.fr.block, self.st.fr.f.name, blk.insts.len(), blk.insts.last()))); }
            match &blk.insts[ip] {
                Inst::Alloca { d, off, .. } => { let a = ((self.st.fr.obj as u64) << OBJ_SHIFT) + off; self.set(*d, Val::C(a)); }
                Inst::Load { d, ty, p } => {
                    let pv = self.opv(p);
                    let v = match (&pv, ty) { (Val::C(a), Ty::Int(w)) => self.load_scalar(*a, *w)?, (Val::C(a), Ty::Ptr) => self.load_scalar(*a, 64)?, _ => self.load_any(ty, &pv)? };
                    self.set(*d, v);
                }
                Inst::Store { ty, v, p } => { let a = self.cv(p, 64)?; let x = self.opv(v); self.store_ty(ty, a, &x)?; }
                Inst::Gep { d, p, off, idx } => {
                    let b = self.opv(p);
                    let mut acc = match &b { Val::C(c) => Val::C(c.wrapping_add(*off as u64)), Val::S(_) => self.bin(Bin::Add, 64, &b, &Val::C(*off as u64))?, _ => return Err(Stop::Error("gep base".into())) };
                    for (o, w, scale) in idx {
                        let i = self.opv(o);
                        match (&acc, &i) {
                            (Val::C(a), Val::C(k)) => acc = Val::C(a.wrapping_add((sx(*k, *w) as u64).wrapping_mul(*scale as u64))),
                            _ => { let i64v = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i)? } else { i }; let t = self.bin(Bin::Mul, 64, &i64v, &Val::C(*scale as u64))?; acc = self.bin(Bin::Add, 64, &acc, &t)?; }
                        }
                    }
                    self.set(*d, acc);
                }
                Inst::Bin { d, op, ty, a, b } => {
                    let (x, y) = (self.opv(a), self.opv(b));
                    let v = match ty { Ty::Int(w) => self.bin(*op, *w, &x, &y)?, _ => self.bin_ty(*op, ty, &x, &y)? };
                    self.set(*d, v);
                }
                Inst::ICmp { d, p, ty, a, b } => {
                    let (x, y) = (self.opv(a), self.opv(b));
                    let v = match ty { Ty::Vec(_, t) => { let w = t.bits(); match (&x, &y) { (Val::A(x), Val::A(y)) => { let r = x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(*p, w, p1, q)).collect(); Val::A(Rc::new(r)) } _ => return Err(Stop::Error("icmp vec".into())) } } t => self.icmp(*p, t.bits(), &x, &y) };
                    self.set(*d, v);
                }
                Inst::FCmp { d, p, ty, a, b } => {
                    let (x, y) = (self.opv(a), self.opv(b));
                    if ty.is_agg() { return Err(Stop::Error("vector fcmp".into())); }
                    let v = self.fcmp(*p, ty.bits(), &x, &y); self.set(*d, v);
                }
                Inst::Cast { d, op, from, to, v } => { let x = self.opv(v); let r = self.cast(*op, from, to, &x)?; self.set(*d, r); }
                Inst::Select { d, c, ty, a, b, .. } => { let (cv, x, y) = (self.opv(c), self.opv(a), self.opv(b)); let r = self.select(&cv, ty, x, y)?; self.set(*d, r); }
                Inst::Copy { d, v } => { let x = self.opv(v); self.set(*d, x); }
                Inst::FNeg { d, ty, v } => { let x = self.opv(v); let w = ty.bits(); let r = self.bin(Bin::Xor, w, &x, &Val::C(1u64 << (w - 1)))?; self.set(*d, r); }
                Inst::Extract { d, v, idx } => { let mut x = self.opv(v); for i in idx { x = match &x { Val::A(a) => a[*i as usize].clone(), _ => return Err(Stop::Error("extractvalue".into())) }; } self.set(*d, x); }
                Inst::Insert { d, ty, v, e, idx } => { let x = self.opv(v); let e = self.opv(e); let r = insert(&x, ty, &e, idx); self.set(*d, r); }
                Inst::ExtractEl { d, v, i, .. } => { let k = self.cv(i, 64)?; let x = self.opv(v); let r = match &x { Val::A(a) => a.get(k as usize).cloned().unwrap_or(Val::C(0)), _ => return Err(Stop::Error("extractelement".into())) }; self.set(*d, r); }
                Inst::InsertEl { d, v, e, i, .. } => { let k = self.cv(i, 64)?; let x = self.opv(v); let e = self.opv(e); let r = match &x { Val::A(a) => { let mut a = (**a).clone(); a[k as usize] = e; Val::A(Rc::new(a)) } _ => return Err(Stop::Error("insertelement".into())) }; self.set(*d, r); }
                Inst::Shuffle { d, n, a, b, ma, ty } => {
                    let (x, y) = (self.opv(a), self.opv(b));
                    let r = match (&x, &y) { (Val::A(x), Val::A(y)) => ma.iter().map(|&k| { let k = k as u32; if k < *n { x[k as usize].clone() } else if k < 2 * *n { y[(k - *n) as usize].clone() } else { P::zero(&ty.field(0)) } }).collect(), _ => return Err(Stop::Error("shuffle".into())) };
                    self.set(*d, Val::A(Rc::new(r)));
                }
                Inst::CmpXchg { d, ty, p, c, n } => {
                    let a = self.cv(p, 64)?; let old = self.load_ty(ty, a)?; let (c, n) = (self.opv(c), self.opv(n));
                    let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                    let nv = self.select(&eq, ty, n, old.clone())?; self.store_ty(ty, a, &nv)?;
                    self.set(*d, Val::A(Rc::new(vec![old, eq])));
                }
                Inst::Rmw { d, op, ty, p, v } => {
                    let a = self.cv(p, 64)?; let old = self.load_ty(ty, a)?; let x = self.opv(v); let w = ty.bits();
                    let nv = match op { Rmw::Xchg => x, Rmw::Add => self.bin(Bin::Add, w, &old, &x)?, Rmw::Sub => self.bin(Bin::Sub, w, &old, &x)?, Rmw::And => self.bin(Bin::And, w, &old, &x)?, Rmw::Or => self.bin(Bin::Or, w, &old, &x)?, Rmw::Xor => self.bin(Bin::Xor, w, &old, &x)?,
                        Rmw::Nand => { let t = self.bin(Bin::And, w, &old, &x)?; self.bin(Bin::Xor, w, &t, &Val::C(m64(w)))? }
                        Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => { let pr = match op { Rmw::Max => Pred::Sgt, Rmw::Min => Pred::Slt, Rmw::UMax => Pred::Ugt, _ => Pred::Ult }; let c = self.icmp(pr, w, &old, &x); self.select(&c, ty, old.clone(), x)? } };
                    self.store_ty(ty, a, &nv)?; self.set(*d, old);
                }
                Inst::Br { t } => { return self.goto(*t); }
                Inst::CondBr { c, t, f } => {
                    let cv = self.opv(c);
                    let b = match &cv { Val::C(k) => *k == 1, Val::S(e) => self.decide(*e)?, _ => return Err(Stop::Error("br".into())) };
                    return self.goto(if b { *t } else { *f });
                }
                Inst::Switch { ty, v, d, cases } => {
                    let x = self.opv(v);
                    match &x {
                        Val::C(k) => { let t = cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*d); return self.goto(t); }
                        Val::S(e) => {
                            // follow the model's target; other feasible targets are forked one by one
                            let e = *e; let w = ty.bits();
                            let k = match self.st.bound.get(&e) { Some(k) => *k, None => cx().eval(e, &self.st.model) as u64 };
                            let tgt = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                            let mut cond: Option<E> = None;
                            let neg = tgt == *d;
                            for (ck, ct) in cases { if (*ct == tgt) != neg { let ke = cx().cst(*ck as u128, w); let q = cx().bin(Op::Eq, e, ke); cond = Some(match cond { None => q, Some(p) => cx().bin(Op::Or, p, q) }); } }
                            let c = match cond { None => cx().cst(0, 1), Some(c) => c };
                            let c = if neg { cx().not1(c) } else { c };
                            let r = self.decide(c)?;
                            debug_assert!(r);
                            return self.goto(tgt);
                        }
                        _ => return Err(Stop::Error("switch".into())),
                    }
                }
                Inst::Ret { v } => { let x = v.as_ref().map(|o| self.opv(o)); return self.do_ret(x); }
                Inst::Unreachable => return Err(Stop::Error(format!("unreachable executed in {}", self.st.fr.f.name))),
                Inst::Nop => {}
                Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction in {}: {}", self.st.fr.f.name, s))),
                Inst::Call { d, c } => {
                    if self.call(*d, c)? { return Ok(()); }
                }
            }
            ip += 1;
        }
    }
    /// true when control moved to another frame, block or thread
    fn call(&mut self, d: Option<u32>, c: &CallI) -> R<bool> {
        let fi = match &c.callee {
            Callee::F(f) => *f,
            Callee::Asm => { if let Some(d) = d { let v = if c.args.len() == 1 { self.opv(&c.args[0].0) } else { P::zero(&c.ret) }; self.set(d, v); } return Ok(false); }
            Callee::R(o) => { let a = self.cv(o, 64)?; if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 { return Err(Stop::Error(format!("call through bad pointer {:#x}", a))); } ((a - FN_BASE) / 16) as u32 }
        };
        let decl = &self.m.fns[fi as usize];
        let mut kind = decl.kind.get();
        if kind == K_UNK { kind = crate::lib_model::classify(&decl.name, decl.body.is_some()); decl.kind.set(kind); }
        if kind == K_DEF {
            let args: Vec<Val> = c.args.iter().map(|a| self.opv(&a.0)).collect();
            self.enter(fi, args, d, c.normal)?;
            return Ok(true);
        }
        let r = self.builtin(kind, fi, c, d)?;
        match r {
            Done::Val(v) => { if let (Some(d), Some(v)) = (d, v) { self.set(d, v); } if let Some(n) = c.normal { self.goto(n)?; return Ok(true); } Ok(false) }
            Done::Moved => Ok(true),
        }
    }

    pub fn tape_vals(&self, st: &State) -> Vec<u64> { st.tape.iter().map(|t| match t { T::Num(n) => *n, T::Sym(id) => st.model.get(id).copied().unwrap_or(0) as u64 }).collect() }
    pub fn fresh(&mut self, w: u32) -> E {
        let k = self.st.nsym; self.st.nsym += 1;
        let n = self.symid.len() as u32;
        let id = *self.symid.entry((k, w)).or_insert(n);
        self.st.tape.push(T::Sym(id));
        cx().sym(id, w)
    }
    pub fn stack(&self) -> Vec<String> { let mut v = vec![self.st.fr.f.name.clone()]; for f in self.st.frames.iter().rev().take(40) { v.push(f.f.name.clone()); } v }
    fn record_viol(&mut self, kind: &str, msg: String, loc: String, model: Option<Rc<Model>>) {
        self.stats.nviol += 1;
        let saved = self.st.model.clone();
        if let Some(m) = model { self.st.model = m; }
        let tape = self.tape_vals(&self.st);
        self.st.model = saved;
        if self.stats.viol.len() < 8 { let v = Violation { kind: kind.into(), msg, loc, stack: self.stack(), tape, steps: self.st.steps }; self.stats.viol.push(v); }
    }
    fn finish(&mut self, s: Stop) {
        self.stats.insts += self.st.steps; // steps include the shared prefix of a fork
        self.stats.max_steps = self.stats.max_steps.max(self.st.steps);
        self.stats.max_pc = self.stats.max_pc.max(self.st.pc.len() as u64);
        self.stats.max_depth = self.stats.max_depth.max(self.st.depth as u64);
        match s {
            Stop::Infeasible => self.stats.infeasible += 1,
            Stop::End(o) => {
                self.stats.paths += 1;
                let take = self.stats.samples.len() < 4 || (self.stats.samples.len() < self.cfg.max_samples && self.stats.paths % self.cfg.sample_every == 0);
                if take {
                    let tape = self.tape_vals(&self.st);
                    let trace = self.st.trace.clone().iter().map(|(v, w)| { let e = self.e(v, *w); cx().eval(e, &self.st.model) as u64 }).collect();
                    self.stats.samples.push(Sample { tape, trace, outcome: o.into(), steps: self.st.steps });
                }
            }
            Stop::Viol { kind, msg, loc } => { self.stats.paths += 1; self.record_viol(kind, msg, loc, None); }
            Stop::Error(m) => { self.stats.paths += 1; if std::env::var("RSYM_DEBUG").is_ok() { eprintln!("rsym error: {}\n  {}", m, self.stack().join("\n  ")); } let top = self.stack().into_iter().take(6).collect::<Vec<_>>().join(" < "); *self.stats.errors.entry(format!("{} in {}", m, top)).or_insert(0) += 1; }
            Stop::Retry => unreachable!(),
        }
    }
    /// Run the current state to the end of its path.
    pub fn run_path(&mut self, poll: &mut dyn FnMut(&mut Exec<'m>) -> bool) -> bool {
        let mut n = 0u32;
        loop {
            let r = self.step();
            if let Err(s) = r { self.finish(s); return true; }
            if self.st.steps > self.cfg.max_steps { self.finish(Stop::Viol { kind: "hang", msg: format!("no result after {} steps", self.cfg.max_steps), loc: String::new() }); return true; }
            n += 1;
            if n & 0x3ff == 1 && !poll(self) { return false; }
        }
    }
}

pub fn add_pc(st: &mut State, c: E) {
    let n = cx().node(c);
    if n.op == Op::And && n.w == 1 { add_pc(st, n.a); add_pc(st, n.b); return; }
    if n.op == Op::Const { return; }
    if n.op == Op::Eq { if let Some(k) = cx().as_const(n.b) { let na = cx().node(n.a); if na.op == Op::Sym { st.fixed.insert(na.a, k); } } }
    if n.op == Op::Sym && n.w == 1 { st.fixed.insert(n.a, 1); }
    if n.op == Op::Xor && n.w == 1 && cx().as_const(n.b) == Some(1) && cx().node(n.a).op == Op::Sym { st.fixed.insert(cx().node(n.a).a, 0); }
    st.pc.push(c);
}
fn insert(x: &Val, ty: &Ty, e: &Val, idx: &[u32]) -> Val {
    let mut a = match x { Val::A(a) => (**a).clone(), _ => (0..ty.nfields()).map(|i| P::zero(&ty.field(i))).collect() };
    let i = idx[0] as usize;
    a[i] = if idx.len() == 1 { e.clone() } else { insert(&a[i], &ty.field(i), e, &idx[1..]) };
    Val::A(Rc::new(a))
}
pub enum Done { Val(Option<Val>), Moved }

include!("builtins.rs");
