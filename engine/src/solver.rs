//! Feasibility queries over the expression DAG, decided by Z3 (QF_BV / QF_FPBV).
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P; fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P; fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P); fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P; fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P; fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("rsym: z3 error {}: {:?}", e, m);
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Ans { Unsat, Sat(Rc<Model>), Unknown }

pub struct Solver {
    c: P, simple: P,
    ast: HashMap<E, P, FxB>,
    cache: HashMap<Vec<E>, Ans, FxB>,
    pub queries: u64, pub hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub hard: u64,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut me = Solver { c, simple: s, ast: HashMap::with_hasher(FxB), cache: HashMap::with_hasher(FxB), queries: 0, hits: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, hard: 0, timeout_ms };
            let ft = std::env::var("RSYM_FIRST_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(60); me.set_timeout(s, ft);
            me
        }
    }
    unsafe fn set_timeout(&mut self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
    }
    /// width-1 expressions are translated to BV of width 1; `as_bool` converts.
    fn as_bool(&mut self, e: E) -> P {
        let n = cx().node(e);
        unsafe {
            match n.op {
                Op::Const => { if n.k == 1 { return Z3_mk_and(self.c, 0, std::ptr::null()); } else { return Z3_mk_or(self.c, 0, std::ptr::null()); } }
                Op::Eq if cx().w(n.a) == 1 => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_eq(self.c, a, b); }
                Op::Eq => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_eq(self.c, a, b); }
                Op::Ult => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_bvult(self.c, a, b); }
                Op::Ule => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_bvule(self.c, a, b); }
                Op::Slt => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_bvslt(self.c, a, b); }
                Op::Sle => { let a = self.tr(n.a); let b = self.tr(n.b); return Z3_mk_bvsle(self.c, a, b); }
                Op::And if n.w == 1 => { let v = [self.as_bool(n.a), self.as_bool(n.b)]; return Z3_mk_and(self.c, 2, v.as_ptr()); }
                Op::Or if n.w == 1 => { let v = [self.as_bool(n.a), self.as_bool(n.b)]; return Z3_mk_or(self.c, 2, v.as_ptr()); }
                Op::Xor if n.w == 1 => { if cx().as_const(n.b) == Some(1) { let a = self.as_bool(n.a); return Z3_mk_not(self.c, a); } let a = self.as_bool(n.a); let b = self.as_bool(n.b); return Z3_mk_xor(self.c, a, b); }
                Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => {
                    let w = cx().w(n.a); let a = self.fp(n.a, w); let b = self.fp(n.b, w);
                    return match n.op { Op::FOeq => Z3_mk_fpa_eq(self.c, a, b), Op::FOlt => Z3_mk_fpa_lt(self.c, a, b), Op::FOle => Z3_mk_fpa_leq(self.c, a, b),
                        _ => { let v = [Z3_mk_fpa_is_nan(self.c, a), Z3_mk_fpa_is_nan(self.c, b)]; Z3_mk_or(self.c, 2, v.as_ptr()) } };
                }
                _ => {}
            }
            let a = self.tr(e);
            let one = self.num(1, 1);
            Z3_mk_eq(self.c, a, one)
        }
    }
    unsafe fn fsort(&mut self, w: u32) -> P { if w == 32 { Z3_mk_fpa_sort(self.c, 8, 24) } else { Z3_mk_fpa_sort(self.c, 11, 53) } }
    unsafe fn fp(&mut self, e: E, w: u32) -> P { let b = self.tr(e); let s = self.fsort(w); Z3_mk_fpa_to_fp_bv(self.c, b, s) }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    fn tr(&mut self, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) { return p; }
        let n = cx().node(e);
        let w = n.w as u32;
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Sym => { let nm = CString::new(format!("s{}", n.a)).unwrap(); let s = Z3_mk_bv_sort(c, w); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => { let b = self.as_bool(e); let o = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(c, b, o, z) }
                Op::Ite => { let b = self.as_bool(n.a); let t = self.tr(n.b); let f = self.tr(n.c); Z3_mk_ite(c, b, t, f) }
                Op::ZExt => { let a = self.tr(n.a); Z3_mk_zero_ext(c, w - cx().w(n.a), a) }
                Op::SExt => { let a = self.tr(n.a); Z3_mk_sign_ext(c, w - cx().w(n.a), a) }
                Op::Extract => { let a = self.tr(n.a); Z3_mk_extract(c, n.b + w - 1, n.b, a) }
                Op::Concat => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_concat(c, a, b) }
                Op::Table => self.tr_table(n),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.fp(n.a, w); let b = self.fp(n.b, w); let rm = Z3_mk_fpa_round_nearest_ties_to_even(c);
                    let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FToF => { let a = self.fp(n.a, cx().w(n.a)); let s = self.fsort(w); let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_round_nearest_ties_to_even(c), a, s); Z3_mk_fpa_to_ieee_bv(c, r) }
                Op::SiToF => { let a = self.tr(n.a); let s = self.fsort(w); let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_round_nearest_ties_to_even(c), a, s); Z3_mk_fpa_to_ieee_bv(c, r) }
                Op::UiToF => { let a = self.tr(n.a); let s = self.fsort(w); let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_round_nearest_ties_to_even(c), a, s); Z3_mk_fpa_to_ieee_bv(c, r) }
                Op::FToSi => { let a = self.fp(n.a, cx().w(n.a)); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_round_toward_zero(c), a, w) }
                Op::FToUi => { let a = self.fp(n.a, cx().w(n.a)); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_round_toward_zero(c), a, w) }
                op => {
                    let a = self.tr(n.a); let b = self.tr(n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!("{:?}", op),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(self.c, p); }
        self.ast.insert(e, p);
        p
    }
    /// A read from constant memory: nested ite over runs of equal values.
    unsafe fn tr_table(&mut self, n: Node) -> P {
        let t = cx().tables[n.b as usize].clone();
        let w = n.w as u32; let iw = cx().w(n.a);
        let idx = self.tr(n.a);
        // only the indices the expression can take structurally matter (zext of a narrow value)
        let maxi = { let ni = cx().node(n.a); if ni.op == Op::ZExt { (1u128 << cx().w(ni.a).min(60)) as usize } else { t.vals.len() } };
        let len = t.vals.len().min(maxi.max(1));
        let mut runs: Vec<(usize, u64)> = vec![];
        for i in 0..len { if runs.last().map(|r| r.1) != Some(t.vals[i]) { runs.push((i, t.vals[i])); } }
        let mut acc = self.num(runs[0].1 as u128, w);
        for &(start, v) in &runs[1..] {
            let k = self.num(start as u128, iw);
            let lt = Z3_mk_bvult(self.c, idx, k);
            let vv = self.num(v as u128, w);
            acc = Z3_mk_ite(self.c, lt, acc, vv);
        }
        acc
    }
    fn get_model(&mut self, s: P, syms: &[u32]) -> Model {
        unsafe {
            let c = self.c;
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            let mut r = Model::with_hasher(FxB);
            for &id in syms {
                let w = cx().sym_w[id as usize] as u32;
                let e = cx().sym(id, w);
                let t = self.tr(e);
                let mut out: P = std::ptr::null_mut();
                if Z3_model_eval(c, m, t, true, &mut out) {
                    Z3_inc_ref(c, out);
                    let mut v64 = 0u64;
                    let v = if w <= 64 && Z3_get_numeral_uint64(c, out, &mut v64) { v64 as u128 } else { CStr::from_ptr(Z3_get_numeral_string(c, out)).to_str().unwrap().parse().unwrap_or(0) };
                    r.insert(id, v);
                    Z3_dec_ref(c, out);
                }
            }
            Z3_model_dec_ref(c, m);
            r
        }
    }
    /// Is the conjunction of `cs` satisfiable?  Returned model covers the symbols of `cs`.
    pub fn check(&mut self, mut cs: Vec<E>) -> Ans {
        cs.sort_unstable(); cs.dedup();
        cs.retain(|&e| cx().as_const(e) != Some(1));
        if cs.iter().any(|&e| cx().as_const(e) == Some(0)) { return Ans::Unsat; }
        if cs.is_empty() { return Ans::Sat(Rc::new(Model::with_hasher(FxB))); }
        if let Some(a) = self.cache.get(&cs) { self.hits += 1; return a.clone(); }
        let t0 = Instant::now();
        self.queries += 1;
        let mut syms: Vec<u32> = vec![];
        for &e in &cs { syms.extend(cx().support(e).iter()); }
        syms.sort_unstable(); syms.dedup();
        let (qs, residues) = by_residue(&cs);
        let asserts: Vec<P> = qs.iter().map(|&e| { let p = self.as_bool(e); unsafe { Z3_inc_ref(self.c, p); } p }).collect();
        let has_fp = has_fp(&cs);
        let mut ans = unsafe {
            let s = self.simple;
            Z3_solver_push(self.c, s);
            for &p in &asserts { Z3_solver_assert(self.c, s, p); }
            let r = Z3_solver_check(self.c, s);
            let a = match r { 1 => Ans::Sat(Rc::new(self.get_model(s, &syms))), -1 => Ans::Unsat, _ => Ans::Unknown };
            Z3_solver_pop(self.c, s, 1);
            match a {
                Ans::Unknown => {
                    self.hard += 1;
                    let l = CString::new(if has_fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                    let s2 = { Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr())) };
                    Z3_solver_inc_ref(self.c, s2);
                    self.set_timeout(s2, self.timeout_ms);
                    for &p in &asserts { Z3_solver_assert(self.c, s2, p); }
                    let r = Z3_solver_check(self.c, s2);
                    let a = match r { 1 => Ans::Sat(Rc::new(self.get_model(s2, &syms))), -1 => Ans::Unsat, _ => Ans::Unknown };
                    Z3_solver_dec_ref(self.c, s2);
                    a
                }
                a => a,
            }
        };
        for p in asserts { unsafe { Z3_dec_ref(self.c, p); } }
        match &ans { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, Ans::Unknown => self.unknown += 1 }
        self.time += t0.elapsed().as_secs_f64();
        if let Ok(f) = std::env::var("RSYM_SLOW") { if t0.elapsed().as_secs_f64() > f.parse::<f64>().unwrap_or(0.5) { eprintln!("slow query {:.2}s: {}", t0.elapsed().as_secs_f64(), cs.iter().map(|&e| cx().show(e, 8)).collect::<Vec<_>>().join("\n   ")); } }
        if let (Ans::Sat(m), false) = (&ans, residues.is_empty()) { let mut m = (**m).clone(); for (s, mk) in &residues { if let Some(v) = m.get_mut(s) { *v &= *mk; } } ans = Ans::Sat(Rc::new(m)); }
        // every model is re-evaluated against the constraints before it is believed
        if let Ans::Sat(m) = &ans {
            if cx().eval_all(&cs, m).iter().any(|&v| v != 1) {
                if !has_fp { eprintln!("rsym: internal: solver model does not satisfy its constraints"); std::process::exit(71); }
                self.sat -= 1; self.unknown += 1; ans = Ans::Unknown;
            }
        }
        self.cache.insert(cs, ans.clone());
        ans
    }
}
/// Does any constraint involve floating-point operations?
fn has_fp(cs: &[E]) -> bool {
    let mut seen: HashSet<E> = HashSet::new(); let mut st: Vec<E> = cs.to_vec();
    while let Some(e) = st.pop() {
        if !seen.insert(e) { continue; }
        let n = cx().node(e);
        match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno | Op::FToF | Op::SiToF | Op::UiToF | Op::FToSi | Op::FToUi => return true,
            Op::Const | Op::Sym => {}
            Op::ZExt | Op::SExt | Op::Extract | Op::Table => st.push(n.a),
            Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
            _ => { st.push(n.a); st.push(n.b); }
        }
    }
    false
}

/// A symbol that occurs only as its remainder by one constant c is as good as any number below c:
/// x % c becomes x & m with x & m < c (m the mask of c's width).  Returns the masks to apply to the model.
fn by_residue(cs: &[E]) -> (Vec<E>, Vec<(u32, u128)>) {
    let mut seen: HashSet<E, FxB> = HashSet::with_hasher(FxB); let mut st: Vec<E> = cs.to_vec();
    let mut rem: HashMap<E, Option<u128>, FxB> = HashMap::with_hasher(FxB); let mut any = false;
    while let Some(e) = st.pop() {
        if !seen.insert(e) { continue; }
        let n = cx().node(e);
        if n.op == Op::URem && cx().node(n.a).op == Op::Sym { if let Some(k) = cx().as_const(n.b) { if k > 1 { any = true; let r = rem.entry(n.a).or_insert(Some(k)); if *r != Some(k) { *r = None; } continue; } } }
        if n.op == Op::Sym { rem.insert(e, None); continue; }
        let (k, m) = cx().kids(&n); for i in 0..m { if cx().node(k[i]).op == Op::Sym { rem.insert(k[i], None); } else { st.push(k[i]); } }
    }
    if !any { return (cs.to_vec(), vec![]); }
    let mut map: HashMap<E, E, FxB> = HashMap::with_hasher(FxB); let mut out = vec![]; let mut extra = vec![];
    for (x, k) in rem { if let Some(k) = k {
        let w = cx().w(x); let mk = if k == 1 { 0 } else { mask(128 - (k - 1).leading_zeros()) };
        let (kc, mc) = (cx().cst(k, w), cx().cst(mk, w));
        let r = cx().bin(Op::URem, x, kc); let v = cx().bin(Op::And, x, mc);
        map.insert(r, v); extra.push(cx().bin(Op::Ult, v, kc)); out.push((cx().node(x).a, mk));
    } }
    if out.is_empty() { return (cs.to_vec(), vec![]); }
    let mut qs: Vec<E> = vec![];
    for &e in cs { match subst(e, &mut map) { Some(f) => qs.push(f), None => return (cs.to_vec(), vec![]) } }
    qs.extend(extra); (qs, out)
}
fn subst(e: E, map: &mut HashMap<E, E, FxB>) -> Option<E> {
    if let Some(&f) = map.get(&e) { return Some(f); }
    let n = cx().node(e); let w = n.w as u32;
    let r = match n.op {
        Op::Const | Op::Sym => e,
        Op::ZExt => { let a = subst(n.a, map)?; cx().zext(a, w) } Op::SExt => { let a = subst(n.a, map)?; cx().sext(a, w) } Op::Extract => { let a = subst(n.a, map)?; cx().extract(a, n.b, w) }
        Op::Concat => { let (a, b) = (subst(n.a, map)?, subst(n.b, map)?); cx().concat(a, b) }
        Op::Ite => { let (a, b, c) = (subst(n.a, map)?, subst(n.b, map)?, subst(n.c, map)?); cx().ite(a, b, c) }
        Op::Table | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno | Op::FToF | Op::SiToF | Op::UiToF | Op::FToSi | Op::FToUi => { let (k, m) = cx().kids(&n); for i in 0..m { if subst(k[i], map)? != k[i] { return None; } } e }
        op => { let (a, b) = (subst(n.a, map)?, subst(n.b, map)?); cx().bin(op, a, b) }
    };
    map.insert(e, r); Some(r)
}
