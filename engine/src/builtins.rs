// Modelled functions: LLVM intrinsics, the allocator, the few libc calls std makes, and the harness intrinsics.
use crate::lib_model::{of, B};

impl<'m> Exec<'m> {
    fn lanes(&mut self, c: &CallI, n: usize, f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> R<Val>) -> R<Val> {
        let args: Vec<Val> = c.args[..n].iter().map(|a| self.opv(&a.0)).collect();
        match &c.args[0].1 {
            Ty::Vec(k, t) => {
                let w = t.bits(); let mut r = vec![];
                for i in 0..*k as usize { let xs: Vec<Val> = args.iter().map(|a| match a { Val::A(v) => v[i].clone(), v => v.clone() }).collect(); r.push(f(self, w, &xs)?); }
                Ok(Val::A(Rc::new(r)))
            }
            t => { let w = t.bits(); f(self, w, &args) }
        }
    }
    fn overflow(&mut self, op: Bin, signed: bool, w: u32, a: &Val, b: &Val) -> R<Val> {
        let r = self.bin(op, w, a, b)?;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let o = if signed { let (x, y) = (sx(*x, w) as i128, sx(*y, w) as i128); let t = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y }; t < -(1i128 << (w - 1)) || t >= (1i128 << (w - 1)) }
                else { let (x, y) = (*x as u128, *y as u128); match op { Bin::Add => x + y > m64(w) as u128, Bin::Sub => x < y, _ => x * y > m64(w) as u128 } };
            return Ok(Val::A(Rc::new(vec![r, Val::C(o as u64)])));
        }
        let (x, y, re) = (self.e(a, w), self.e(b, w), self.e(&r, w));
        let cxx = cx();
        if w <= 64 {
            // decided by the operands' ranges?
            let fit = if signed { let (p, q) = (cxx.sr[x as usize], cxx.sr[y as usize]);
                let (lo, hi) = match op { Bin::Add => (p.0 + q.0, p.1 + q.1), Bin::Sub => (p.0 - q.1, p.1 - q.0), _ => { let v = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1]; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) } };
                let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                if lo >= mn && hi <= mx { Some(0) } else if lo > mx || hi < mn { Some(1) } else { None }
            } else { let (p, q) = (cxx.urange(x), cxx.urange(y)); match op { Bin::Add => if p.1 + q.1 <= mask(w) { Some(0) } else if p.0 + q.0 > mask(w) { Some(1) } else { None }, Bin::Sub => if p.0 >= q.1 { Some(0) } else if p.1 < q.0 { Some(1) } else { None }, _ => if p.1 * q.1 <= mask(w) { Some(0) } else if p.0 * q.0 > mask(w) { Some(1) } else { None } } };
            if let Some(o) = fit { return Ok(Val::A(Rc::new(vec![r, Val::C(o)]))); }
        }
        let o = match (op, signed) {
            (Bin::Add, false) => cxx.bin(Op::Ult, re, x),
            (Bin::Sub, false) => cxx.bin(Op::Ult, x, y),
            (Bin::Add, true) if w <= 64 && (cxx.ub[x as usize] <= mask(w - 1) || cxx.ub[y as usize] <= mask(w - 1)) => { // one side known non-negative
                let (x, y) = if cxx.ub[x as usize] <= mask(w - 1) { (x, y) } else { (y, x) };
                let z = cxx.cst(0, w); let mx = cxx.cst(mask(w - 1), w); let room = cxx.bin(Op::Sub, mx, x); let over = cxx.bin(Op::Ult, room, y); let neg = cxx.bin(Op::Slt, y, z); let pos = cxx.not1(neg); cxx.bin(Op::And, pos, over) }
            (Bin::Add, true) | (Bin::Sub, true) => { // overflow from the operands' and the result's signs
                let z = cxx.cst(0, w); let (sx, sy, sr) = (cxx.bin(Op::Slt, x, z), cxx.bin(Op::Slt, y, z), cxx.bin(Op::Slt, re, z));
                let ne = cxx.bin(Op::Xor, sx, sr); let d = cxx.bin(Op::Xor, sx, sy); let d = if op == Bin::Add { cxx.not1(d) } else { d };
                cxx.bin(Op::And, d, ne) }
            (_, s) => {
                if w > 64 { return Err(Stop::Error("wide symbolic mul overflow".into())); }
                // multiplication by a constant: compare against max / k
                if let (true, Some(k)) = (s && w <= 64, cxx.as_const(y).or(cxx.as_const(x)).map(|k| crate::expr::sext(k, w)).filter(|k| *k > 0)) {
                    let v = if cxx.as_const(y).is_some() { x } else { y };
                    let hi = cxx.cst((((1i128 << (w - 1)) - 1) / k) as u128, w); let lo = cxx.cst((-(1i128 << (w - 1)) / k) as u128, w);
                    let a = cxx.bin(Op::Slt, hi, v); let b = cxx.bin(Op::Slt, v, lo); cxx.bin(Op::Or, a, b)
                } else if let (false, Some(k)) = (s, cxx.as_const(y).or(cxx.as_const(x))) {
                    let v = if cxx.as_const(y).is_some() { x } else { y };
                    if k == 0 { cxx.cst(0, 1) } else { let lim = cxx.cst(mask(w) / k, w); cxx.bin(Op::Ult, lim, v) }
                } else {
                    let (a2, b2) = if s { (cxx.sext(x, 2 * w), cxx.sext(y, 2 * w)) } else { (cxx.zext(x, 2 * w), cxx.zext(y, 2 * w)) };
                    let t = cxx.bin(Op::Mul, a2, b2); let back = if s { cxx.sext(re, 2 * w) } else { cxx.zext(re, 2 * w) }; let e = cxx.bin(Op::Eq, t, back); cxx.not1(e)
                }
            }
        };
        let o = self.v(o);
        Ok(Val::A(Rc::new(vec![r, o])))
    }
    fn bitcount(&mut self, k: B, w: u32, a: &Val) -> R<Val> {
        match a {
            Val::C(x) => Ok(Val::C(match k { B::Ctlz => (*x).leading_zeros() as u64 - (64 - w as u64), B::Cttz => if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, B::Ctpop => x.count_ones() as u64,
                B::Bswap => x.swap_bytes() >> (64 - w), _ => x.reverse_bits() >> (64 - w) })),
            Val::W(x) => Ok(Self::cw(match k { B::Ctlz => (x.leading_zeros() - (128 - w)) as u128, B::Cttz => if **x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, B::Ctpop => x.count_ones() as u128, B::Bswap => x.swap_bytes() >> (128 - w), _ => x.reverse_bits() >> (128 - w) }, w)),
            Val::S(e) => {
                let c = cx(); let e = *e;
                let r = match k {
                    B::Bswap => { let mut acc = c.extract(e, w - 8, 8); let mut parts = vec![]; let mut i = w - 8; while i > 0 { i -= 8; parts.push(c.extract(e, i, 8)); } for p in parts { acc = c.concat(p, acc); } acc }
                    B::Bitrev => { let mut acc = c.extract(e, w - 1, 1); for i in (0..w - 1).rev() { let p = c.extract(e, i, 1); acc = c.concat(p, acc); } acc }
                    B::Ctpop => { let mut acc = c.cst(0, w); for i in 0..w { let b = c.extract(e, i, 1); let z = c.zext(b, w); acc = c.bin(Op::Add, acc, z); } acc }
                    B::Ctlz => { let mut acc = c.cst(w as u128, w); for i in 0..w { let b = c.extract(e, i, 1); let k = c.cst((w - 1 - i) as u128, w); acc = c.ite(b, k, acc); } acc }
                    _ => { let mut acc = c.cst(w as u128, w); for i in (0..w).rev() { let b = c.extract(e, i, 1); let k = c.cst(i as u128, w); acc = c.ite(b, k, acc); } acc }
                };
                Ok(self.v(r))
            }
            _ => Err(Stop::Error("bitcount".into())),
        }
    }
    fn memcmp_e(&mut self, a: u64, b: u64, n: u64, order: bool) -> R<E> {
        let z = cx().cst(0, 32);
        if n == 0 { return Ok(z); }
        let (oa, ia) = self.robj(a, n)?; let (ob, ib) = self.robj(b, n)?;
        let n = n as usize;
        if !order {
            let mut acc = cx().cst(1, 1);
            for i in 0..n {
                let (x, y) = (self.byte(&oa, ia + i), self.byte(&ob, ib + i));
                let q = cx().bin(Op::Eq, x, y);
                if cx().as_const(q) == Some(0) { return Ok(cx().cst(1, 32)); }
                acc = cx().bin(Op::And, acc, q);
            }
            let nz = cx().not1(acc); return Ok(cx().zext(nz, 32));
        }
        let mut acc = z;
        for i in (0..n).rev() {
            let (x, y) = (self.byte(&oa, ia + i), self.byte(&ob, ib + i));
            let c = cx();
            let q = c.bin(Op::Eq, x, y);
            let lt = c.bin(Op::Ult, x, y);
            let (m1, p1) = (c.cst(0xffff_ffff, 32), c.cst(1, 32));
            let d = c.ite(lt, m1, p1);
            acc = c.ite(q, acc, d);
        }
        Ok(acc)
    }
    fn alloc(&mut self, n: u64) -> R<u64> {
        if n > 0xff_fff0 { return Err(Stop::Viol { kind: "alloc", msg: format!("allocation of {} bytes", n), loc: String::new() }); }
        Ok((self.new_obj(n as usize) as u64) << OBJ_SHIFT)
    }
    fn realloc(&mut self, p: u64, n: u64) -> R<u64> {
        let q = self.alloc(n)?;
        if p != 0 {
            let id = (p >> OBJ_SHIFT) as u32;
            let o = match self.st.mem.get(&id) { Some(o) => o.clone(), None => return Err(self.memerr("realloc of invalid pointer", p, 0)) };
            self.copy(q, p, (o.data.len() as u64).min(n))?;
            self.st.mem.remove(&id);
        }
        Ok(q)
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let id = (p >> OBJ_SHIFT) as u32;
        if p & 0xff_ffff != 0 || self.st.mem.remove(&id).is_none() { return Err(self.memerr("invalid free", p, 0)); }
        Ok(())
    }
    fn arg(&mut self, c: &CallI, i: usize) -> R<u64> { let w = c.args[i].1.bits(); self.cv(&c.args[i].0, w) }
    fn location(&mut self, p: u64) -> String {
        let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) = (self.load_scalar(p, 64), self.load_scalar(p + 8, 64), self.load_scalar(p + 16, 32)) else { return String::new() };
        if n > 300 { return String::new(); }
        format!("{}:{}", self.read_cstr(f, n), l)
    }
    fn builtin(&mut self, kind: u32, fi: u32, c: &CallI, d: Option<u32>) -> R<Done> {
        let k = of(kind);
        let val = |v: u64| Ok(Done::Val(Some(Val::C(v))));
        match k {
            B::Nop => Ok(Done::Val(None)),
            B::Ident => { let v = self.opv(&c.args[0].0); Ok(Done::Val(Some(v))) }
            B::Memcpy => { let n = self.arg(c, 2)?; let dst = self.arg(c, 0)?; if n != 0 { let src = self.arg(c, 1)?; self.copy(dst, src, n)?; } val(dst) }
            B::Memset => {
                let n = self.arg(c, 2)?; let dst = self.arg(c, 0)?; let b = self.opv(&c.args[1].0);
                if n != 0 { match &b { Val::C(x) => { let x = *x as u8; let (o, off) = self.wobj(dst, n)?; o.data[off..off + n as usize].fill(x); if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); } } Val::S(e) => { let e = cx().extract(*e, 0, 8); let v = vec![e; n as usize]; self.store_bytes_sym(dst, &v)?; } _ => {} } }
                val(dst)
            }
            B::UMax | B::UMin | B::SMax | B::SMin => { let p = match k { B::UMax => Pred::Ugt, B::UMin => Pred::Ult, B::SMax => Pred::Sgt, _ => Pred::Slt }; let r = self.lanes(c, 2, &mut |s, w, a| { let q = s.icmp(p, w, &a[0], &a[1]); s.select(&q, &Ty::Int(w), a[0].clone(), a[1].clone()) })?; Ok(Done::Val(Some(r))) }
            B::Abs => { let r = self.lanes(c, 1, &mut |s, w, a| { let z = Self::cw(0, w); let q = s.icmp(Pred::Slt, w, &a[0], &z); let n = s.bin(Bin::Sub, w, &z, &a[0])?; s.select(&q, &Ty::Int(w), n, a[0].clone()) })?; Ok(Done::Val(Some(r))) }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = c.args[0].1.bits(); let (a, b) = (self.opv(&c.args[0].0), self.opv(&c.args[1].0));
                let (op, s) = match k { B::UAddO => (Bin::Add, false), B::USubO => (Bin::Sub, false), B::UMulO => (Bin::Mul, false), B::SAddO => (Bin::Add, true), B::SSubO => (Bin::Sub, true), _ => (Bin::Mul, true) };
                let r = if w > 64 && matches!((&a, &b), (Val::W(_), Val::W(_))) { let (Val::W(x), Val::W(y)) = (&a, &b) else { unreachable!() }; let (v, o) = match (op, s) { (Bin::Add, false) => x.overflowing_add(**y), (Bin::Sub, false) => x.overflowing_sub(**y), (Bin::Mul, false) => x.overflowing_mul(**y), (Bin::Add, true) => { let t = (**x as i128).overflowing_add(**y as i128); (t.0 as u128, t.1) } (Bin::Sub, true) => { let t = (**x as i128).overflowing_sub(**y as i128); (t.0 as u128, t.1) } _ => { let t = (**x as i128).overflowing_mul(**y as i128); (t.0 as u128, t.1) } }; Val::A(Rc::new(vec![Val::W(Rc::new(v)), Val::C(o as u64)])) }
                    else { self.overflow(op, s, w, &a, &b)? };
                Ok(Done::Val(Some(r)))
            }
            B::UAddSat | B::USubSat | B::SAddSat | B::SSubSat => {
                let r = self.lanes(c, 2, &mut |s, w, a| {
                    let (op, sg) = match k { B::UAddSat => (Bin::Add, false), B::USubSat => (Bin::Sub, false), B::SAddSat => (Bin::Add, true), _ => (Bin::Sub, true) };
                    let o = s.overflow(op, sg, w, &a[0], &a[1])?; let Val::A(p) = &o else { unreachable!() };
                    let lim = if !sg { Self::cw(if op == Bin::Add { mask(w) } else { 0 }, w) } else { let z = Self::cw(0, w); let neg = s.icmp(Pred::Slt, w, &a[0], &z); s.select(&neg, &Ty::Int(w), Self::cw(1u128 << (w - 1), w), Self::cw(mask(w - 1), w))? };
                    s.select(&p[1], &Ty::Int(w), lim, p[0].clone())
                })?; Ok(Done::Val(Some(r)))
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev => { let r = self.lanes(c, 1, &mut |s, w, a| s.bitcount(k, w, &a[0]))?; Ok(Done::Val(Some(r))) }
            B::Fshl | B::Fshr => {
                let r = self.lanes(c, 3, &mut |s, w, a| {
                    let sh = s.bin(Bin::URem, w, &a[2], &Self::cw(w as u128, w))?;
                    let inv = s.bin(Bin::Sub, w, &Self::cw(w as u128, w), &sh)?;
                    let (l, r2) = if k == B::Fshl { (sh.clone(), inv) } else { (inv, sh.clone()) };
                    let x = s.bin(Bin::Shl, w, &a[0], &l)?; let y = s.bin(Bin::LShr, w, &a[1], &r2)?;
                    s.bin(Bin::Or, w, &x, &y)
                })?; Ok(Done::Val(Some(r)))
            }
            B::UCmp | B::SCmp => {
                let (w, rw) = (c.args[0].1.bits(), c.ret.bits()); let (a, b) = (self.opv(&c.args[0].0), self.opv(&c.args[1].0));
                let (lt, gt) = if k == B::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a, &b); let g = self.icmp(gt, w, &a, &b);
                let t = self.select(&g, &Ty::Int(rw), Self::cw(1, rw), Self::cw(0, rw))?;
                let r = self.select(&l, &Ty::Int(rw), Self::cw(mask(rw), rw), t)?;
                Ok(Done::Val(Some(r)))
            }
            B::IsConst => val(0),
            B::ObjSize => val(u64::MAX & m64(c.ret.bits())),
            B::Trap => { let loc = String::new(); Err(Stop::Viol { kind: "abort", msg: "process abort".into(), loc }) }
            B::PtrMask => { let (a, b) = (self.opv(&c.args[0].0), self.opv(&c.args[1].0)); let r = self.bin(Bin::And, 64, &a, &b)?; Ok(Done::Val(Some(r))) }
            B::RAdd | B::ROr | B::RAnd | B::RXor | B::RUMax | B::RUMin | B::RMul => {
                let a = self.opv(&c.args[0].0); let w = c.ret.bits(); let Val::A(v) = &a else { return Err(Stop::Error("reduce".into())) };
                let mut acc = v[0].clone();
                for x in &v[1..] { acc = match k { B::RAdd => self.bin(Bin::Add, w, &acc, x)?, B::ROr => self.bin(Bin::Or, w, &acc, x)?, B::RAnd => self.bin(Bin::And, w, &acc, x)?, B::RXor => self.bin(Bin::Xor, w, &acc, x)?, B::RMul => self.bin(Bin::Mul, w, &acc, x)?, _ => { let q = self.icmp(if k == B::RUMax { Pred::Ugt } else { Pred::Ult }, w, &acc, x); self.select(&q, &Ty::Int(w), acc.clone(), x.clone())? } }; }
                Ok(Done::Val(Some(acc)))
            }
            B::LoadRel => {
                let p = self.arg(c, 0)?; let off = self.opv(&c.args[1].0);
                let off = self.conc(&off, c.args[1].1.bits())?;
                let Val::C(r) = self.load_scalar(p.wrapping_add(off), 32)? else { return Err(Stop::Error("load.relative".into())) };
                let r = sx(r, 32); val(p.wrapping_add(((r >> 12) << 24) as u64).wrapping_add((r & 0xfff) as u64))
            }
            B::FAbs => { let r = self.lanes(c, 1, &mut |s, w, a| s.bin(Bin::And, w, &a[0], &Val::C(m64(w - 1))))?; Ok(Done::Val(Some(r))) }
            B::FSqrt | B::FFloor | B::FCeil | B::FTrunc | B::FRint | B::FRound => {
                let w = c.args[0].1.bits(); let x = self.arg(c, 0)?; let f = f_of(x as u128, w);
                let r = match k { B::FSqrt => f.sqrt(), B::FFloor => f.floor(), B::FCeil => f.ceil(), B::FTrunc => f.trunc(), B::FRound => f.round(), _ => f.round_ties_even() };
                val(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
            }
            B::CopySign => { let w = c.args[0].1.bits(); let (a, b) = (self.opv(&c.args[0].0), self.opv(&c.args[1].0)); let x = self.bin(Bin::And, w, &a, &Val::C(m64(w - 1)))?; let y = self.bin(Bin::And, w, &b, &Val::C(1 << (w - 1)))?; let r = self.bin(Bin::Or, w, &x, &y)?; Ok(Done::Val(Some(r))) }
            B::Fma => Err(Stop::Error("fma".into())),
            B::FpToSiSat | B::FpToUiSat => {
                let (w, rw) = (c.args[0].1.bits(), c.ret.bits()); let x = self.arg(c, 0)?; let f = f_of(x as u128, w);
                let r = if f.is_nan() { 0 } else if k == B::FpToUiSat { if f <= 0.0 { 0 } else if f >= (mask(rw) as f64) { mask(rw) } else { f as u128 } } else { let hi = (1i128 << (rw - 1)) - 1; let lo = -(1i128 << (rw - 1)); let v = f as i128; (v.clamp(lo, hi) as u128) & mask(rw) };
                Ok(Done::Val(Some(Self::cw(r, rw))))
            }
            B::Bcmp | B::Memcmp => { let n = self.arg(c, 2)?; let (a, b) = (self.arg(c, 0)?, self.arg(c, 1)?); let r = self.memcmp_e(a, b, n, k == B::Memcmp)?; let v = self.v(r); Ok(Done::Val(Some(v))) }
            B::Strlen => { let p = self.arg(c, 0)?; let (o, off) = self.robj(p, 1)?; let mut i = off; loop { if i >= o.data.len() { return Err(self.memerr("strlen", p, 0)); } if !o.sym.is_empty() && o.sym[i] != 0 { return Err(Stop::Error("strlen of symbolic bytes".into())); } if o.data[i] == 0 { break; } i += 1; } val((i - off) as u64) }
            B::Memchr | B::Memrchr => {
                let n = self.arg(c, 2)?; let p = self.arg(c, 0)?; let b = self.opv(&c.args[1].0);
                if n == 0 { return val(0); }
                let be = self.e(&b, c.args[1].1.bits()); let be = cx().extract(be, 0, 8);
                let (o, off) = self.robj(p, n)?;
                let mut acc = cx().cst(0, 64);
                let idx: Vec<usize> = if k == B::Memchr { (0..n as usize).rev().collect() } else { (0..n as usize).collect() };
                for i in idx { let x = self.byte(&o, off + i); let q = cx().bin(Op::Eq, x, be); let a = cx().cst((p + i as u64) as u128, 64); acc = cx().ite(q, a, acc); }
                let v = self.v(acc); Ok(Done::Val(Some(v)))
            }
            B::Alloc | B::AllocZ | B::Malloc => { let n = self.arg(c, 0)?; let p = self.alloc(n)?; val(p) }
            B::Calloc => { let n = self.arg(c, 0)?.saturating_mul(self.arg(c, 1)?); let p = self.alloc(n)?; val(p) }
            B::AAlloc => { let n = self.arg(c, 1)?; let p = self.alloc(n)?; val(p) }
            B::PMemalign => { let n = self.arg(c, 2)?; let q = self.arg(c, 0)?; let p = self.alloc(n)?; self.store_scalar(q, 64, &Val::C(p))?; val(0) }
            B::ReallocC => { let n = self.arg(c, 1)?; let p = self.arg(c, 0)?; let r = self.realloc(p, n)?; val(r) }
            B::Realloc => { let n = self.arg(c, 3)?; let p = self.arg(c, 0)?; let r = self.realloc(p, n)?; val(r) }
            B::Dealloc | B::Free => { let p = self.arg(c, 0)?; self.free(p)?; Ok(Done::Val(None)) }
            B::Write => { let n = self.opv(&c.args[2].0); Ok(Done::Val(Some(n))) }
            B::WriteV => { let (p, n) = (self.arg(c, 1)?, self.arg(c, 2)?); let mut t = 0; for i in 0..n { if let Val::C(l) = self.load_scalar(p + i * 16 + 8, 64)? { t += l; } } val(t) }
            B::Zero => val(0), B::One => val(1), B::Page => val(4096),
            B::Syscall => val(u64::MAX),
            B::Errno => { let id = 0xff00u32; if !self.st.mem.contains_key(&id) { self.st.mem.insert(id, Rc::new(Obj { data: vec![0; 8], sym: vec![] })); } val((id as u64) << OBJ_SHIFT) }
            B::Exit => Err(Stop::End("exit")),
            B::Extern => Err(Stop::Error(format!("call to unmodelled function {}", self.m.fns[fi as usize].name))),
            B::PanicFmt | B::PanicHook => {
                let n = c.args.len();
                let mut loc = String::new();
                for i in (0..n).rev() { if c.args[i].1 == Ty::Ptr { if let Val::C(p) = self.opv(&c.args[i].0) { let l = self.location(p); if l.contains(".rs") { loc = l; break; } if k == B::PanicFmt { if let Ok(Val::C(q)) = self.load_scalar(p + 8, 64) { let l = self.location(q); if l.contains(".rs") { loc = l; break; } } if let Ok(Val::C(q)) = self.load_scalar(p + 16, 64) { let l = self.location(q); if l.contains(".rs") { loc = l; break; } } } } } }
                Err(Stop::Viol { kind: "panic", msg: "panic".into(), loc })
            }
            B::SymBits => { let w = self.arg(c, 0)? as u32; let s = self.fresh(w); let e = cx().zext(s, 64); let v = self.v(e); Ok(Done::Val(Some(v))) }
            B::SymBytes => { let (p, n) = (self.arg(c, 0)?, self.arg(c, 1)?); let mut v = vec![]; for _ in 0..n { v.push(self.fresh(8)); } if n > 0 { self.store_bytes_sym(p, &v)?; } Ok(Done::Val(None)) }
            B::SymChoice => {
                let n = self.arg(c, 0)?;
                if n == 0 { return Err(Stop::Error("sym_choice(0)".into())); }
                self.st.fr.ip += 1;
                if n > 1 {
                    for i in (1..n).rev() { let mut alt = self.st.clone(); alt.tape.push(T::Num(i)); if let Some(d) = d { alt.fr.regs[d as usize] = Val::C(i); } self.stats.forks += 1; if self.profile { *self.prof.entry((self.st.fr.f.idx, self.st.fr.block)).or_insert(0) += 1; } self.work.push(alt); }
                    self.st.tape.push(T::Num(0));
                }
                if let Some(d) = d { self.set(d, Val::C(0)); }
                Ok(Done::Moved)
            }
            B::SymAssume => {
                let v = self.opv(&c.args[0].0); let w = c.args[0].1.bits();
                let ok = match &v { Val::C(x) => *x != 0, Val::S(e) => {
                    let z = cx().cst(0, w); let q = cx().bin(Op::Eq, *e, z); let q = cx().not1(q);
                    if cx().as_const(q) == Some(0) { false } else if cx().as_const(q) == Some(1) { true }
                    else if cx().eval(q, &self.st.model) == 1 { self.add_pc(q); true }
                    else { match self.sat_with(q)? { Some(m) => { self.st.model = m; self.add_pc(q); true } None => false } } }
                    _ => true };
                if ok { Ok(Done::Val(None)) } else { Err(Stop::Infeasible) }
            }
            B::SymAssert => {
                let v = self.opv(&c.args[0].0); let w = c.args[0].1.bits();
                self.stats.asserts += 1;
                let (mp, ml) = (self.arg(c, 1)?, self.arg(c, 2)?);
                match &v {
                    Val::C(0) => { let msg = self.read_cstr(mp, ml); Err(Stop::Viol { kind: "assert", msg, loc: String::new() }) }
                    Val::C(_) => Ok(Done::Val(None)),
                    Val::S(e) => {
                        let z = cx().cst(0, w); let bad = cx().bin(Op::Eq, *e, z); let good = cx().not1(bad);
                        self.stats.assert_q += 1;
                        let mb = if cx().eval(bad, &self.st.model) == 1 { Some(self.st.model.clone()) } else { self.sat_with(bad)? };
                        if let Some(mb) = mb {
                            let msg = self.read_cstr(mp, ml);
                            self.record_viol("assert", msg, String::new(), Some(mb));
                            match if cx().eval(good, &self.st.model) == 1 { Some(self.st.model.clone()) } else { self.sat_with(good)? } { Some(m) => { self.st.model = m; self.add_pc(good); } None => return Err(Stop::End("assert-failed")) }
                        }
                        Ok(Done::Val(None))
                    }
                    _ => Err(Stop::Error("assert arg".into())),
                }
            }
            B::SymMaybe => { // 1 if the condition can be true on this path (no fork): used by oracles that only need a hint
                let v = self.opv(&c.args[0].0); val(match v { Val::C(x) => (x != 0) as u64, _ => 1 })
            }
            B::SymReach => { let id = self.arg(c, 0)?; *self.stats.reach.entry(id).or_insert(0) += 1; Ok(Done::Val(None)) }
            B::SymTrace => { let v = self.opv(&c.args[0].0); self.st.trace.push((v, c.args[0].1.bits())); Ok(Done::Val(None)) }
            B::SymConc => { let w = c.args[0].1.bits(); let k = self.cv(&c.args[0].0, w)?; val(k) }
            B::SymParam => { let i = self.arg(c, 0)?; let v = self.cfg.params.get(i as usize).copied().unwrap_or(0); val(v) }
            B::SymFail => { let (mp, ml) = (self.arg(c, 0)?, self.arg(c, 1)?); let msg = self.read_cstr(mp, ml); Err(Stop::Viol { kind: "assert", msg, loc: String::new() }) }
            B::SymEnd => Err(Stop::End("ok")),
            B::SymSteps => { let s = self.st.steps; val(s) }
            B::SymDebug => { let (mp, ml) = (self.arg(c, 0)?, self.arg(c, 1)?); if std::env::var("RSYM_TRACE").is_ok() { let s = self.read_cstr(mp, ml); eprintln!("[dbg t{} now {}] {} tape {:?}", self.st.tid, self.st.now, s, self.st.tape.iter().map(|t| match t { T::Num(n) => n.to_string(), T::Sym(i) => format!("s{}", i) }).collect::<Vec<_>>()); } Ok(Done::Val(None)) }
            B::SymNow => { let n = self.st.now; val(n) }
            B::SymAdvance => { let n = self.arg(c, 0)?; self.st.now = self.st.now.saturating_add(n); Ok(Done::Val(None)) }
            B::SymTid => { let n = self.st.tid as u64; val(n) }
            B::SymDone => { let t = self.arg(c, 0)? as usize; let v = (self.st.threads[t].st == TS::Done) as u64; val(v) }
            B::SymTimedOut => { let t = self.st.tid; let v = self.st.threads[t].timed_out as u64; val(v) }
            B::SymSched => { let (b, f) = (self.arg(c, 0)?, self.arg(c, 1)?); if b != u64::MAX { self.st.budget = b; } self.st.sflags = f; Ok(Done::Val(None)) }
            B::SymSpawn => {
                let f = self.arg(c, 0)?; let a = self.opv(&c.args[1].0);
                let func = self.m.func(((f - FN_BASE) / 16) as u32);
                let mut fr = self.mk_frame(func, None, None);
                let r = fr.f.arg_regs[0]; fr.regs[r as usize] = a;
                let t = self.st.threads.len();
                self.st.threads.push(Thread { frames: vec![], cur: Some(Rc::new(fr)), st: TS::Run, timed_out: false });
                val(t as u64)
            }
            B::SymWake => { let ch = self.arg(c, 0)?; self.wake(ch); Ok(Done::Val(None)) }
            B::SymYield => { self.st.fr.ip += 1; if self.st.threads.len() > 1 { self.schedule()?; } Ok(Done::Moved) }
            B::SymWait => {
                let (ch, ns) = (self.arg(c, 0)?, self.arg(c, 1)?);
                self.st.fr.ip += 1;
                let t = self.st.tid; let until = if ns == NEVER { NEVER } else { self.st.now.saturating_add(ns) };
                self.st.threads[t].st = TS::Wait(ch, until); self.st.threads[t].timed_out = false;
                self.schedule()?;
                Ok(Done::Moved)
            }
            B::Undef0 | B::Undef1 => unreachable!(),
        }
    }
}
