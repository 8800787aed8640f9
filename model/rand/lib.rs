//! Model of the `rand` API: every random draw is an arbitrary value.
#![allow(unused)]
pub trait RngCore { fn next_u32(&mut self) -> u32; fn next_u64(&mut self) -> u64; fn fill_bytes(&mut self, d: &mut [u8]); }
#[derive(Clone, Debug, Default)] pub struct ThreadRng { _p: () }
impl RngCore for ThreadRng { fn next_u32(&mut self) -> u32 { if vsym::fixed() { vsym::draw() as u32 } else { vsym::u32() } } fn next_u64(&mut self) -> u64 { vsym::draw() } fn fill_bytes(&mut self, d: &mut [u8]) { vsym::fill(d) } }
impl<R: RngCore + ?Sized> RngCore for &mut R { fn next_u32(&mut self) -> u32 { (**self).next_u32() } fn next_u64(&mut self) -> u64 { (**self).next_u64() } fn fill_bytes(&mut self, d: &mut [u8]) { (**self).fill_bytes(d) } }
pub fn thread_rng() -> ThreadRng { ThreadRng { _p: () } }
pub trait CryptoRng {}
pub mod distributions { pub mod uniform {
    pub trait SampleUniform: Sized + Copy { fn draw(lo: Self, hi: Self, incl: bool) -> Self; }
    macro_rules! su { ($($t:ty),*) => { $(impl SampleUniform for $t { fn draw(lo: $t, hi: $t, incl: bool) -> $t { if vsym::fixed() { let n = (hi.wrapping_sub(lo) as u64).wrapping_add(incl as u64); assert!(if incl { lo <= hi } else { lo < hi }, "empty range"); return lo.wrapping_add((if n == 0 { vsym::draw() } else { vsym::draw() % n }) as $t) } let v = vsym::draw() as $t; if incl { assert!(lo <= hi, "empty range"); vsym::assume(lo <= v && v <= hi); } else { assert!(lo < hi, "empty range"); vsym::assume(lo <= v && v < hi); } v } })* } }
    su!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    pub trait SampleRange<T> { fn pick(self) -> T; }
    impl<T: SampleUniform> SampleRange<T> for std::ops::Range<T> { fn pick(self) -> T { T::draw(self.start, self.end, false) } }
    impl<T: SampleUniform> SampleRange<T> for std::ops::RangeInclusive<T> { fn pick(self) -> T { T::draw(*self.start(), *self.end(), true) } }
}
    pub trait Arb { fn arb() -> Self; }
    macro_rules! ar { ($($t:ty),*) => { $(impl Arb for $t { fn arb() -> $t { vsym::draw() as $t } })* } }
    ar!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    impl Arb for bool { fn arb() -> bool { vsym::bool() } }
}
use distributions::{uniform::{SampleRange, SampleUniform}, Arb};
pub trait Rng: RngCore {
    fn gen<T: Arb>(&mut self) -> T { T::arb() }
    fn gen_range<T: SampleUniform, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, _p: f64) -> bool { vsym::bool() }
    fn gen_ratio(&mut self, _n: u32, _d: u32) -> bool { vsym::bool() }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub fn random<T: Arb>() -> T { T::arb() }
pub mod rngs { pub use crate::ThreadRng; }
pub mod seq { pub trait SliceRandom { type Item; fn choose<R: ?Sized + crate::Rng>(&self, r: &mut R) -> Option<&Self::Item>; }
    impl<T> SliceRandom for [T] { type Item = T; fn choose<R: ?Sized + crate::Rng>(&self, r: &mut R) -> Option<&T> { if self.is_empty() { None } else { let n = self.len(); Some(&self[r.gen_range(0..n)]) } } } }
pub mod prelude { pub use crate::{Rng, RngCore, ThreadRng, thread_rng, random, seq::SliceRandom}; }
