//! The few Kani primitives the contract harnesses use.  Under Kani they are Kani's own; in the
//! native build they draw from a byte source, so that a harness can be replayed on the values of
//! a verifier counterexample or driven by a seeded search, against the real code.
#![allow(dead_code)]

#[cfg(kani)]
pub use kani::{any, assume};
#[cfg(kani)]
pub fn any_or<T: kani::Arbitrary>(_likely: &[T]) -> T { any() }

#[cfg(not(kani))]
pub use native::*;

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    pub enum Src { Bytes(Vec<u8>, usize), Rng(u64, Vec<u8>) }
    thread_local! { pub static SRC: RefCell<Src> = RefCell::new(Src::Rng(1, vec![])); }
    pub struct Reject;
    pub fn splitmix(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn byte() -> u8 {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Bytes(v, p) => { let b = v.get(*p).copied().unwrap_or(0); *p += 1; b }
            Src::Rng(st, log) => {
                let r = splitmix(st);
                // favour boundary values
                let b = match r & 15 { 0 => 0, 1 => 0xFF, 2 => (r >> 8) as u8 & 3, 3 => 0x80, _ => (r >> 16) as u8 };
                log.push(b); b
            }
        })
    }
    pub trait Any: Sized { fn any() -> Self; }
    pub trait Int: Any + Copy { fn log(self, l: &mut Vec<u8>); }
    macro_rules! ints { ($($t:ty),*) => { $(impl Any for $t { fn any() -> Self {
        let mut b = [0u8; std::mem::size_of::<$t>()];
        for x in &mut b { *x = byte(); }
        <$t>::from_le_bytes(b)
    } } impl Int for $t { fn log(self, l: &mut Vec<u8>) { l.extend_from_slice(&self.to_le_bytes()) } })* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
    impl Any for bool { fn any() -> Self { byte() & 1 == 1 } }
    impl<T: Any, const N: usize> Any for [T; N] { fn any() -> Self { std::array::from_fn(|_| T::any()) } }
    pub fn any<T: Any>() -> T { T::any() }
    /// Any value; a search (not a replay) mostly picks one of the given likely values.
    pub fn any_or<T: Int>(likely: &[T]) -> T {
        let pick = SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Rng(st, log) => {
                let r = splitmix(st);
                if r & 7 == 0 || likely.is_empty() { None }
                else { let v = likely[(r >> 8) as usize % likely.len()]; v.log(log); Some(v) }
            }
            _ => None,
        });
        pick.unwrap_or_else(T::any)
    }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Reject); } }
}

/// A symbolic value reduced into `lo..=hi`: under Kani an assumption, natively a reduction
/// (so that a search does not reject) unless the value already lies in the range.
pub fn any_in_u(lo: usize, hi: usize) -> usize {
    let v: u16 = any();
    let v = usize::from(v);
    #[cfg(kani)]
    { assume(v >= lo && v <= hi); v }
    #[cfg(not(kani))]
    { if v >= lo && v <= hi { v } else { lo + v % (hi - lo + 1) } }
}
/// A symbolic sample in 0..=255.
pub fn any_sample() -> i16 { let v: u8 = any(); i16::from(v) }

#[macro_export]
macro_rules! vp_cover { ($c:expr) => { { #[cfg(kani)] kani::cover!($c); #[cfg(not(kani))] { let _ = $c; } } } }
