//! Shared specification pieces and Kani stubs (the stubs replace CPU detection and error-message
//! formatting only; both are listed as assumptions).
#![allow(dead_code)]
use crate::decoder::Decoder;
use crate::misc::{Aligned32, ColorSpace};

/// T.81 figure A.6: natural index of the k-th coefficient in zig-zag order.
pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
    47, 55, 62, 63,
];
pub fn fmt_stub(_: core::fmt::Arguments<'_>) -> String { String::new() }
fn conv(_: &[i16; 16], _: &[i16; 16], _: &[i16; 16], _: &mut [u8], _: &mut usize) {}
fn idct(_: &[i16], _: &Aligned32<[i32; 64]>, _: usize, _: usize, _: usize) -> Vec<i16> { Vec::new() }
pub fn choose_conv_stub(_: ColorSpace, _: bool) -> Option<crate::decoder::ColorConvert16Ptr> { Some(conv) }
pub fn choose_idct_stub(_: bool) -> crate::decoder::IDCTPtr { idct }
pub fn decoder() -> Decoder { Decoder::new() }

/// A reader over the first `n` bytes of `d` (the parsers are generic over their reader).
/// `calls` bounds the number of read_exact calls that can succeed: the data of longer streams is
/// assumed to end there (a stated bound of the harnesses that set it).
pub struct Rd<'a> { pub d: &'a [u8], pub n: usize, pub pos: usize, pub calls: usize,
    /// bytes of `d` that are constants of the harness
    pub pin: &'a [(usize, u8)] }
pub const ANY_CALLS: usize = usize::MAX;
impl<'a> std::io::Read for Rd<'a> {
    // The position advances by the requested length even when the data ends: it then lies past
    // the end for good, and it stays a constant for symbolic execution.
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (p, want) = (self.pos, b.len());
        self.pos = p + want;
        let mut got = 0;
        let mut i = 0;
        while i < want && p + i < self.d.len() {
            b[i] = self.at(p + i);
            if p + i < self.n { got += 1; }
            i += 1;
        }
        Ok(got)
    }
    // As with any reader the buffer's contents are unspecified after a failure.
    fn read_exact(&mut self, b: &mut [u8]) -> std::io::Result<()> {
        let (p, want) = (self.pos, b.len());
        self.pos = p + want;
        if self.calls == 0 {
            crate::vp_shim::assume(p + want > self.n);
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
        }
        self.calls -= 1;
        let mut i = 0;
        while i < want && p + i < self.d.len() { b[i] = self.at(p + i); i += 1; }
        if p + want > self.d.len() || p + want > self.n {
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
        }
        Ok(())
    }
}
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8], n: usize) -> Rd<'a> { Rd { d, n, pos: 0, calls: ANY_CALLS, pin: &[] } }
    fn at(&self, p: usize) -> u8 {
        let mut k = 0;
        while k < self.pin.len() { if self.pin[k].0 == p { return self.pin[k].1; } k += 1; }
        self.d[p]
    }
}
impl<'a> std::io::BufRead for Rd<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { Ok(&self.d[self.pos.min(self.n)..self.n]) }
    fn consume(&mut self, amt: usize) { self.pos += amt; }
}
