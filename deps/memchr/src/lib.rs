//! Plain-loop stand-in for the SIMD byte search serde_json uses (positions in error messages, `"` and `\` search).
#![no_std]
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> { h.iter().position(|&b| b == n) }
pub fn memchr2(n: u8, m: u8, h: &[u8]) -> Option<usize> { h.iter().position(|&b| b == n || b == m) }
pub fn memchr3(n: u8, m: u8, o: u8, h: &[u8]) -> Option<usize> { h.iter().position(|&b| b == n || b == m || b == o) }
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> { h.iter().rposition(|&b| b == n) }
pub fn memchr_iter<'a>(n: u8, h: &'a [u8]) -> impl Iterator<Item = usize> + 'a { h.iter().enumerate().filter(move |x| *x.1 == n).map(|x| x.0) }
