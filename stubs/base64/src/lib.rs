//! Stand-in for base64 0.10: standard alphabet with padding.
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn encode<T: ?Sized + AsRef<[u8]>>(input: &T) -> String {
    let mut out = String::new();
    for c in input.as_ref().chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (u32::from(b[0]) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2]);
        for k in 0..4 {
            if k <= c.len() {
                out.push(A[((n >> (18 - 6 * k)) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}
pub fn decode<T: ?Sized + AsRef<[u8]>>(input: &T) -> Result<Vec<u8>, DecodeError> {
    let mut s = input.as_ref();
    let mut pad = 0;
    while pad < 2 && s.last() == Some(&b'=') {
        s = &s[..s.len() - 1];
        pad += 1;
    }
    if s.len() % 4 == 1 || (pad > 0 && (s.len() + pad) % 4 != 0) {
        return Err(DecodeError::InvalidLength);
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for (i, b) in s.iter().enumerate() {
        let v = A.iter().position(|a| a == b).ok_or(DecodeError::InvalidByte(i, *b))? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        return Err(DecodeError::InvalidLastSymbol(s.len() - 1, s[s.len() - 1]));
    }
    Ok(out)
}
