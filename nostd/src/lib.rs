//! Built for a target that has no standard library (C14).
#![no_std]

use chf::{hmac, sha256, siphash24, HashEngine};

pub fn digest(x: &[u8]) -> [u8; 32] { sha256::Hash::hash(x).to_byte_array() }

pub fn mac(key: &[u8], x: &[u8]) -> hmac::Hash<32> {
    let mut e = hmac::Engine::<sha256::Engine>::new(key);
    e.input(x);
    hmac::Hash::from_engine(e)
}

pub fn sip(x: &[u8]) -> u64 { siphash24::Hash::hash_to_u64_with_keys(1, 2, x) }

pub fn text(h: &sha256::Hash, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    core::fmt::Display::fmt(h, f)
}

pub fn parse(s: &str) -> Option<sha256::Hash> { s.parse().ok() }

#[cfg(feature = "io")]
pub fn write(e: &mut sha256::Engine, x: &[u8]) -> bool {
    matches!(bitcoin_io::Write::write(e, x), Ok(n) if n == x.len())
}
