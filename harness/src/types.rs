//! One face for all the hash value types of the crate.

use core::fmt;
use core::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use core::str::FromStr;

use chf::{
    hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, FromSliceError,
};

use crate::engines::DynTag;

pub trait HT:
    Copy
    + Eq
    + Ord
    + core::hash::Hash
    + fmt::Debug
    + fmt::Display
    + fmt::LowerHex
    + fmt::UpperHex
    + FromStr
    + AsRef<[u8]>
    + 'static
{
    const NAME: &'static str;
    const N: usize;
    /// `hmac::Hash` formats by another route than the rest.
    const IS_HMAC: bool = false;
    const IS_MIDSTATE: bool = false;

    fn parse(s: &str) -> Result<Self, String>;
    fn from_arr(b: &[u8]) -> Self;
    fn from_slice_(b: &[u8]) -> Result<Self, FromSliceError>;
    fn to_arr(self) -> Vec<u8>;

    /// Every further way out, by name.
    fn ways_out(&self) -> Vec<(&'static str, Vec<u8>)>;
    /// Address of the bytes each borrowing way out gives, by name.
    fn borrows(&self) -> Vec<(&'static str, *const u8, usize)>;
    /// `from_bytes_ref`, then all the ways out of the reference; also its address.
    fn by_ref(b: &[u8]) -> Option<(Vec<(&'static str, Vec<u8>)>, bool)>;
    /// `from_bytes_mut`, then overwrite through the reference with `new`: what the array holds then,
    /// and what the reference read before; also whether it aliases the array.
    fn by_mut(b: &[u8], new: &[u8]) -> Option<(Vec<u8>, Vec<u8>, bool)>;
    fn zeros() -> Option<Self>;
    fn len_const() -> Option<usize>;

    fn at(&self, i: usize) -> u8;
    fn range(&self, r: Range<usize>) -> Vec<u8>;
    fn from(&self, r: RangeFrom<usize>) -> Vec<u8>;
    fn to(&self, r: RangeTo<usize>) -> Vec<u8>;
    fn full(&self) -> Vec<u8>;
    fn incl(&self, _r: RangeInclusive<usize>) -> Option<Vec<u8>> { None }
    fn to_incl(&self, _r: RangeToInclusive<usize>) -> Option<Vec<u8>> { None }
}

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}

macro_rules! common {
    ($n:expr) => {
        const N: usize = $n;
        fn parse(s: &str) -> Result<Self, String> {
            s.parse::<Self>().map_err(|e| format!("{} / {:?}", e, e))
        }
        fn from_arr(b: &[u8]) -> Self { Self::from_byte_array(arr::<{ $n }>(b)) }
        fn from_slice_(b: &[u8]) -> Result<Self, FromSliceError> { Self::from_slice(b) }
        fn to_arr(self) -> Vec<u8> { self.to_byte_array().to_vec() }
        fn at(&self, i: usize) -> u8 { self[i] }
        fn range(&self, r: Range<usize>) -> Vec<u8> { self[r].to_vec() }
        fn from(&self, r: RangeFrom<usize>) -> Vec<u8> { self[r].to_vec() }
        fn to(&self, r: RangeTo<usize>) -> Vec<u8> { self[r].to_vec() }
        fn full(&self) -> Vec<u8> { self[RangeFull].to_vec() }
    };
}

macro_rules! full {
    ($n:expr $(, $arr_ref:ident)?) => {
        fn ways_out(&self) -> Vec<(&'static str, Vec<u8>)> {
            #[allow(unused_mut)]
            let mut v = vec![
                ("as_byte_array", self.as_byte_array().to_vec()),
                ("as_bytes", self.as_bytes().to_vec()),
                ("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self).to_vec()),
            ];
            $( let _ = stringify!($arr_ref);
               v.push(("AsRef<[u8; N]>", AsRef::<[u8; $n]>::as_ref(self).to_vec())); )?
            #[cfg(any(feature = "alloc", feature = "std"))]
            v.push(("to_bytes", self.to_bytes()));
            v
        }
        fn borrows(&self) -> Vec<(&'static str, *const u8, usize)> {
            let mut v = vec![
                ("as_byte_array", self.as_byte_array().as_ptr(), self.as_byte_array().len()),
                ("as_bytes", self.as_bytes().as_ptr(), self.as_bytes().len()),
            ];
            let s: &[u8] = self.as_ref();
            v.push(("AsRef<[u8]>", s.as_ptr(), s.len()));
            v
        }
        fn by_ref(b: &[u8]) -> Option<(Vec<(&'static str, Vec<u8>)>, bool)> {
            // exactly sized heap memory, so that reading past it is visible to a sanitizer
            let a: Box<[u8; $n]> = Box::new(arr::<{ $n }>(b));
            let h = Self::from_bytes_ref(&a);
            let mut w = h.ways_out();
            w.push(("to_byte_array", h.to_arr()));
            w.push(("[..]", h.full()));
            let alias = h as *const Self as *const u8 == a.as_ptr()
                && h.as_bytes().as_ptr() == a.as_ptr()
                && core::mem::size_of::<Self>() == $n;
            Some((w, alias))
        }
        fn by_mut(b: &[u8], new: &[u8]) -> Option<(Vec<u8>, Vec<u8>, bool)> {
            let mut a: Box<[u8; $n]> = Box::new(arr::<{ $n }>(b));
            let p = a.as_ptr();
            let h = Self::from_bytes_mut(&mut a);
            let alias = h as *const Self as *const u8 == p;
            let before = h.to_arr();
            *h = Self::from_byte_array(arr::<{ $n }>(new));
            Some((a.to_vec(), before, alias))
        }
        fn zeros() -> Option<Self> { Some(Self::all_zeros()) }
    };
}

macro_rules! plain {
    ($($m:ident, $n:expr, $ty:ty);*) => { $(
        impl HT for $ty {
            const NAME: &'static str = stringify!($m);
            common!($n);
            full!($n, yes);
            fn len_const() -> Option<usize> { Some(Self::LEN) }
            fn incl(&self, r: RangeInclusive<usize>) -> Option<Vec<u8>> { Some(self[r].to_vec()) }
            fn to_incl(&self, r: RangeToInclusive<usize>) -> Option<Vec<u8>> { Some(self[r].to_vec()) }
        }
    )* };
}

plain!(
    sha1, 20, sha1::Hash;
    sha256, 32, sha256::Hash;
    sha384, 48, sha384::Hash;
    sha512, 64, sha512::Hash;
    sha512_256, 32, sha512_256::Hash;
    ripemd160, 20, ripemd160::Hash;
    siphash24, 8, siphash24::Hash;
    sha256t, 32, sha256t::Hash<DynTag>
);

macro_rules! hm {
    ($($n:expr),*) => { $(
        impl HT for hmac::Hash<$n> {
            const NAME: &'static str = concat!("hmac<", stringify!($n), ">");
            const IS_HMAC: bool = true;
            common!($n);
            full!($n);
            fn len_const() -> Option<usize> { None }
        }
    )* };
}
hm!(1, 8, 20, 32, 33, 48, 64, 100, 128, 129, 256, 300);

impl HT for sha256::Midstate {
    const NAME: &'static str = "sha256::Midstate";
    const IS_MIDSTATE: bool = true;
    common!(32);
    fn ways_out(&self) -> Vec<(&'static str, Vec<u8>)> {
        vec![("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self).to_vec()), (".0", self.0.to_vec())]
    }
    fn borrows(&self) -> Vec<(&'static str, *const u8, usize)> {
        let s: &[u8] = self.as_ref();
        vec![("AsRef<[u8]>", s.as_ptr(), s.len())]
    }
    fn by_ref(_: &[u8]) -> Option<(Vec<(&'static str, Vec<u8>)>, bool)> { None }
    fn by_mut(_: &[u8], _: &[u8]) -> Option<(Vec<u8>, Vec<u8>, bool)> { None }
    fn zeros() -> Option<Self> { Some(Self::default()) }
    fn len_const() -> Option<usize> { None }
    fn incl(&self, r: RangeInclusive<usize>) -> Option<Vec<u8>> { Some(self[r].to_vec()) }
    fn to_incl(&self, r: RangeToInclusive<usize>) -> Option<Vec<u8>> { Some(self[r].to_vec()) }
}

/// A generic check over a hash type.
pub trait TypeCase {
    type Out;
    fn run<H: HT>(self) -> Self::Out;
}

pub const N_TYPES: usize = 21;

pub fn with_type<C: TypeCase>(i: usize, c: C) -> C::Out {
    match i {
        0 => c.run::<sha1::Hash>(),
        1 => c.run::<sha256::Hash>(),
        2 => c.run::<sha384::Hash>(),
        3 => c.run::<sha512::Hash>(),
        4 => c.run::<sha512_256::Hash>(),
        5 => c.run::<ripemd160::Hash>(),
        6 => c.run::<siphash24::Hash>(),
        7 => c.run::<sha256t::Hash<DynTag>>(),
        8 => c.run::<sha256::Midstate>(),
        9 => c.run::<hmac::Hash<1>>(),
        10 => c.run::<hmac::Hash<8>>(),
        11 => c.run::<hmac::Hash<20>>(),
        12 => c.run::<hmac::Hash<32>>(),
        13 => c.run::<hmac::Hash<33>>(),
        14 => c.run::<hmac::Hash<48>>(),
        15 => c.run::<hmac::Hash<64>>(),
        16 => c.run::<hmac::Hash<100>>(),
        17 => c.run::<hmac::Hash<128>>(),
        18 => c.run::<hmac::Hash<129>>(),
        19 => c.run::<hmac::Hash<256>>(),
        _ => c.run::<hmac::Hash<300>>(),
    }
}
