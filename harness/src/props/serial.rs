//! C11 serde, C12 JSON schemas.
#![cfg(feature = "serde")]

use core::fmt;
use core::ops::{Index, RangeFull};
use core::str::FromStr;
use std::collections::{BTreeMap, HashMap};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};
use serde::de::value::{BorrowedBytesDeserializer, BorrowedStrDeserializer};
use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde::Serialize;

use crate::engines::DynTag;
use crate::props::hashing::expect;
use crate::props::value::gen_value;
use crate::runner::{catch, Cx, Res};
use crate::src::{hexs, show, Src};
use crate::types::HT;

/// A serialisable hash value.
pub trait ST: Serialize + DeserializeOwned + Copy + Ord + core::hash::Hash + fmt::Debug + 'static {
    const NAME: &'static str;
    const N: usize;
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
}

impl<T: HT + Serialize + DeserializeOwned> ST for T {
    const NAME: &'static str = <T as HT>::NAME;
    const N: usize = <T as HT>::N;
    fn of(b: &[u8]) -> Self { <T as HT>::from_arr(b) }
    fn bytes(&self) -> Vec<u8> { self.to_arr() }
}

/// A type of the user's own, with the crate's exported macro.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct UserHash([u8; 7]);

impl UserHash {
    fn from_slice(sl: &[u8]) -> Result<Self, chf::FromSliceError> {
        if sl.len() == 7 {
            let mut a = [0; 7];
            a.copy_from_slice(sl);
            Ok(UserHash(a))
        } else {
            // the error has no public constructor
            Err(sha1::Hash::from_slice(&vec![0; 21]).unwrap_err())
        }
    }
}
impl fmt::Display for UserHash {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&hexs(&self.0)) }
}
impl FromStr for UserHash {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        unhex(s).filter(|v| v.len() == 7).map(|v| UserHash::of(&v)).ok_or("bad".to_string())
    }
}
impl Index<usize> for UserHash {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 { &self.0[i] }
}
impl Index<RangeFull> for UserHash {
    type Output = [u8];
    fn index(&self, _: RangeFull) -> &[u8] { &self.0 }
}
chf::serde_impl!(UserHash, 7);

impl ST for UserHash {
    const NAME: &'static str = "user newtype";
    const N: usize = 7;
    fn of(b: &[u8]) -> Self {
        let mut a = [0; 7];
        a.copy_from_slice(b);
        UserHash(a)
    }
    fn bytes(&self) -> Vec<u8> { self.0.to_vec() }
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    b.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}

pub trait SerCase {
    type Out;
    fn run<H: ST>(self) -> Self::Out;
}

pub const N_STYPES: usize = 20;

pub fn with_stype<C: SerCase>(i: usize, c: C) -> C::Out {
    match i {
        0 => c.run::<sha1::Hash>(),
        1 => c.run::<sha256::Hash>(),
        2 => c.run::<sha384::Hash>(),
        3 => c.run::<sha512::Hash>(),
        4 => c.run::<sha512_256::Hash>(),
        5 => c.run::<ripemd160::Hash>(),
        6 => c.run::<siphash24::Hash>(),
        7 => c.run::<sha256t::Hash<DynTag>>(),
        8 => c.run::<sha256::Midstate>(),
        9 => c.run::<hmac::Hash<1>>(),
        10 => c.run::<hmac::Hash<8>>(),
        11 => c.run::<hmac::Hash<20>>(),
        12 => c.run::<hmac::Hash<32>>(),
        13 => c.run::<hmac::Hash<33>>(),
        14 => c.run::<hmac::Hash<48>>(),
        15 => c.run::<hmac::Hash<64>>(),
        16 => c.run::<hmac::Hash<100>>(),
        17 => c.run::<hmac::Hash<128>>(),
        18 => c.run::<UserHash>(),
        _ => c.run::<hmac::Hash<300>>(),
    }
}

// ---- a deserializer that delivers what we choose ----------------------------------------------

#[derive(Clone, Debug)]
enum Tok {
    Str(String),
    BorrowedStr(String),
    String(String),
    Bytes(Vec<u8>),
    BorrowedBytes(Vec<u8>),
    ByteBuf(Vec<u8>),
    U8Seq(Vec<u8>),
    U64(u64),
    I64(i64),
    F64(f64),
    Bool(bool),
    Char(char),
    Unit,
    None,
    SomeStr(String),
    Map,
    Newtype(String),
}

#[derive(Debug)]
struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) }
}

struct D<'a>(&'a Tok, bool);

impl<'de> Deserializer<'de> for D<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.1 }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tok::Str(s) => v.visit_str(s),
            Tok::BorrowedStr(s) => v.visit_borrowed_str(s),
            Tok::String(s) => v.visit_string(s.clone()),
            Tok::Bytes(s) => v.visit_bytes(s),
            Tok::BorrowedBytes(s) => v.visit_borrowed_bytes(s),
            Tok::ByteBuf(s) => v.visit_byte_buf(s.clone()),
            Tok::U8Seq(s) => v.visit_seq(de::value::SeqDeserializer::new(s.iter().copied())),
            Tok::U64(x) => v.visit_u64(*x),
            Tok::I64(x) => v.visit_i64(*x),
            Tok::F64(x) => v.visit_f64(*x),
            Tok::Bool(x) => v.visit_bool(*x),
            Tok::Char(x) => v.visit_char(*x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::SomeStr(s) => v.visit_some(s.as_str().into_deserializer()),
            Tok::Map => v.visit_map(de::value::MapDeserializer::new(
                core::iter::once(("a".to_string(), 1u8)),
            )),
            Tok::Newtype(s) => v.visit_newtype_struct(s.as_str().into_deserializer()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Delivers a text or (without one) bytes that are not to be copied.
struct Far {
    b: &'static [u8],
    s: Option<&'static str>,
    borrowed: bool,
}

impl<'de> Deserializer<'de> for Far {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.s.is_some() }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match (self.s, self.borrowed) {
            (Some(s), false) => v.visit_str(s),
            (Some(s), true) => v.visit_borrowed_str(s),
            (None, false) => v.visit_bytes(self.b),
            (None, true) => v.visit_borrowed_bytes(self.b),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ---- C11 -------------------------------------------------------------------------------------

pub const C11_RULE: &str = "A case is a type (19 of the crate's and a user type made with serde_impl!), a value, and one of: a round trip through serde_json, bincode and CBOR, alone and inside a tuple, Vec, Option and map (as key and as value), \
with the exact encoded form checked; or a malformed item: a hex string damaged in length or character, byte strings of another length (0..=2N+2 swept), truncated or extended encodings, arbitrary bytes given to each format, \
and values of every other kind of serde's data model delivered by a deserializer of the harness with is_human_readable both ways. Oracle: accepted exactly if it is 2N hex digits (human-readable) or N bytes (binary), and then the value spelt. \
Non-trivial: value not all zero, or a malformed item; distinct by choice sequence.";

pub fn c11(src: &mut Src, cx: &mut Cx) -> Res {
    let t = src.n(N_STYPES - 1);
    with_stype(t, C11(src, cx))
}

struct C11<'a>(&'a mut Src, &'a mut Cx);
impl<'a> SerCase for C11<'a> {
    type Out = Res;
    fn run<H: ST>(self) -> Res {
        self.1.label(H::NAME);
        c11_type::<H>(self.0, self.1).map_err(|e| format!("{}: {}", H::NAME, e))
    }
}

fn same<T: PartialEq + fmt::Debug>(what: &str, got: Result<T, String>, want: &T) -> Res {
    match got {
        Ok(g) if g == *want => Ok(()),
        r => Err(format!("{}: got {:?}, want {:?}", what, r, want)),
    }
}

fn es<T, X: fmt::Display>(r: Result<T, X>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
fn ed<T, X: fmt::Debug>(r: Result<T, X>) -> Result<T, String> { r.map_err(|e| format!("{:?}", e)) }

fn cbor<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    ed(ciborium::into_writer(t, &mut v))?;
    Ok(v)
}

fn everywhere<T: Serialize + DeserializeOwned + PartialEq + fmt::Debug>(what: &str, t: &T) -> Res {
    let j = es(serde_json::to_string(t)).map_err(|e| format!("{}: to JSON: {}", what, e))?;
    same(&format!("{} from JSON {}", what, j), es(serde_json::from_str::<T>(&j)), t)?;
    same(&format!("{} from JSON bytes", what), es(serde_json::from_slice::<T>(j.as_bytes())), t)?;
    same(&format!("{} from a JSON reader", what), es(serde_json::from_reader::<_, T>(j.as_bytes())), t)?;
    let v = es(serde_json::to_value(t)).map_err(|e| format!("{}: to JSON value: {}", what, e))?;
    same(&format!("{} from a JSON value", what), es(serde_json::from_value::<T>(v)), t)?;
    let b = es(bincode::serialize(t)).map_err(|e| format!("{}: to bincode: {}", what, e))?;
    same(&format!("{} from bincode", what), es(bincode::deserialize::<T>(&b)), t)?;
    let c = cbor(t).map_err(|e| format!("{}: to CBOR: {}", what, e))?;
    same(&format!("{} from CBOR", what), ed(ciborium::from_reader::<T, _>(&c[..])), t)
}

fn c11_type<H: ST>(src: &mut Src, cx: &mut Cx) -> Res {
    let n = H::N;
    match src.n(6) {
        6 => {
            // far too long, by a multiple of a power of two
            let hr = src.n(1) == 1;
            let b = match crate::props::hashing::aliased(src, if hr { 2 * n } else { n }) {
                Some(b) => b,
                None => return Ok(()),
            };
            cx.label("far too long");
            cx.nontrivial = true;
            cx.note(|| format!("{} from {} bytes (human-readable: {})", H::NAME, b.len(), hr));
            // SAFETY: zeros and ASCII digits
            let s = unsafe { core::str::from_utf8_unchecked(b) };
            let what = format!("{} of {} (human-readable: {})", if hr { "text" } else { "bytes" }, b.len(), hr);
            for borrowed in [false, true] {
                check::<H>(&what, || es(H::deserialize(Far { b, s: if hr { Some(s) } else { None }, borrowed })), &None)?;
            }
            if b.len() < 1 << 20 {
                let w = core::str::from_utf8(b).ok().and_then(unhex).filter(|v| v.len() == n);
                let d: BorrowedBytesDeserializer<E> = BorrowedBytesDeserializer::new(b);
                check::<H>(&format!("BorrowedBytesDeserializer of {}", b.len()), || es(H::deserialize(d)), &w)?;
                let mut bc = (b.len() as u64).to_le_bytes().to_vec();
                bc.extend_from_slice(b);
                check::<H>("bincode", || es(bincode::deserialize::<H>(&bc)), &None)?;
                let cb = cbor(&ciborium::value::Value::Bytes(b.to_vec()))?;
                check::<H>("CBOR", || ed(ciborium::from_reader::<H, _>(&cb[..])), &None)?;
                let j = serde_json::to_string(s).map_err(|e| e.to_string())?;
                check::<H>("JSON", || es(serde_json::from_str::<H>(&j)), &None)?;
            }
            Ok(())
        }
        0 | 1 => {
            let b = gen_value(src, n);
            let h = H::of(&b);
            cx.label("round trip");
            cx.nontrivial = b.iter().any(|x| *x != 0);
            cx.note(|| format!("{} {}", H::NAME, show(&b)));
            // exact forms
            let text = format!("\"{}\"", hexs(&b));
            same("JSON", es(serde_json::to_string(&h)), &text)?;
            same("JSON value", es(serde_json::to_value(h)), &serde_json::Value::String(hexs(&b)))?;
            let mut want = (n as u64).to_le_bytes().to_vec();
            want.extend_from_slice(&b);
            same("bincode", es(bincode::serialize(&h)), &want)?;
            let mut want = match n {
                0..=23 => vec![0x40 + n as u8],
                24..=255 => vec![0x58, n as u8],
                _ => vec![0x59, (n >> 8) as u8, n as u8],
            };
            want.extend_from_slice(&b);
            same("CBOR", cbor(&h), &want)?;
            everywhere("value", &h)?;
            let h2 = H::of(&gen_value(src, n));
            everywhere("tuple", &(h, 7u32, h2))?;
            everywhere("vec", &vec![h2; src.n(4)])?;
            everywhere("vec", &vec![h, h2, h])?;
            everywhere("option", &Some(h))?;
            everywhere("none", &None::<H>)?;
            everywhere("array", &[Some(h), None, Some(h2)])?;
            let m: BTreeMap<H, u8> = [(h, 1), (h2, 2)].into_iter().collect();
            everywhere("map key", &m)?;
            let m: HashMap<String, H> =
                [("a".to_string(), h), ("b".to_string(), h2)].into_iter().collect();
            everywhere("map value", &m)?;
            let m: HashMap<H, Vec<H>> = [(h, vec![h2, h])].into_iter().collect();
            everywhere("map key and values", &m)
        }
        2 => {
            // text through a human-readable format and our deserializer
            let len = src.n(2 * n + 3);
            let damage = src.n(6);
            let s = gen_text(src, n, len, damage);
            let want = unhex(&s).filter(|v| v.len() == n);
            cx.label(if want.is_some() { "valid text" } else { "malformed text" });
            cx.nontrivial = true;
            cx.note(|| format!("{} text {:?}", H::NAME, s));
            let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            check::<H>(&format!("JSON {}", j), || es(serde_json::from_str::<H>(&j)), &want)?;
            check::<H>(&format!("JSON reader {}", j), || es(serde_json::from_reader::<_, H>(j.as_bytes())), &want)?;
            check::<H>(
                &format!("JSON value {}", j),
                || es(serde_json::from_value::<H>(serde_json::Value::String(s.clone()))),
                &want,
            )?;
            for t in [
                Tok::Str(s.clone()),
                Tok::BorrowedStr(s.clone()),
                Tok::String(s.clone()),
                Tok::Bytes(s.clone().into_bytes()),
                Tok::BorrowedBytes(s.clone().into_bytes()),
                Tok::ByteBuf(s.clone().into_bytes()),
            ] {
                check::<H>(&format!("human-readable {:?}", t), || es(H::deserialize(D(&t, true))), &want)?;
            }
            for t in [Tok::Str(s.clone()), Tok::BorrowedStr(s.clone()), Tok::String(s.clone())] {
                check::<H>(&format!("binary {:?}", t), || es(H::deserialize(D(&t, false))), &None)?;
            }
            let d: BorrowedStrDeserializer<E> = BorrowedStrDeserializer::new(&s);
            check::<H>("BorrowedStrDeserializer", || es(H::deserialize(d)), &want)
        }
        3 => {
            // byte strings
            let len = src.n(2 * n + 2);
            let len = if src.n(3) == 0 { n } else { len };
            let (b, _) = crate::src::gen_fill(src, len);
            let want = if len == n { Some(b.clone()) } else { None };
            cx.label(if want.is_some() { "valid bytes" } else { "malformed bytes" });
            cx.nontrivial = true;
            cx.note(|| format!("{} bytes {}", H::NAME, show(&b)));
            let mut bc = (len as u64).to_le_bytes().to_vec();
            bc.extend_from_slice(&b);
            check::<H>("bincode", || es(bincode::deserialize::<H>(&bc)), &want)?;
            let cb = cbor(&ciborium::value::Value::Bytes(b.clone()))?;
            check::<H>("CBOR", || ed(ciborium::from_reader::<H, _>(&cb[..])), &want)?;
            for t in [Tok::Bytes(b.clone()), Tok::BorrowedBytes(b.clone()), Tok::ByteBuf(b.clone())] {
                check::<H>(&format!("binary {:?}", t), || es(H::deserialize(D(&t, false))), &want)?;
                // as text, those bytes have to be hex digits
                let w = core::str::from_utf8(&b).ok().and_then(unhex).filter(|v| v.len() == n);
                check::<H>(&format!("human-readable {:?}", t), || es(H::deserialize(D(&t, true))), &w)?;
            }
            let d: BorrowedBytesDeserializer<E> = BorrowedBytesDeserializer::new(&b);
            let w = core::str::from_utf8(&b).ok().and_then(unhex).filter(|v| v.len() == n);
            check::<H>("BorrowedBytesDeserializer", || es(H::deserialize(d)), &w)?;
            // cut short or with a length that does not fit
            let cut = src.n(bc.len());
            let r = || es(bincode::deserialize::<H>(&bc[..cut]));
            check::<H>("bincode cut short", r, &if cut == bc.len() { want.clone() } else { None })?;
            let cut = src.n(cb.len());
            let r = || ed(ciborium::from_reader::<H, _>(&cb[..cut]));
            check::<H>("CBOR cut short", r, &if cut == cb.len() { want } else { None })
        }
        4 => {
            // other kinds of values
            let b = gen_value(src, n);
            let s = hexs(&b);
            let t = match src.n(10) {
                0 => Tok::U8Seq(b),
                1 => Tok::U64(src.u64()),
                2 => Tok::I64(src.u64() as i64),
                3 => Tok::F64(1.5),
                4 => Tok::Bool(src.n(1) == 1),
                5 => Tok::Char('a'),
                6 => Tok::Unit,
                7 => Tok::None,
                8 => Tok::SomeStr(s),
                9 => Tok::Map,
                _ => Tok::Newtype(s),
            };
            cx.label("other kind");
            cx.nontrivial = true;
            cx.note(|| format!("{} from {:?}", H::NAME, t));
            for hr in [true, false] {
                check::<H>(&format!("{:?} (human-readable: {})", t, hr), || es(H::deserialize(D(&t, hr))), &None)?;
            }
            let b = gen_value(src, n);
            for j in [
                "null".to_string(),
                "12".to_string(),
                "-1.5".to_string(),
                "true".to_string(),
                "{}".to_string(),
                "[]".to_string(),
                format!("{:?}", b),
                format!("[\"{}\"]", hexs(&b)),
                format!("{{\"{}\":0}}", hexs(&b)),
                format!("\"{}", hexs(&b)),
            ] {
                check::<H>(&format!("JSON {}", j), || es(serde_json::from_str::<H>(&j)), &None)?;
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(&j) {
                    check::<H>(&format!("JSON value {}", j), || es(serde_json::from_value::<H>(v)), &None)?;
                }
            }
            use ciborium::value::Value as V;
            for v in [
                V::Null,
                V::Bool(true),
                V::Text(hexs(&b)),
                V::Integer(5.into()),
                V::Array(b.iter().map(|x| V::Integer((*x).into())).collect()),
            ] {
                let c = cbor(&v)?;
                check::<H>(&format!("CBOR {:?}", v), || ed(ciborium::from_reader::<H, _>(&c[..])), &None)?;
            }
            Ok(())
        }
        _ => {
            // anything at all: no panic, and what is accepted re-encodes to a prefix of the input
            let len = src.n(n + 16);
            let (mut b, _) = crate::src::gen_fill(src, len);
            if src.n(1) == 1 && len >= 8 {
                let l = src.pick(&[n as u64, n as u64 + 1, (n as u64).wrapping_sub(1), u64::MAX, 1 << 40, 0]);
                b[..8].copy_from_slice(&l.to_le_bytes());
            }
            cx.label("arbitrary bytes");
            cx.nontrivial = len > 0;
            cx.note(|| format!("{} from {}", H::NAME, show(&b)));
            let r = catch(|| bincode::deserialize::<H>(&b)).map_err(|p| format!("bincode: panic: {}", p))?;
            if let Ok(h) = r {
                let e = es(bincode::serialize(&h))?;
                if !b.starts_with(&e) {
                    return Err(format!("bincode {} was read as {}", show(&b), show(&e)));
                }
            } else if len >= 8 + n && b[..8] == (n as u64).to_le_bytes() {
                return Err(format!("bincode {} was rejected", show(&b)));
            }
            let _ = catch(|| ciborium::from_reader::<H, _>(&b[..])).map_err(|p| format!("CBOR: panic: {}", p))?;
            let _ = catch(|| serde_json::from_slice::<H>(&b)).map_err(|p| format!("JSON: panic: {}", p))?;
            Ok(())
        }
    }
}

fn gen_text(src: &mut Src, n: usize, len: usize, damage: usize) -> String {
    let b = gen_value(src, n);
    let digits: Vec<char> = hexs(&b)
        .chars()
        .map(|c| if src.n(3) == 3 { c.to_ascii_uppercase() } else { c })
        .collect();
    match damage {
        0 | 1 => digits.into_iter().collect(),
        2 => {
            // length
            digits.iter().cycle().take(len).collect()
        }
        3 => {
            // one character
            let mut d = digits;
            let i = src.n(2 * n - 1);
            d[i] = src.pick(&['g', 'G', '/', ':', '@', '`', ' ', '\0', '-', '+', '\u{e9}', '\u{ff11}', '_', '\n']);
            d.into_iter().collect()
        }
        4 | 6 => {
            let s: String = digits.into_iter().collect();
            crate::src::disturb(src, &s)
        }
        _ => {
            // non-ASCII of exactly 2n bytes of UTF-8
            let mut s = String::new();
            while s.len() + 2 <= 2 * n {
                s.push('\u{e9}');
            }
            s
        }
    }
}

fn check<H: ST>(what: &str, f: impl FnOnce() -> Result<H, String>, want: &Option<Vec<u8>>) -> Res {
    let r = catch(f).map_err(|p| format!("{}: panic: {}", what, p))?;
    match (r, want) {
        (Ok(h), Some(w)) => expect(what, &h.bytes(), w),
        (Ok(h), None) => Err(format!("{}: was accepted as {:?}", what, h)),
        (Err(e), Some(_)) => Err(format!("{}: was rejected: {}", what, e)),
        (Err(_), None) => Ok(()),
    }
}

pub fn c11_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    let ns = [20u64, 32, 48, 64, 32, 20, 8, 32, 32, 1, 8, 20, 32, 33, 48, 64, 100, 128, 7];
    for (t, n) in ns.iter().enumerate() {
        let t = t as u64;
        for _ in 0..6 {
            v.push(vec![t, 0]);
        }
        for l in 0..=2 * n + 3 {
            v.push(vec![t, 2, l, 2]);
        }
        for l in 0..=2 * n + 2 {
            v.push(vec![t, 3, l, 1]);
        }
        for k in 0..=10 {
            v.push(vec![t, 4, 5, 1, k]);
        }
        for k in 0..=11 {
            v.push(vec![t, 6, 0, k]);
            v.push(vec![t, 6, 1, k]);
        }
    }
    v
}

// ---- C12 -------------------------------------------------------------------------------------

#[cfg(feature = "schemars")]
mod schema {
    use schemars::gen::SchemaGenerator;
    use schemars::JsonSchema;
    use serde_json::{json, Value};

    use super::*;

    /// A validator for what the schemas of hashes may use; keywords it does not know accept.
    pub fn valid(root: &Value, schema: &Value, v: &Value) -> Result<bool, String> {
        let o = match schema {
            Value::Bool(b) => return Ok(*b),
            Value::Object(o) => o,
            _ => return Err(format!("no schema: {}", schema)),
        };
        if let Some(Value::String(r)) = o.get("$ref") {
            let path = r.strip_prefix('#').ok_or(format!("foreign reference {}", r))?;
            let s = root.pointer(path).ok_or(format!("dangling reference {}", r))?;
            if !valid(root, s, v)? {
                return Ok(false);
            }
        }
        if let Some(t) = o.get("type") {
            let is = |t: &Value| match t.as_str() {
                Some("string") => v.is_string(),
                Some("array") => v.is_array(),
                Some("object") => v.is_object(),
                Some("null") => v.is_null(),
                Some("boolean") => v.is_boolean(),
                Some("number") => v.is_number(),
                Some("integer") => v.is_u64() || v.is_i64(),
                _ => true,
            };
            let ok = match t {
                Value::Array(a) => a.iter().any(is),
                t => is(t),
            };
            if !ok {
                return Ok(false);
            }
        }
        let num = |k: &str| o.get(k).and_then(|x| x.as_u64());
        if let Some(s) = v.as_str() {
            let n = s.chars().count() as u64;
            if num("minLength").map_or(false, |m| n < m) || num("maxLength").map_or(false, |m| n > m) {
                return Ok(false);
            }
            if let Some(Value::String(p)) = o.get("pattern") {
                let re = regex::Regex::new(p).map_err(|e| format!("pattern {}: {}", p, e))?;
                if !re.is_match(s) {
                    return Ok(false);
                }
            }
        }
        if let Some(a) = v.as_array() {
            let n = a.len() as u64;
            if num("minItems").map_or(false, |m| n < m) || num("maxItems").map_or(false, |m| n > m) {
                return Ok(false);
            }
            match o.get("items") {
                Some(Value::Array(ss)) =>
                    for (s, x) in ss.iter().zip(a) {
                        if !valid(root, s, x)? {
                            return Ok(false);
                        }
                    },
                Some(s) =>
                    for x in a {
                        if !valid(root, s, x)? {
                            return Ok(false);
                        }
                    },
                None => {}
            }
        }
        if let Some(m) = v.as_object() {
            if let Some(Value::Object(ps)) = o.get("properties") {
                for (k, s) in ps {
                    if let Some(x) = m.get(k) {
                        if !valid(root, s, x)? {
                            return Ok(false);
                        }
                    }
                }
            }
            if let Some(Value::Array(r)) = o.get("required") {
                if r.iter().filter_map(|k| k.as_str()).any(|k| !m.contains_key(k)) {
                    return Ok(false);
                }
            }
            if let Some(s) = o.get("additionalProperties") {
                for (k, x) in m {
                    let named = o.get("properties").map_or(false, |p| p.get(k).is_some());
                    if !named && !valid(root, s, x)? {
                        return Ok(false);
                    }
                }
            }
        }
        if let Some(c) = o.get("const") {
            if c != v {
                return Ok(false);
            }
        }
        if let Some(Value::Array(e)) = o.get("enum") {
            if !e.contains(v) {
                return Ok(false);
            }
        }
        for (k, all, one) in [("allOf", true, false), ("anyOf", false, false), ("oneOf", false, true)] {
            if let Some(Value::Array(ss)) = o.get(k) {
                let mut n = 0;
                for s in ss {
                    n += valid(root, s, v)? as usize;
                }
                if (all && n != ss.len()) || (!all && n == 0) || (one && n != 1) {
                    return Ok(false);
                }
            }
        }
        if let Some(s) = o.get("not") {
            if valid(root, s, v)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    pub trait SchemaCase {
        type Out;
        fn run<H: ST + JsonSchema>(self) -> Self::Out;
    }

    pub const N: usize = 18;

    pub fn with<C: SchemaCase>(i: usize, c: C) -> C::Out {
        match i {
            0 => c.run::<sha1::Hash>(),
            1 => c.run::<sha256::Hash>(),
            2 => c.run::<sha384::Hash>(),
            3 => c.run::<sha512::Hash>(),
            4 => c.run::<sha512_256::Hash>(),
            5 => c.run::<ripemd160::Hash>(),
            6 => c.run::<siphash24::Hash>(),
            7 => c.run::<sha256t::Hash<DynTag>>(),
            8 => c.run::<hmac::Hash<1>>(),
            9 => c.run::<hmac::Hash<8>>(),
            10 => c.run::<hmac::Hash<20>>(),
            11 => c.run::<hmac::Hash<32>>(),
            12 => c.run::<hmac::Hash<33>>(),
            13 => c.run::<hmac::Hash<48>>(),
            14 => c.run::<hmac::Hash<64>>(),
            15 => c.run::<hmac::Hash<100>>(),
            16 => c.run::<hmac::Hash<128>>(),
            _ => c.run::<hmac::Hash<300>>(),
        }
    }

    pub fn root<T: JsonSchema>() -> Result<Value, String> {
        es(serde_json::to_value(SchemaGenerator::default().into_root_schema_for::<T>()))
    }

    /// Adds one element of a composition: its sub-schema and a serialised value.
    pub struct Add<'a>(pub &'a mut Src, pub &'a mut SchemaGenerator, pub usize);
    impl<'a> SchemaCase for Add<'a> {
        /// name, schema, value, digits
        type Out = Result<(&'static str, Value, Value, usize), String>;
        fn run<H: ST + JsonSchema>(self) -> Self::Out {
            let h = H::of(&gen_value(self.0, H::N));
            let h2 = H::of(&gen_value(self.0, H::N));
            let g = self.1;
            let (s, v) = match self.2 {
                0 | 1 => (g.subschema_for::<H>(), es(serde_json::to_value(h))?),
                2 => (g.subschema_for::<Vec<H>>(), es(serde_json::to_value(vec![h, h2]))?),
                3 => (g.subschema_for::<Option<H>>(), es(serde_json::to_value(Some(h)))?),
                4 => (g.subschema_for::<(H, H)>(), es(serde_json::to_value((h, h2)))?),
                _ => {
                    let m: BTreeMap<String, H> = [("k".to_string(), h), ("l".to_string(), h2)].into();
                    (g.subschema_for::<BTreeMap<String, H>>(), es(serde_json::to_value(m))?)
                }
            };
            Ok((H::NAME, es(serde_json::to_value(s))?, v, 2 * H::N))
        }
    }

    /// All strings in a value, one after another, replaced by a longer or shorter one.
    pub fn damage(v: &Value, which: &mut usize, f: &dyn Fn(&str) -> Value) -> Value {
        match v {
            Value::String(s) => {
                let hit = *which == 0;
                *which = which.wrapping_sub(1);
                if hit {
                    f(s)
                } else {
                    v.clone()
                }
            }
            Value::Array(a) => Value::Array(a.iter().map(|x| damage(x, which, f)).collect()),
            Value::Object(m) =>
                Value::Object(m.iter().map(|(k, x)| (k.clone(), damage(x, which, f))).collect()),
            v => v.clone(),
        }
    }

    pub struct One<'a>(pub &'a mut Src, pub &'a mut Cx);
    impl<'a> SchemaCase for One<'a> {
        type Out = Res;
        fn run<H: ST + JsonSchema>(self) -> Res {
            let (src, cx) = (self.0, self.1);
            cx.label(H::NAME);
            let len = src.n(2 * H::N + 4);
            let b = gen_value(src, H::N);
            let h = H::of(&b);
            let s = root::<H>()?;
            cx.nontrivial = true;
            cx.label("single type");
            cx.note(|| format!("{} {} and a string of {} digits", H::NAME, show(&b), len));
            let v = es(serde_json::to_value(h))?;
            if !valid(&s, &s, &v)? {
                return Err(format!("{}: the schema rejects {}: {}", H::NAME, v, s));
            }
            if len != 2 * H::N {
                let t: String = hexs(&b).chars().cycle().take(len).collect();
                if valid(&s, &s, &json!(t))? {
                    return Err(format!("{}: the schema accepts {:?} ({} characters): {}", H::NAME, t, len, s));
                }
            }
            for v in [
                json!(null),
                json!(true),
                json!(12),
                json!(-1.5),
                json!([]),
                json!({}),
                json!(b),
                json!([hexs(&b)]),
                json!({ hexs(&b): 1 }),
            ] {
                if valid(&s, &s, &v)? {
                    return Err(format!("{}: the schema accepts {}: {}", H::NAME, v, s));
                }
            }
            Ok(())
        }
    }
}

#[cfg(feature = "schemars")]
pub const C12_RULE: &str = "A case is either one hash type with a value and a string length (0..=2N+4 swept), or a composition of 2 to 6 different hash types, each alone or in a Vec, Option, tuple or map, in one schema document. \
The schema must accept the serialised value and reject it when one of its strings has another length or is replaced by a value of another JSON type. Validator: the harness's own (type, length, pattern, items, references, combinators). \
Non-trivial: every case; distinct by choice sequence.";

#[cfg(feature = "schemars")]
struct Other<const I: usize>;

#[cfg(feature = "schemars")]
impl<const I: usize> schemars::JsonSchema for Other<I> {
    fn schema_name() -> String { format!("Other{}", I) }
    fn json_schema(_: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema { true.into() }
}

#[cfg(feature = "schemars")]
pub fn c12(src: &mut Src, cx: &mut Cx) -> Res {
    use schemars::gen::SchemaGenerator;
    use schema::*;
    use serde_json::{json, Value};
    if src.n(1) == 0 {
        let t = src.n(N - 1);
        return with(t, One(src, cx));
    }
    cx.label("composition");
    cx.nontrivial = true;
    let k = src.range(2, 6);
    let mut gen = SchemaGenerator::default();
    if src.one_in(4) {
        // definitions of other types come first
        let n = src.range(1, 12);
        cx.label("among other definitions");
        cx.note(|| format!("after {} other definitions", n));
        for i in 0..n {
            match i % 4 {
                0 => gen.subschema_for::<Other<0>>(),
                1 => gen.subschema_for::<Other<1>>(),
                2 => gen.subschema_for::<Other<2>>(),
                _ => gen.subschema_for::<Other<3>>(),
            };
            if i > 3 {
                gen.definitions_mut().insert(format!("Other_{}", i), true.into());
            }
        }
        if src.one_in(4) {
            // one of that name already
            gen.definitions_mut().insert("Hash".to_string(), true.into());
        }
    }
    let (mut items, mut values, mut lens) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0..k {
        let t = src.n(N - 1);
        let wrap = src.n(5);
        let (name, s, v, d) = with(t, Add(src, &mut gen, wrap))?;
        cx.label(name);
        cx.note(|| format!("{} (wrapping {}): {}", name, wrap, v));
        let mut strings = 0;
        let mut w = usize::MAX;
        let _ = damage(&v, &mut w, &|_| Value::Null);
        strings += usize::MAX - w;
        items.push(s);
        values.push(v);
        for _ in 0..strings {
            lens.push(d);
        }
    }
    let defs = es(serde_json::to_value(gen.definitions()))?;
    let root = json!({"type": "array", "items": items, "minItems": k, "maxItems": k, "definitions": defs});
    let doc = Value::Array(values);
    if !valid(&root, &root, &doc)? {
        return Err(format!("the schema rejects {}: {}", doc, root));
    }
    // one string of another length, or another thing in its place
    let i = src.n(lens.len() - 1);
    let other = src.n(140);
    let digit = src.pick(&["0", "a", "F", "7"]);
    let mut w = i;
    let bad = if other == lens[i] {
        damage(&doc, &mut w, &|_| json!(17))
    } else {
        damage(&doc, &mut w, &|_| json!(digit.repeat(other)))
    };
    cx.note(|| format!("string {} damaged: {}", i, bad));
    if valid(&root, &root, &bad)? {
        return Err(format!("the schema accepts {}: {}", bad, root));
    }
    Ok(())
}

#[cfg(feature = "schemars")]
pub fn c12_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    let ns = [20u64, 32, 48, 64, 32, 20, 8, 32, 1, 8, 20, 32, 33, 48, 64, 100, 128];
    for (t, n) in ns.iter().enumerate() {
        for l in 0..=2 * n + 4 {
            v.push(vec![0, t as u64, l]);
        }
    }
    // all pairs of types in one document
    for a in 0..ns.len() as u64 {
        for b in 0..ns.len() as u64 {
            v.push(vec![1, 0, a, 0, 1, 1, b, 0, 1, 1]);
        }
    }
    v
}
