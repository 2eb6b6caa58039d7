//! A program that uses the part of chf's interface every feature combination has, on generated
//! inputs, and prints what it gets. The transcripts of all combinations must be the same.

use std::fmt::{self, Write as _};

use chf::sha256t::{self, Tag};
use chf::{hmac, ripemd160, sha1, sha256, sha384, sha512, sha512_256, siphash24, HashEngine};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct T;
const MID: sha256::Midstate = sha256::Midstate::hash_tag(b"combination");
impl Tag for T {
    fn engine() -> sha256t::Engine<Self> {
        <sha256t::Engine<Self> as HashEngine>::from_midstate(MID, 64)
    }
}

fn line(out: &mut String, what: &str, v: impl fmt::Display) { let _ = write!(out, " {}={}", what, v); }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn fmts<H: fmt::Display + fmt::Debug + fmt::LowerHex + fmt::UpperHex>(o: &mut String, r: &mut Rng, h: &H) {
    let p = r.below(140);
    let w = r.below(150);
    line(o, "d", h);
    line(o, "a", format_args!("{:#}", h));
    line(o, "x", format_args!("{:x}{:#x}", h, h));
    line(o, "X", format_args!("{:X}{:#X}", h, h));
    line(o, "?", format_args!("{:?}", h));
    line(o, "p", format_args!("{:.*}", p, h));
    line(o, "w", format_args!("{:*>w$}", h, w = w));
}

fn err<T: fmt::Debug, E: fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(t) => format!("{:?}", t),
        Err(e) => format!("E({})", e),
    }
}

macro_rules! plain {
    ($o:expr, $r:expr, $msg:expr, $cut:expr, $m:ident, $n:expr) => {{
        let (o, r, msg, cut): (&mut String, &mut Rng, &[u8], usize) = ($o, $r, $msg, $cut);
        let h = $m::Hash::hash(msg);
        line(o, stringify!($m), hex(h.as_byte_array()));
        let mut e = $m::Hash::engine();
        e.input(&msg[..cut]);
        let c = e.clone();
        e.input(&msg[cut..]);
        line(o, "n", e.n_bytes_hashed());
        line(o, "pieces", hex($m::Hash::from_engine(e).as_byte_array()));
        line(o, "part", hex(&c.finalize()));
        line(o, "chunks", hex(&<$m::Engine as HashEngine>::hash_byte_chunks(msg.chunks(5))));
        fmts(o, r, &h);
        let mut s = h.to_string();
        line(o, "parse", err(s.parse::<$m::Hash>()));
        if r.below(2) == 0 {
            s.pop();
        } else {
            s.replace_range(0..1, "g");
        }
        line(o, "bad", s.parse::<$m::Hash>().is_err());
        let k = r.below(70);
        let b = r.bytes(k);
        line(o, "slice", err($m::Hash::from_slice(&b)));
        let z = r.bytes($n);
        let h2 = $m::Hash::from_slice(&z).unwrap();
        line(o, "cmp", format_args!("{:?}{}", h.cmp(&h2), h == h2));
        line(o, "zeros", $m::Hash::all_zeros());
        line(o, "at", h[r.below($n)]);
        // MAC
        let kl = r.below(200);
        let key = r.bytes(kl);
        let mut e = hmac::Engine::<$m::Engine>::new(&key);
        e.input(&msg[..cut]);
        e.input(&msg[cut..]);
        line(o, "hn", e.n_bytes_hashed());
        let t = hmac::Hash::<$n>::from_engine(e);
        line(o, "hmac", hex(t.as_byte_array()));
        fmts(o, r, &t);
        line(o, "hparse", err(t.to_string().parse::<hmac::Hash<$n>>()));
    }};
}

fn mid<E: HashEngine>(o: &mut String, r: &mut Rng, msg: &[u8])
where
    E::Midstate: AsRef<[u8]>,
{
    let k = msg.len() / E::BLOCK_SIZE * E::BLOCK_SIZE;
    let mut e = E::new();
    e.input(&msg[..k]);
    let m = e.midstate();
    line(o, "mid", hex(m.as_ref()));
    let mut e = E::from_midstate(m, k);
    e.input(&msg[k..]);
    line(o, "resumed", hex(e.finalize().as_ref()));
    let _ = r;
}

/// The interfaces that come with a feature: there in every combination that has the feature, and
/// doing the same. (They do not print, so that the transcripts stay comparable.)
#[allow(unused_variables)]
fn gated(msg: &[u8], cut: usize, key: &[u8]) {
    #[cfg(any(feature = "alloc", feature = "std"))]
    {
        macro_rules! vecs { ($($h:expr),*) => { $({
            let h = $h;
            assert_eq!(h.to_bytes(), h.as_bytes(), "to_bytes");
        })* } }
        vecs!(sha1::Hash::hash(msg), sha256::Hash::hash(msg), sha384::Hash::hash(msg),
            sha512::Hash::hash(msg), sha512_256::Hash::hash(msg), ripemd160::Hash::hash(msg),
            siphash24::Hash::hash(msg), sha256t::Hash::<T>::hash(msg),
            hmac::Hash::<32>::from_engine(hmac::Engine::<sha256::Engine>::new(key)));
    }
    #[cfg(feature = "std")]
    {
        fn is_error<E: std::error::Error>(_: &E) {}
        is_error(&sha256::Hash::from_slice(&[]).unwrap_err());
        is_error(&"".parse::<sha256::Hash>().unwrap_err());
    }
    #[cfg(any(feature = "std", feature = "io"))]
    {
        macro_rules! written { ($tr:path: $($e:expr),*) => { $({
            use $tr as W;
            let mut a = $e;
            let mut b = $e;
            a.input(msg);
            assert_eq!(W::write(&mut b, &msg[..cut]).unwrap(), cut, "write");
            W::write_all(&mut b, &msg[cut..]).unwrap();
            W::flush(&mut b).unwrap();
            assert_eq!(a.finalize(), b.finalize(), "what was written");
        })* } }
        macro_rules! all { ($tr:path) => {
            written!($tr: sha1::Engine::default(), sha256::Engine::default(), sha512::Engine::default(),
                ripemd160::Engine::default(), siphash24::Engine::default(), sha256t::Engine::<T>::default(),
                hmac::Engine::<sha1::Engine>::new(key), hmac::Engine::<sha384::Engine>::new(key),
                hmac::Engine::<sha512_256::Engine>::new(key), hmac::Engine::<siphash24::Engine>::new(key))
        } }
        all!(bitcoin_io::Write);
        #[cfg(feature = "std")]
        all!(std::io::Write);
    }
    #[cfg(feature = "serde")]
    {
        use chf::serde::{de::DeserializeOwned, Serialize};
        fn is<H: Serialize + DeserializeOwned>() {}
        is::<sha1::Hash>();
        is::<sha256::Hash>();
        is::<sha384::Hash>();
        is::<sha512::Hash>();
        is::<sha512_256::Hash>();
        is::<ripemd160::Hash>();
        is::<siphash24::Hash>();
        is::<sha256t::Hash<T>>();
        is::<hmac::Hash<32>>();
        is::<sha256::Midstate>();
    }
    #[cfg(feature = "schemars")]
    {
        fn is<H: schemars::JsonSchema>() {}
        is::<sha1::Hash>();
        is::<sha256::Hash>();
        is::<sha384::Hash>();
        is::<sha512::Hash>();
        is::<sha512_256::Hash>();
        is::<ripemd160::Hash>();
        is::<siphash24::Hash>();
        is::<sha256t::Hash<T>>();
        is::<hmac::Hash<32>>();
    }
}

fn main() {
    let seed: u64 = std::env::args().nth(1).map_or(1, |s| s.parse().unwrap());
    let n: u64 = std::env::args().nth(2).map_or(100, |s| s.parse().unwrap());
    for i in 0..n {
        let mut rr = Rng(seed.wrapping_mul(0x1_0000_0001) ^ (i << 20));
        let r = &mut rr;
        let l = match r.below(6) {
            0 => i as usize % 300,
            1 => r.below(20),
            2 => r.below(300),
            3 => (64 * r.below(9) + r.below(20)).saturating_sub(10),
            4 => r.below(1500),
            _ => (128 * r.below(9) + r.below(40)).saturating_sub(20),
        };
        let msg = r.bytes(l);
        let cut = r.below(l + 1);
        let mut s = format!("{} len={}", i, l);
        let o = &mut s;
        plain!(o, r, &msg, cut, sha1, 20);
        plain!(o, r, &msg, cut, sha256, 32);
        plain!(o, r, &msg, cut, sha384, 48);
        plain!(o, r, &msg, cut, sha512, 64);
        plain!(o, r, &msg, cut, sha512_256, 32);
        plain!(o, r, &msg, cut, ripemd160, 20);
        plain!(o, r, &msg, cut, siphash24, 8);
        mid::<sha1::Engine>(o, r, &msg);
        mid::<sha256::Engine>(o, r, &msg);
        mid::<sha384::Engine>(o, r, &msg);
        mid::<sha512::Engine>(o, r, &msg);
        mid::<sha512_256::Engine>(o, r, &msg);
        mid::<ripemd160::Engine>(o, r, &msg);
        let (k0, k1) = (r.next(), r.next());
        line(o, "sip", siphash24::Hash::hash_to_u64_with_keys(k0, k1, &msg));
        line(o, "sipint", siphash24::Hash::from_u64(k0));
        line(o, "const", sha256::Hash::const_hash(&msg));
        line(o, "tag", sha256::Midstate::hash_tag(&msg));
        let t = sha256t::Hash::<T>::hash(&msg);
        line(o, "tagged", hex(t.as_byte_array()));
        fmts(o, r, &t);
        line(o, "tparse", err(t.to_string().parse::<sha256t::Hash<T>>()));
        let mut b = msg.clone();
        if l > 0 && r.below(2) == 0 {
            b[r.below(l)] ^= 1 << r.below(8);
        }
        line(o, "eq", chf::cmp::fixed_time_eq(&msg, &b));
        gated(&msg, cut, &msg[cut..]);
        println!("{}", s);
    }
}
