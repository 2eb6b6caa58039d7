//! One face for all the hash engines of the crate, and the reference result of each.

use std::cell::Cell;

use chf::sha256t::{self, Tag};
use chf::{hmac, ripemd160, sha1, sha256, sha384, sha512, sha512_256, siphash24, HashEngine};

use crate::refimpl::{self as rf, Alg};
use crate::src::{cap, gen_fill, show, Src};

thread_local! {
    static TAG: Cell<[u8; 32]> = const { Cell::new([0; 32]) };
}

/// A tag chosen at run time (per thread): the engine starts from the given midstate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DynTag;

impl DynTag {
    pub fn set(mid: [u8; 32]) { TAG.with(|t| t.set(mid)) }
}

impl Tag for DynTag {
    fn engine() -> sha256t::Engine<Self> {
        let mid = TAG.with(|t| t.get());
        <sha256t::Engine<Self> as HashEngine>::from_midstate(sha256::Midstate(mid), 64)
    }
}

/// The same tag, by a type that has contents and no more traits than it must.
#[derive(Clone)]
#[allow(dead_code)]
pub struct WideTag(Vec<u8>, [u64; 9]);

impl Tag for WideTag {
    fn engine() -> sha256t::Engine<Self> {
        let mid = TAG.with(|t| t.get());
        <sha256t::Engine<Self> as HashEngine>::from_midstate(sha256::Midstate(mid), 64)
    }
}

/// Which engine, with its parameters.
#[derive(Clone, PartialEq)]
pub enum Kind {
    Plain(Alg),
    Sip(u64, u64),
    Tagged(Vec<u8>),
    Hmac(Alg, Vec<u8>),
    HmacSip(Vec<u8>),
    /// tag, key
    HmacTagged(Vec<u8>, Vec<u8>),
    /// HMAC over HMAC-SHA-256 with the empty key
    HmacHmac(Vec<u8>),
}

impl Kind {
    pub fn show(&self) -> String {
        match self {
            Kind::Plain(a) => format!("{:?}", a),
            Kind::Sip(a, b) => format!("SipHash(k0={:#x},k1={:#x})", a, b),
            Kind::Tagged(t) => format!("Tagged(tag={})", show(t)),
            Kind::Hmac(a, k) => format!("HMAC-{:?}(key={})", a, show(k)),
            Kind::HmacSip(k) => format!("HMAC-SipHash(key={})", show(k)),
            Kind::HmacTagged(t, k) => format!("HMAC-Tagged(tag={},key={})", show(t), show(k)),
            Kind::HmacHmac(k) => format!("HMAC-HMAC-SHA256(key={})", show(k)),
        }
    }

    pub fn label(&self) -> &'static str {
        match self {
            Kind::Plain(Alg::Sha1) => "sha1",
            Kind::Plain(Alg::Sha256) => "sha256",
            Kind::Plain(Alg::Sha384) => "sha384",
            Kind::Plain(Alg::Sha512) => "sha512",
            Kind::Plain(Alg::Sha512_256) => "sha512_256",
            Kind::Plain(Alg::Ripemd160) => "ripemd160",
            Kind::Sip(..) => "siphash",
            Kind::Tagged(_) => "sha256t",
            Kind::Hmac(Alg::Sha1, _) => "hmac-sha1",
            Kind::Hmac(Alg::Sha256, _) => "hmac-sha256",
            Kind::Hmac(Alg::Sha384, _) => "hmac-sha384",
            Kind::Hmac(Alg::Sha512, _) => "hmac-sha512",
            Kind::Hmac(Alg::Sha512_256, _) => "hmac-sha512_256",
            Kind::Hmac(Alg::Ripemd160, _) => "hmac-ripemd160",
            Kind::HmacSip(_) => "hmac-siphash",
            Kind::HmacTagged(..) => "hmac-sha256t",
            Kind::HmacHmac(_) => "hmac-hmac-sha256",
        }
    }

    /// The natural unit of the engine, for generating interesting sizes.
    pub fn block(&self) -> usize {
        match self {
            Kind::Plain(a) | Kind::Hmac(a, _) => a.block(),
            Kind::Sip(..) => 8,
            Kind::HmacSip(_) => 32,
            _ => 64,
        }
    }

    /// The same type of engine, with parameters of its own.
    pub fn sibling(&self, src: &mut Src) -> Kind {
        match self {
            Kind::Plain(a) => Kind::Plain(*a),
            Kind::Sip(..) => gen_sip(src),
            Kind::Tagged(_) => Kind::Tagged(gen_tag(src)),
            Kind::Hmac(a, _) => Kind::Hmac(*a, gen_key(src, a.block())),
            Kind::HmacSip(_) => Kind::HmacSip(gen_key(src, 32)),
            Kind::HmacTagged(..) => Kind::HmacTagged(gen_tag(src), gen_key(src, 64)),
            Kind::HmacHmac(_) => Kind::HmacHmac(gen_key(src, 64)),
        }
    }

    /// The midstate represents the engine completely at multiples of this many bytes.
    pub fn grain(&self) -> usize {
        match self {
            Kind::Sip(..) | Kind::HmacSip(_) => 8,
            k => k.block(),
        }
    }

    /// What the standard says.
    pub fn reference(&self, msg: &[u8]) -> Vec<u8> {
        match self {
            Kind::Plain(a) => rf::hash(*a, msg),
            Kind::Sip(a, b) => rf::siphash(*a, *b, msg).to_le_bytes().to_vec(),
            Kind::Tagged(t) => rf::tagged(t, msg),
            Kind::Hmac(a, k) => rf::hmac(&|m: &[u8]| rf::hash(*a, m), a.block(), k, msg),
            Kind::HmacSip(k) =>
                rf::hmac(&|m: &[u8]| rf::siphash(0, 0, m).to_le_bytes().to_vec(), 32, k, msg),
            Kind::HmacTagged(t, k) => rf::hmac(&|m: &[u8]| rf::tagged(t, m), 64, k, msg),
            Kind::HmacHmac(k) => {
                let sha = |m: &[u8]| rf::hash(Alg::Sha256, m);
                rf::hmac(&|m: &[u8]| rf::hmac(&sha, 64, &[], m), 64, k, msg)
            }
        }
    }

    /// A new engine of this kind.
    pub fn make(&self) -> Box<dyn Eng> {
        fn h<E: HashEngine<Digest = D> + 'static, D: AsRef<[u8]> + 'static>(key: &[u8]) -> Box<dyn Eng>
        where
            hmac::Engine<E>: Wr,
        {
            Box::new(W(hmac::Engine::<E>::new(key)))
        }
        match self {
            Kind::Plain(Alg::Sha1) => Box::new(W(sha1::Hash::engine())),
            Kind::Plain(Alg::Sha256) => Box::new(W(sha256::Hash::engine())),
            Kind::Plain(Alg::Sha384) => Box::new(W(sha384::Hash::engine())),
            Kind::Plain(Alg::Sha512) => Box::new(W(sha512::Hash::engine())),
            Kind::Plain(Alg::Sha512_256) => Box::new(W(sha512_256::Hash::engine())),
            Kind::Plain(Alg::Ripemd160) => Box::new(W(ripemd160::Hash::engine())),
            Kind::Sip(a, b) => Box::new(W(siphash24::Engine::with_keys(*a, *b))),
            Kind::Tagged(t) => {
                set_tag(t);
                Box::new(W(sha256t::Hash::<DynTag>::engine()))
            }
            Kind::Hmac(Alg::Sha1, k) => h::<sha1::Engine, _>(k),
            Kind::Hmac(Alg::Sha256, k) => h::<sha256::Engine, _>(k),
            Kind::Hmac(Alg::Sha384, k) => h::<sha384::Engine, _>(k),
            Kind::Hmac(Alg::Sha512, k) => h::<sha512::Engine, _>(k),
            Kind::Hmac(Alg::Sha512_256, k) => h::<sha512_256::Engine, _>(k),
            Kind::Hmac(Alg::Ripemd160, k) => h::<ripemd160::Engine, _>(k),
            Kind::HmacSip(k) => h::<siphash24::Engine, _>(k),
            Kind::HmacTagged(t, k) => {
                set_tag(t);
                h::<sha256t::Engine<DynTag>, _>(k)
            }
            Kind::HmacHmac(k) => h::<hmac::Engine<sha256::Engine>, _>(k),
        }
    }

    /// The digest of the pieces through the engine's own one-shot functions, `hash_byte_chunks` and
    /// (of the whole) `hash`, for the kinds that a default engine belongs to.
    pub fn oneshot(&self, ps: &[&[u8]], whole: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
        fn go<E: HashEngine>(ps: &[&[u8]], whole: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
            Some((E::hash_byte_chunks(ps).as_ref().to_vec(), E::hash(whole).as_ref().to_vec()))
        }
        self.enter();
        match self {
            Kind::Plain(Alg::Sha1) => go::<sha1::Engine>(ps, whole),
            Kind::Plain(Alg::Sha256) => go::<sha256::Engine>(ps, whole),
            Kind::Plain(Alg::Sha384) => go::<sha384::Engine>(ps, whole),
            Kind::Plain(Alg::Sha512) => go::<sha512::Engine>(ps, whole),
            Kind::Plain(Alg::Sha512_256) => go::<sha512_256::Engine>(ps, whole),
            Kind::Plain(Alg::Ripemd160) => go::<ripemd160::Engine>(ps, whole),
            Kind::Sip(0, 0) => go::<siphash24::Engine>(ps, whole),
            Kind::Tagged(_) => go::<sha256t::Engine<DynTag>>(ps, whole),
            Kind::Hmac(a, k) if k.is_empty() => match a {
                Alg::Sha1 => go::<hmac::Engine<sha1::Engine>>(ps, whole),
                Alg::Sha256 => go::<hmac::Engine<sha256::Engine>>(ps, whole),
                Alg::Sha384 => go::<hmac::Engine<sha384::Engine>>(ps, whole),
                Alg::Sha512 => go::<hmac::Engine<sha512::Engine>>(ps, whole),
                Alg::Sha512_256 => go::<hmac::Engine<sha512_256::Engine>>(ps, whole),
                Alg::Ripemd160 => go::<hmac::Engine<ripemd160::Engine>>(ps, whole),
            },
            Kind::HmacSip(k) if k.is_empty() => go::<hmac::Engine<siphash24::Engine>>(ps, whole),
            Kind::HmacTagged(_, k) if k.is_empty() =>
                go::<hmac::Engine<sha256t::Engine<DynTag>>>(ps, whole),
            Kind::HmacHmac(k) if k.is_empty() =>
                go::<hmac::Engine<hmac::Engine<sha256::Engine>>>(ps, whole),
            _ => None,
        }
    }

    /// Some engines draw on the thread's current tag when they are finished or restored.
    pub fn enter(&self) {
        if let Kind::Tagged(t) | Kind::HmacTagged(t, _) = self {
            set_tag(t);
        }
    }
}

/// Makes `tag` the tag of `DynTag`, by the reference (the crate's own tag midstate is judged in its
/// own property).
pub fn set_tag(tag: &[u8]) {
    let mut m = [0; 32];
    m.copy_from_slice(&rf::tag_midstate(tag));
    DynTag::set(m);
}

pub fn gen_key(src: &mut Src, block: usize) -> Vec<u8> {
    let n = match src.n(7) {
        0 => 0,
        1 => src.n(16),
        2 => src.n(64),
        3 => (block + src.n(4)).saturating_sub(2),
        4 => block,
        5 => src.n(2 * block),
        6 => (128 + src.n(4)).saturating_sub(2),
        _ => {
            let most = if src.one_in(30) { 70_000 } else { 600 };
            cap(src.n(most))
        }
    };
    gen_fill(src, n).0
}

pub fn gen_tag(src: &mut Src) -> Vec<u8> {
    let n = match src.n(5) {
        0 => 0,
        1 => src.n(24),
        2 => (64 + src.n(20)).saturating_sub(12),
        3 => src.n(64),
        4 => (128 + src.n(20)).saturating_sub(12),
        _ => {
            let most = if src.one_in(30) { 10_000 } else { 400 };
            cap(src.n(most))
        }
    };
    gen_fill(src, n).0
}

pub fn gen_kind(src: &mut Src) -> Kind {
    let i = src.n(16);
    kind_of(src, i)
}

pub const N_KINDS: usize = 17;

pub fn kind_of(src: &mut Src, i: usize) -> Kind {
    match i {
        0..=5 => Kind::Plain(rf::ALGS[i]),
        6 => gen_sip(src),
        7 => Kind::Tagged(gen_tag(src)),
        8..=13 => {
            let a = rf::ALGS[i - 8];
            Kind::Hmac(a, gen_key(src, a.block()))
        }
        14 => Kind::HmacSip(gen_key(src, 32)),
        15 => {
            let t = gen_tag(src);
            Kind::HmacTagged(t, gen_key(src, 64))
        }
        _ => Kind::HmacHmac(gen_key(src, 64)),
    }
}

pub fn gen_sip(src: &mut Src) -> Kind {
    let mut k = || match src.n(3) {
        0 => src.n(255) as u64,
        1 => u64::MAX - src.n(3) as u64,
        _ => src.u64(),
    };
    let a = k();
    let b = k();
    Kind::Sip(a, b)
}

/// The write traits an engine has in this configuration (all engines get a default that says no).
pub trait Wr {
    /// `std::io::Write::write`, if there is one
    fn std_write(&mut self, _data: &[u8]) -> Option<Result<usize, String>> { None }
    fn std_write_all(&mut self, _data: &[u8]) -> Option<Result<(), String>> { None }
    /// `std::io::copy` from a reader
    fn std_copy(&mut self, _data: &[u8]) -> Option<Result<u64, String>> { None }
    /// `write!` with the text in two arguments
    fn std_fmt(&mut self, _a: &str, _b: &str) -> Option<Result<(), String>> { None }
    fn std_vectored(&mut self, _ps: &[&[u8]]) -> Option<Result<usize, String>> { None }
    /// through a BufWriter, which is flushed, taken apart or dropped at the end
    fn std_buffered(&mut self, _ps: &[&[u8]], _cap: usize, _end: usize) -> Option<Result<(), String>> { None }
    fn std_flush(&mut self) -> Option<Result<(), String>> { None }
    fn bio_write(&mut self, _data: &[u8]) -> Option<Result<usize, String>> { None }
    fn bio_write_all(&mut self, _data: &[u8]) -> Option<Result<(), String>> { None }
    fn bio_flush(&mut self) -> Option<Result<(), String>> { None }
}

#[cfg(feature = "std")]
macro_rules! std_wr {
    () => {
        fn std_write(&mut self, data: &[u8]) -> Option<Result<usize, String>> {
            Some(std::io::Write::write(self, data).map_err(|e| e.to_string()))
        }
        fn std_write_all(&mut self, data: &[u8]) -> Option<Result<(), String>> {
            Some(std::io::Write::write_all(self, data).map_err(|e| e.to_string()))
        }
        fn std_copy(&mut self, data: &[u8]) -> Option<Result<u64, String>> {
            let mut r: &[u8] = data;
            Some(std::io::copy(&mut r, self).map_err(|e| e.to_string()))
        }
        fn std_fmt(&mut self, a: &str, b: &str) -> Option<Result<(), String>> {
            use std::io::Write;
            Some(write!(self, "{}{:>3}", a, b).map_err(|e| e.to_string()))
        }
        fn std_buffered(&mut self, ps: &[&[u8]], cap: usize, end: usize) -> Option<Result<(), String>> {
            use std::io::Write;
            let mut w = std::io::BufWriter::with_capacity(cap, &mut *self);
            for p in ps {
                if let Err(e) = w.write_all(p) {
                    return Some(Err(e.to_string()));
                }
            }
            Some(match end {
                0 => w.flush().map_err(|e| e.to_string()),
                1 => w.into_inner().map(|_| ()).map_err(|e| e.to_string()),
                _ => Ok(()),
            })
        }
        fn std_vectored(&mut self, ps: &[&[u8]]) -> Option<Result<usize, String>> {
            let v: Vec<_> = ps.iter().map(|p| std::io::IoSlice::new(p)).collect();
            Some(std::io::Write::write_vectored(self, &v).map_err(|e| e.to_string()))
        }
        fn std_flush(&mut self) -> Option<Result<(), String>> {
            Some(std::io::Write::flush(self).map_err(|e| e.to_string()))
        }
    };
}
#[cfg(not(feature = "std"))]
macro_rules! std_wr {
    () => {};
}
#[cfg(any(feature = "std", feature = "io"))]
macro_rules! bio_wr {
    () => {
        fn bio_write(&mut self, data: &[u8]) -> Option<Result<usize, String>> {
            Some(bitcoin_io::Write::write(self, data).map_err(|e| format!("{:?}", e)))
        }
        fn bio_write_all(&mut self, data: &[u8]) -> Option<Result<(), String>> {
            Some(bitcoin_io::Write::write_all(self, data).map_err(|e| format!("{:?}", e)))
        }
        fn bio_flush(&mut self) -> Option<Result<(), String>> {
            Some(bitcoin_io::Write::flush(self).map_err(|e| format!("{:?}", e)))
        }
    };
}
#[cfg(not(any(feature = "std", feature = "io")))]
macro_rules! bio_wr {
    () => {};
}

macro_rules! wr {
    ($($t:ty),*) => { $(impl Wr for $t { std_wr!(); bio_wr!(); })* };
}
wr!(sha1::Engine, sha256::Engine, sha512::Engine, ripemd160::Engine, siphash24::Engine, sha256t::Engine<DynTag>);
impl<E: HashEngine> Wr for hmac::Engine<E> {
    std_wr!();
    bio_wr!();
}
impl Wr for sha384::Engine {}
impl Wr for sha512_256::Engine {}

/// An engine behind a pointer.
pub trait Eng: Send {
    fn input(&mut self, data: &[u8]);
    fn wr(&mut self) -> &mut dyn Wr;
    fn n(&self) -> usize;
    fn fin(self: Box<Self>) -> Vec<u8>;
    fn fork(&self) -> Box<dyn Eng>;
    /// `clone_from`; both are of one kind.
    fn assign(&mut self, from: &dyn Eng);
    fn any(&self) -> &dyn core::any::Any;
    /// Export the midstate and make an engine of it.
    fn resume(&self) -> Box<dyn Eng>;
}

struct W<E>(E);

impl<E> Eng for W<E>
where
    E: HashEngine + Wr + 'static,
{
    fn input(&mut self, data: &[u8]) { self.0.input(data) }
    fn wr(&mut self) -> &mut dyn Wr { &mut self.0 }
    fn n(&self) -> usize { self.0.n_bytes_hashed() }
    fn fin(self: Box<Self>) -> Vec<u8> { self.0.finalize().as_ref().to_vec() }
    fn fork(&self) -> Box<dyn Eng> { Box::new(W(self.0.clone())) }
    fn assign(&mut self, from: &dyn Eng) {
        let from: &Self = from.any().downcast_ref().expect("engines of one kind");
        self.0.clone_from(&from.0)
    }
    fn any(&self) -> &dyn core::any::Any { self }
    fn resume(&self) -> Box<dyn Eng> {
        Box::new(W(<E as HashEngine>::from_midstate(self.0.midstate(), self.0.n_bytes_hashed())))
    }
}

// Engines are plain data. If a change made one thread-bound, the harness should still build and
// report it (C19 tests `Send` and `Sync` of every type), not fail to compile.
unsafe impl<E> Send for W<E> {}
