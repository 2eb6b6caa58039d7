//! C01 digests, C03 SipHash, C04 HMAC, C05 tagged SHA-256, C07 const SHA-256.

use chf::{
    hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine,
};

use crate::engines::{gen_key, gen_sip, gen_tag, DynTag, Kind, WideTag};
use crate::refimpl::{self as rf, Alg, ALGS};
use crate::runner::{catch, Cx, Res};
use crate::src::{cap, gen_len, gen_msg, gen_msg_len, gen_partition, hexs, show, Msg, Src};

/// The pieces of `msg` that `cuts` describes.
pub fn pieces<'a>(msg: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut at = 0;
    let mut v = Vec::with_capacity(cuts.len());
    for c in cuts {
        v.push(&msg[at..at + c]);
        at += c;
    }
    assert_eq!(at, msg.len());
    v
}

pub fn expect(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {}, want {}", what, show(got), show(want)))
    }
}

/// Length: mode 0 draws it directly (for sweeps), others by class.
pub fn swept_len(src: &mut Src, block: usize, direct_max: usize, max: usize) -> usize {
    match src.n(3) {
        0 => cap(src.n(direct_max)),
        _ => gen_len(src, block, max),
    }
}

macro_rules! entries {
    ($m:ident, $msg:expr, $ps:expr) => {{
        let msg: &[u8] = $msg;
        let ps: &Vec<&[u8]> = $ps;
        let mut v: Vec<(&'static str, Vec<u8>)> = Vec::new();
        v.push(("Hash::hash", $m::Hash::hash(msg).to_byte_array().to_vec()));
        v.push(("HashEngine::hash", <$m::Engine as HashEngine>::hash(msg).to_vec()));
        v.push((
            "HashEngine::hash_byte_chunks",
            <$m::Engine as HashEngine>::hash_byte_chunks(ps.iter()).to_vec(),
        ));
        let mut e = $m::Hash::engine();
        for p in ps.iter() {
            e.input(p);
        }
        v.push(("Hash::from_engine", $m::Hash::from_engine(e.clone()).to_byte_array().to_vec()));
        v.push(("finalize", e.finalize().to_vec()));
        let mut e = $m::Engine::default();
        e.input(msg);
        v.push(("Engine::default", e.finalize().to_vec()));
        let mut e = <$m::Engine as HashEngine>::new();
        e.input(msg);
        v.push(("Engine::new", e.finalize().to_vec()));
        v
    }};
}

pub fn all_entries(alg: Alg, msg: &[u8], ps: &Vec<&[u8]>) -> Vec<(&'static str, Vec<u8>)> {
    match alg {
        Alg::Sha1 => entries!(sha1, msg, ps),
        Alg::Sha256 => entries!(sha256, msg, ps),
        Alg::Sha384 => entries!(sha384, msg, ps),
        Alg::Sha512 => entries!(sha512, msg, ps),
        Alg::Sha512_256 => entries!(sha512_256, msg, ps),
        Alg::Ripemd160 => entries!(ripemd160, msg, ps),
    }
}

pub fn one_shot(alg: Alg, msg: &[u8]) -> Vec<u8> {
    match alg {
        Alg::Sha1 => sha1::Hash::hash(msg).to_byte_array().to_vec(),
        Alg::Sha256 => sha256::Hash::hash(msg).to_byte_array().to_vec(),
        Alg::Sha384 => sha384::Hash::hash(msg).to_byte_array().to_vec(),
        Alg::Sha512 => sha512::Hash::hash(msg).to_byte_array().to_vec(),
        Alg::Sha512_256 => sha512_256::Hash::hash(msg).to_byte_array().to_vec(),
        Alg::Ripemd160 => ripemd160::Hash::hash(msg).to_byte_array().to_vec(),
    }
}

fn alg_label(a: Alg) -> &'static str { Kind::Plain(a).label() }

fn len_label(n: usize, block: usize) -> &'static str {
    if n == 0 {
        "len=0"
    } else if n < block {
        "len<block"
    } else if n % block == 0 {
        "len=k*block"
    } else if n < 1024 {
        "block<len<1K"
    } else if n < 65536 {
        "1K<=len<64K"
    } else {
        "len>=64K"
    }
}

// ---- C01 -------------------------------------------------------------------------------------

pub const C01_RULE: &str = "A case is (hash function, message, partition); lengths 0..=1100 are swept for each function, \
the rest drawn by class (around block multiples, around powers of two, uniform, up to 1 MiB), contents by recipe \
(constant, counter, single bit, periodic, text, literal, random), at 16 address offsets, or up to 2^20 pieces of 0 to 3 bytes. All one-shot and engine entry points are \
compared with an independent reference implementation. Non-trivial: a non-empty message; distinct by the whole choice sequence.";

pub fn c01(src: &mut Src, cx: &mut Cx) -> Res {
    let a = src.n(97);
    if a >= 96 {
        return crate::props::engine::far_along(src, cx, 0);
    }
    let alg = ALGS[a % 6];
    if a >= 90 && !crate::src::lean() {
        // very many very short pieces
        let k = src.n(3);
        let count = match src.n(15) {
            0..=13 => src.n(3000),
            _ if src.one_in(40) => src.n(1 << 20),
            _ => src.n(1 << 16),
        };
        let d = src.n(3);
        let n = count * k + d;
        let msg = gen_msg_len(src, n);
        let mut cuts = vec![k; count];
        cuts.push(d);
        cx.label(alg_label(alg));
        cx.label("many short pieces");
        cx.nontrivial = n > 0;
        cx.note(|| format!("{:?} of {} in {} pieces of {}", alg, show(&msg), count, k));
        let want = rf::hash(alg, &msg);
        for (name, got) in all_entries(alg, &msg, &pieces(&msg, &cuts)) {
            expect(name, &got, &want).map_err(|e| format!("{:?}, {} bytes: {}", alg, n, e))?;
        }
        return Ok(());
    }
    let n = swept_len(src, alg.block(), 20_000, usize::MAX);
    let msg = gen_msg_len(src, n);
    let cuts = gen_partition(src, n, alg.block());
    cx.label(alg_label(alg));
    cx.label(len_label(n, alg.block()));
    cx.nontrivial = n > 0;
    cx.note(|| format!("{:?} of {} in {} pieces", alg, show(&msg), cuts.len()));
    let want = rf::hash(alg, &msg);
    let ps = pieces(&msg, &cuts);
    if n > 8192 || crate::src::lean() && src.n(3) > 0 {
        // two of the entry points, and now and then all of them
        expect("Hash::hash", &one_shot(alg, &msg), &want)
            .map_err(|e| format!("{:?}, {} bytes: {}", alg, n, e))?;
        if src.one_in(3) {
            for (name, got) in all_entries(alg, &msg, &ps) {
                expect(name, &got, &want).map_err(|e| format!("{:?}, {} bytes: {}", alg, n, e))?;
            }
        }
        let mut e = Kind::Plain(alg).make();
        for p in &ps {
            e.input(p);
        }
        return expect("engine", &e.fin(), &want).map_err(|e| format!("{:?}, {} bytes: {}", alg, n, e));
    }
    for (name, got) in all_entries(alg, &msg, &ps) {
        expect(name, &got, &want).map_err(|e| format!("{:?}, {} bytes: {}", alg, n, e))?;
    }
    Ok(())
}

pub fn c01_sweep(thorough: bool) -> Vec<Vec<u64>> {
    let max = if thorough { 8300 } else { 1100 };
    let mut v = Vec::new();
    for n in 0..=max {
        for a in 0..6 {
            v.push(vec![a, 0, n]);
        }
    }
    // one piece more than 2^8, 2^16, 2^20 of them
    for a in 90..96 {
        for k in [0, 1, 3] {
            v.push(vec![a, k, 0, 256, 1]);
            v.push(vec![a, k, 15, 0, 1 << 16, 1]);
        }
        v.push(vec![a, 1, 15, 39, 1 << 20, 1]);
    }
    v
}

/// Read-only zeros: anonymous memory costs nothing, as every page is the zero page.
#[cfg(not(miri))]
pub fn zeros(len: usize) -> &'static mut [u8] {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            len + 1,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        core::slice::from_raw_parts_mut(p as *mut u8, len)
    }
}

/// The digit '0' in the first 8192 places of 2^32 + 65536 zeros.
#[cfg(all(not(miri), target_pointer_width = "64"))]
pub fn big() -> &'static [u8] {
    static BIG: std::sync::OnceLock<&'static [u8]> = std::sync::OnceLock::new();
    BIG.get_or_init(|| {
        let z = zeros((1 << 32) + 65536);
        z[..8192].iter_mut().for_each(|b| *b = b'0');
        z
    })
}

/// `n` plus a multiple of 2^8, 2^16 or 2^32: a length that a narrower integer takes for `n`.
/// None where memory is dear.
pub fn aliased(src: &mut Src, n: usize) -> Option<&'static [u8]> {
    let k: u64 = match src.n(11) {
        0..=8 => (src.n(15) as u64 + 1) << 8,
        9..=10 => 1 << 16,
        _ => 1 << 32,
    };
    #[cfg(all(not(miri), target_pointer_width = "64"))]
    return Some(&big()[..n + k as usize]);
    #[cfg(not(all(not(miri), target_pointer_width = "64")))]
    {
        let _ = (n, k);
        None
    }
}

/// Very long messages (zeros), to be compared with digests computed elsewhere. The digest, and by
/// how much the count of hashed bytes grew.
#[cfg(not(miri))]
pub fn giant(kind: &str, feed: &str, len: usize, piece: usize) -> (Vec<u8>, usize) {
    let s: &[u8] = zeros(len);
    let alg = |name: &str| ALGS.into_iter().find(|a| Kind::Plain(*a).label() == name).expect("a kind");
    let kind = match kind {
        "sip" => Kind::Sip(0x0706050403020100, 0x0f0e0d0c0b0a0908),
        "tagged" => Kind::Tagged(b"giant".to_vec()),
        k => match k.strip_prefix("hmac-") {
            Some(k) => Kind::Hmac(alg(k), b"giant key".to_vec()),
            None => Kind::Plain(alg(k)),
        },
    };
    let mut e = kind.make();
    let before = e.n();
    match feed {
        "hash" => {
            let r = match kind {
                Kind::Plain(a) => one_shot(a, s),
                Kind::Sip(a, b) => siphash24::Hash::hash_with_keys(a, b, s).to_byte_array().to_vec(),
                Kind::Tagged(_) => sha256t::Hash::<DynTag>::hash(s).to_byte_array().to_vec(),
                _ => panic!("no one-shot function"),
            };
            return (r, len);
        }
        "u64" => return (siphash24::Hash::hash_to_u64_with_keys(0x0706050403020100, 0x0f0e0d0c0b0a0908, s).to_le_bytes().to_vec(), len),
        "const" => return (sha256::Hash::const_hash(s).to_byte_array().to_vec(), len),
        "ref" => return (kind.reference(s), len),
        "input" => e.input(s),
        "head" => {
            e.input(&s[..piece]);
            e.input(&s[piece..]);
        }
        "pieces" =>
            for c in s.chunks(piece) {
                e.input(c);
            },
        "write" | "bio" => {
            let r = if feed == "write" { e.wr().std_write(s) } else { e.wr().bio_write(s) };
            match r {
                Some(Ok(n)) if n == len => {}
                r => panic!("writing {} bytes gave {:?}", len, r),
            }
        }
        _ => panic!("no such way"),
    }
    let n = e.n() - before;
    (e.fin(), n)
}

/// fixed_time_eq on slices of more than 2^32 bytes: equal, and different at `at` only.
#[cfg(not(miri))]
pub fn giant_eq(len: usize, at: usize) -> (bool, bool) {
    let a = zeros(len);
    let b = zeros(len);
    let same = chf::cmp::fixed_time_eq(a, b);
    b[at] = 4;
    (same, chf::cmp::fixed_time_eq(a, b))
}

// ---- C03 -------------------------------------------------------------------------------------

pub const C03_RULE: &str = "A case is (k0, k1, message, partition); all triples of piece lengths 0..=17 are swept with random keys, \
the rest is random. The digest, the integer APIs and the keyed and unkeyed constructors are compared with a reference SipHash-2-4. \
Non-trivial: non-empty message; distinct by choice sequence.";

pub fn c03(src: &mut Src, cx: &mut Cx) -> Res {
    let mode = src.n(90);
    if mode == 90 {
        return crate::props::engine::far_along(src, cx, 3);
    }
    let mode = mode % 3;
    let (n, cuts) = if mode == 0 {
        let a = src.n(17);
        let b = src.n(17);
        let c = src.n(17);
        (a + b + c, vec![a, b, c])
    } else {
        let n = gen_len(src, 8, usize::MAX);
        (n, gen_partition(src, n, 8))
    };
    let (k0, k1) = match gen_sip(src) {
        Kind::Sip(a, b) => (a, b),
        _ => unreachable!(),
    };
    let msg = gen_msg_len(src, n);
    cx.nontrivial = n > 0;
    cx.label(if mode == 0 { "three pieces" } else { "any partition" });
    cx.label(match n % 8 {
        0 => "len%8=0",
        1..=3 => "len%8=1..3",
        _ => "len%8=4..7",
    });
    if n > 255 {
        cx.label("len>255");
    }
    cx.note(|| format!("keys {:#x},{:#x} message {} pieces {:?}", k0, k1, show(&msg), cuts));
    let want = rf::siphash(k0, k1, &msg);
    let wb = want.to_le_bytes();
    let want0 = rf::siphash(0, 0, &msg);
    let ps = pieces(&msg, &cuts);

    let mut e = siphash24::Engine::with_keys(k0, k1);
    if e.keys() != (k0, k1) {
        return Err(format!("keys() = {:?} at the start", e.keys()));
    }
    for p in &ps {
        // each piece in memory of its own, exactly as long
        let own: Box<[u8]> = p.to_vec().into_boxed_slice();
        e.input(&own);
    }
    if e.keys() != (k0, k1) {
        return Err(format!("keys() = {:?} after input", e.keys()));
    }
    if e.n_bytes_hashed() != n {
        return Err(format!("n_bytes_hashed() = {} after {} bytes", e.n_bytes_hashed(), n));
    }
    expect("finalize", &e.clone().finalize(), &wb)?;
    let h = siphash24::Hash::from_engine(e.clone());
    expect("Hash::from_engine", h.as_byte_array(), &wb)?;
    let ints = [
        ("from_engine_to_u64", siphash24::Hash::from_engine_to_u64(e), want),
        ("as_u64", h.as_u64(), want),
        ("hash_to_u64_with_keys", siphash24::Hash::hash_to_u64_with_keys(k0, k1, &msg), want),
        ("hash_with_keys", siphash24::Hash::hash_with_keys(k0, k1, &msg).as_u64(), want),
        ("Hash::hash", siphash24::Hash::hash(&msg).as_u64(), want0),
        ("keys 0,0", siphash24::Hash::hash_to_u64_with_keys(0, 0, &msg), want0),
    ];
    for (what, got, want) in ints {
        if got != want {
            return Err(format!("{}: got {:#018x}, want {:#018x}", what, got, want));
        }
    }
    expect("from_u64", siphash24::Hash::from_u64(want).as_byte_array(), &wb)?;
    if siphash24::Hash::from_u64(want) != h || siphash24::Hash::from_byte_array(wb) != h {
        return Err("from_u64 and from_engine differ".into());
    }
    let w0 = want0.to_le_bytes();
    for (what, mut e) in [
        ("Engine::new", siphash24::Engine::new()),
        ("HashEngine::new", <siphash24::Engine as HashEngine>::new()),
        ("Default", siphash24::Engine::default()),
        ("Hash::engine", siphash24::Hash::engine()),
    ] {
        if e.keys() != (0, 0) {
            return Err(format!("{}: keys {:?}", what, e.keys()));
        }
        for p in &ps {
            e.input(p);
        }
        expect(what, &e.finalize(), &w0)?;
    }
    expect("HashEngine::hash", &<siphash24::Engine as HashEngine>::hash(&msg), &w0)?;
    expect("hash_byte_chunks", &<siphash24::Engine as HashEngine>::hash_byte_chunks(&ps), &w0)
}

pub fn c03_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for a in 0..=17 {
        for b in 0..=17 {
            for c in 0..=17 {
                v.push(vec![0, a, b, c]);
            }
        }
    }
    v
}

// ---- C04 -------------------------------------------------------------------------------------

/// A hash function of the harness's own, with any block and digest size.
#[derive(Clone, Default)]
pub struct Toy<const B: usize, const D: usize>(Vec<u8>);

fn toy_hash(msg: &[u8], d: usize) -> Vec<u8> {
    let mut h = 0x1234_5678_9abc_def1u64 ^ msg.len() as u64;
    for b in msg {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
    let mut out = Vec::new();
    while out.len() < d {
        h = crate::src::mix(h, out.len() as u64);
        out.extend_from_slice(&h.to_le_bytes());
    }
    out.truncate(d);
    out
}

impl<const B: usize, const D: usize> HashEngine for Toy<B, D> {
    type Digest = [u8; D];
    type Midstate = Vec<u8>;
    const BLOCK_SIZE: usize = B;
    fn input(&mut self, data: &[u8]) { self.0.extend_from_slice(data) }
    fn n_bytes_hashed(&self) -> usize { self.0.len() }
    fn finalize(self) -> [u8; D] {
        let mut a = [0; D];
        a.copy_from_slice(&toy_hash(&self.0, D));
        a
    }
    fn midstate(&self) -> Vec<u8> { self.0.clone() }
    fn from_midstate(m: Vec<u8>, _length: usize) -> Self { Toy(m) }
}

pub const C04_RULE: &str = "A case is (hash function, key, message, partition); hash functions are the crate's seven engine types, tagged SHA-256, \
HMAC itself, and harness-defined engines with blocks of 1 to 128 bytes; key lengths 0..=300 are swept for each of the crate's functions. \
Compared with RFC 2104 computed by the reference. Blocks over 128 must panic. Non-trivial: a non-empty key or message; distinct by choice sequence.";

fn toy_case<const B: usize, const D: usize>(src: &mut Src, cx: &mut Cx, klen: Option<usize>) -> Res {
    let key = match klen {
        Some(n) => crate::src::gen_fill(src, n).0,
        None => gen_key(src, B),
    };
    let msg = gen_msg(src, B, 5000);
    let cuts = gen_partition(src, msg.len(), B);
    cx.label("user-defined engine");
    cx.nontrivial = !key.is_empty() || !msg.is_empty();
    cx.note(|| format!("user engine block {} digest {} key {} message {} pieces {}", B, D, show(&key), show(&msg), cuts.len()));
    if B > 128 {
        let r = catch(|| {
            let mut e = hmac::Engine::<Toy<B, D>>::new(&key);
            e.input(&msg);
            e.finalize()
        });
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("block size {} must panic", B)),
        };
    }
    let want = rf::hmac(&|m: &[u8]| toy_hash(m, D), B, &key, &msg);
    let mut e = hmac::Engine::<Toy<B, D>>::new(&key);
    for p in pieces(&msg, &cuts) {
        e.input(p);
    }
    expect("user engine", &e.clone().finalize(), &want)?;
    expect("from_engine", hmac::Hash::<D>::from_engine(e).as_bytes(), &want)
}

fn default_key<E, const N: usize>(msg: &[u8], want: &[u8]) -> Res
where
    E: HashEngine<Digest = [u8; N]>,
{
    let mut e = hmac::Engine::<E>::default();
    e.input(msg);
    expect("Default", hmac::Hash::<N>::from_engine(e).as_byte_array(), want)?;
    let mut e = <hmac::Engine<E> as HashEngine>::new();
    e.input(msg);
    expect("HashEngine::new", &e.finalize(), want)?;
    let mut e: hmac::Engine<E> = hmac::Hash::<N>::engine();
    e.input(msg);
    expect("Hash::engine", &e.finalize(), want)?;
    expect("HashEngine::hash", &<hmac::Engine<E> as HashEngine>::hash(msg), want)?;
    if <hmac::Engine<E> as HashEngine>::BLOCK_SIZE != E::BLOCK_SIZE {
        return Err("BLOCK_SIZE differs from the hash function's".into());
    }
    Ok(())
}

pub fn c04(src: &mut Src, cx: &mut Cx) -> Res {
    // 0..=8 the crate's engines, 9 HMAC over HMAC, then user-defined ones
    let which = src.n(480);
    if which == 480 {
        return crate::props::engine::far_along(src, cx, 1);
    }
    let which = which % 16;
    let klen = match src.n(1) {
        0 => Some(src.n(300)),
        _ => None,
    };
    if which >= 10 {
        return match src.n(15) {
            0 => toy_case::<64, 32>(src, cx, klen),
            1 => toy_case::<128, 128>(src, cx, klen),
            2 => toy_case::<1, 1>(src, cx, klen),
            3 => toy_case::<4, 3>(src, cx, klen),
            4 => toy_case::<8, 8>(src, cx, klen),
            5 => toy_case::<16, 16>(src, cx, klen),
            6 => toy_case::<17, 5>(src, cx, klen),
            7 => toy_case::<63, 32>(src, cx, klen),
            8 => toy_case::<72, 64>(src, cx, klen),
            9 => toy_case::<104, 48>(src, cx, klen),
            10 => toy_case::<127, 64>(src, cx, klen),
            11 => toy_case::<128, 20>(src, cx, klen),
            12 => toy_case::<65, 33>(src, cx, klen),
            13 => toy_case::<129, 32>(src, cx, klen),
            14 => toy_case::<136, 32>(src, cx, klen),
            _ => toy_case::<256, 64>(src, cx, klen),
        };
    }
    let blk = match which {
        6 => 32,
        2 | 3 | 4 => 128,
        _ => 64,
    };
    let key = match klen {
        Some(n) => crate::src::gen_fill(src, n).0,
        None => gen_key(src, blk),
    };
    let kind = match which {
        0..=5 => Kind::Hmac(ALGS[which], key.clone()),
        6 => Kind::HmacSip(key.clone()),
        7 | 8 => Kind::HmacTagged(gen_tag(src), key.clone()),
        _ => Kind::HmacHmac(key.clone()),
    };
    let msg = gen_msg(src, blk, 70_000);
    let cuts = gen_partition(src, msg.len(), blk);
    cx.label(kind.label());
    cx.label(if key.is_empty() {
        "key empty"
    } else if key.len() < blk {
        "key < block"
    } else if key.len() == blk {
        "key = block"
    } else {
        "key > block"
    });
    cx.nontrivial = !key.is_empty() || !msg.is_empty();
    cx.note(|| format!("{} message {} pieces {}", kind.show(), show(&msg), cuts.len()));
    let want = kind.reference(&msg);
    // the key at an odd address
    let mut e = kind.make();
    for p in pieces(&msg, &cuts) {
        e.input(p);
    }
    expect(kind.label(), &e.fin(), &want).map_err(|e| format!("{} (key of {} bytes)", e, key.len()))?;
    macro_rules! whole {
        ($e:ty, $n:literal) => {{
            let mut e = hmac::Engine::<$e>::new(&Msg::new(&key, 3));
            e.input(&msg);
            expect("Hash::from_engine", hmac::Hash::<$n>::from_engine(e).as_byte_array(), &want)?;
            if key.is_empty() {
                default_key::<$e, $n>(&msg, &want)?;
            }
        }};
    }
    match kind {
        Kind::Hmac(Alg::Sha1, _) => whole!(sha1::Engine, 20),
        Kind::Hmac(Alg::Sha256, _) => whole!(sha256::Engine, 32),
        Kind::Hmac(Alg::Sha384, _) => whole!(sha384::Engine, 48),
        Kind::Hmac(Alg::Sha512, _) => whole!(sha512::Engine, 64),
        Kind::Hmac(Alg::Sha512_256, _) => whole!(sha512_256::Engine, 32),
        Kind::Hmac(Alg::Ripemd160, _) => whole!(ripemd160::Engine, 20),
        Kind::HmacSip(_) => whole!(siphash24::Engine, 8),
        Kind::HmacTagged(..) => whole!(sha256t::Engine<DynTag>, 32),
        _ => whole!(hmac::Engine<sha256::Engine>, 32),
    }
    Ok(())
}

pub fn c04_sweep(thorough: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for k in 0..=300 {
        for w in 0..10 {
            if w < 8 || thorough || k % 16 < 2 {
                v.push(vec![w, 0, k]);
            }
        }
    }
    for t in 0..=15 {
        for k in 0..=150 {
            if thorough || k < 20 || k % 8 < 3 {
                v.push(vec![10, 0, k, t]);
            }
        }
    }
    v
}

// ---- C05 -------------------------------------------------------------------------------------

pub const C05_RULE: &str = "A case is (tag, message, partition); tag lengths 0..=200 and message lengths 0..=300 are swept. The tag's midstate from the crate's \
hash_tag is compared with the reference chaining value, and every constructor of engine and hash with SHA256(SHA256(tag)||SHA256(tag)||message). \
Non-trivial: non-empty message or tag; distinct by choice sequence.";

pub fn c05(src: &mut Src, cx: &mut Cx) -> Res {
    let mode = src.n(90);
    if mode == 90 {
        return crate::props::engine::far_along(src, cx, 2);
    }
    let (tag, n) = match mode % 3 {
        0 => {
            let t = src.n(200);
            let n = src.n(300);
            (crate::src::gen_fill(src, t).0, cap(n))
        }
        _ => {
            let t = gen_tag(src);
            (t, gen_len(src, 64, 70_000))
        }
    };
    let msg = gen_msg_len(src, n);
    let cuts = gen_partition(src, n, 64);
    cx.nontrivial = n > 0 || !tag.is_empty();
    cx.label(len_label(n, 64));
    cx.label(if tag.len() <= 55 { "tag<=55" } else { "tag>55" });
    cx.note(|| format!("tag {} message {} pieces {}", show(&tag), show(&msg), cuts.len()));
    let mid = sha256::Midstate::hash_tag(&Msg::new(&tag, n % 8));
    expect("hash_tag", &mid.to_byte_array(), &rf::tag_midstate(&tag))?;
    DynTag::set(mid.to_byte_array());
    let want = rf::tagged(&tag, &msg);
    let ps = pieces(&msg, &cuts);
    if src.one_in(4) {
        cx.label("tag type with contents");
        c05_tag::<WideTag>(src, &msg, &ps, &want)
    } else {
        c05_tag::<DynTag>(src, &msg, &ps, &want)
    }
}

fn c05_tag<T: sha256t::Tag>(src: &mut Src, msg: &[u8], ps: &[&[u8]], want: &[u8]) -> Res {
    expect("Hash::hash", sha256t::Hash::<T>::hash(msg).as_byte_array(), want)?;
    expect("HashEngine::hash", &<sha256t::Engine<T> as HashEngine>::hash(msg), want)?;
    expect("hash_byte_chunks", &<sha256t::Engine<T> as HashEngine>::hash_byte_chunks(ps.iter()), want)?;
    for (what, mut e) in [
        ("Hash::engine", sha256t::Hash::<T>::engine()),
        ("Engine::new", <sha256t::Engine<T> as HashEngine>::new()),
        ("Engine::default", sha256t::Engine::<T>::default()),
        ("Tag::engine", <T as sha256t::Tag>::engine()),
    ] {
        if crate::src::lean() && src.n(3) > 0 {
            continue;
        }
        for p in ps {
            e.input(p);
        }
        expect(what, &e.clone().finalize(), want)?;
        expect("Hash::from_engine", sha256t::Hash::<T>::from_engine(e).as_byte_array(), want)?;
    }
    Ok(())
}

pub fn c05_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for t in 0..=200 {
        v.push(vec![0, t, t % 70]);
    }
    for n in 0..=300 {
        v.push(vec![0, n % 23, n]);
    }
    v
}

// ---- C07 -------------------------------------------------------------------------------------

pub const C07_RULE: &str = "A case is a message; lengths 0..=1100 are swept. const_hash is compared with the run-time hash and with the reference, \
hash_tag with the midstate of an engine fed the digest twice and with the reference. Separately, generated programs evaluate both in const items at compile time \
and are compared with the reference. Non-trivial: non-empty; distinct by choice sequence.";

pub fn c07(src: &mut Src, cx: &mut Cx) -> Res {
    let n = swept_len(src, 64, 2000, usize::MAX);
    let msg = gen_msg_len(src, n);
    cx.nontrivial = n > 0;
    cx.label(len_label(n, 64));
    cx.label(if n % 64 > 55 { "padding needs a block more" } else { "padding fits" });
    cx.note(|| format!("message {}", show(&msg)));
    let want = rf::hash(Alg::Sha256, &msg);
    expect("const_hash", sha256::Hash::const_hash(&msg).as_byte_array(), &want)?;
    expect("hash", sha256::Hash::hash(&msg).as_byte_array(), &want)?;
    let mid = sha256::Midstate::hash_tag(&msg);
    expect("hash_tag", &mid.to_byte_array(), &rf::tag_midstate(&msg))?;
    let d = sha256::Hash::hash(&msg);
    let mut e = sha256::Engine::default();
    e.input(d.as_bytes());
    e.input(d.as_bytes());
    expect("engine midstate", &e.midstate().to_byte_array(), &mid.to_byte_array())
}

pub fn c07_sweep(thorough: bool) -> Vec<Vec<u64>> {
    (0..=if thorough { 2000 } else { 1100 }).map(|n| vec![0, n]).collect()
}

/// For the compile-time programs: reference values of a message.
pub fn c07_expected(msg: &[u8]) -> (String, String) {
    (hexs(&rf::hash(Alg::Sha256, msg)), hexs(&rf::tag_midstate(msg)))
}
