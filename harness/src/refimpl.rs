//! Reference implementations, written from the specifications (FIPS 180-4, the RIPEMD-160 paper,
//! the SipHash paper, RFC 2104, BIP-340 tagged hashes). SHA-2 constants are derived from the
//! definition (fractional parts of roots of primes) rather than copied.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
    Sha512_256,
    Ripemd160,
}

pub const ALGS: [Alg; 6] =
    [Alg::Sha1, Alg::Sha256, Alg::Sha384, Alg::Sha512, Alg::Sha512_256, Alg::Ripemd160];

impl Alg {
    pub fn block(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Sha256 | Alg::Ripemd160 => 64,
            _ => 128,
        }
    }
    pub fn len(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Ripemd160 => 20,
            Alg::Sha256 | Alg::Sha512_256 => 32,
            Alg::Sha384 => 48,
            Alg::Sha512 => 64,
        }
    }
    /// Length of the chaining value.
    pub fn state_len(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Ripemd160 => 20,
            Alg::Sha256 => 32,
            _ => 64,
        }
    }
}

// ---- constants -------------------------------------------------------------------------------

fn primes(n: usize) -> Vec<u64> {
    let mut p = Vec::new();
    let mut k = 2u64;
    while p.len() < n {
        if p.iter().all(|q| k % q != 0) {
            p.push(k);
        }
        k += 1;
    }
    p
}

/// little-endian base 2^32
fn big_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut carry = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + r[i + j] as u64 + carry;
            r[i + j] = t as u32;
            carry = t >> 32;
        }
        r[i + b.len()] = carry as u32;
    }
    r
}

fn big_le(a: &[u32], b: &[u32]) -> bool {
    let n = core::cmp::max(a.len(), b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x < y;
        }
    }
    true
}

fn to_big(x: u128) -> Vec<u32> {
    vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32]
}

/// First 64 bits of the fractional part of the `k`-th root of `p`.
fn frac_root(p: u64, k: u32) -> u64 {
    // floor(root_k(p * 2^(64k))) by bisection
    let mut target = vec![0u32; (2 * k) as usize];
    target.push(p as u32);
    let (mut lo, mut hi) = (0u128, 1u128 << 70);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let b = to_big(mid);
        let mut pw = b.clone();
        for _ in 1..k {
            pw = big_mul(&pw, &b);
        }
        if big_le(&pw, &target) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

#[derive(PartialEq, Debug)]
struct Consts {
    k64: [u64; 80],
    k32: [u32; 64],
    iv256: [u32; 8],
    iv512: [u64; 8],
    iv384: [u64; 8],
    iv512_256: [u64; 8],
}

include!("refconsts.rs");

fn consts() -> &'static Consts { &CONSTS }

/// The constants from their definition; the self-test compares the table with them.
fn derived() -> Consts {
    {
        let p = primes(80);
        let mut c = Consts {
            k64: [0; 80],
            k32: [0; 64],
            iv256: [0; 8],
            iv512: [0; 8],
            iv384: [0; 8],
            iv512_256: [0; 8],
        };
        for i in 0..80 {
            c.k64[i] = frac_root(p[i], 3);
        }
        for i in 0..64 {
            c.k32[i] = (c.k64[i] >> 32) as u32;
        }
        for i in 0..8 {
            c.iv512[i] = frac_root(p[i], 2);
            c.iv256[i] = (c.iv512[i] >> 32) as u32;
            c.iv384[i] = frac_root(p[i + 8], 2);
        }
        // FIPS 180-4, 5.3.6: SHA-512/t IV generation
        let mut h = c.iv512;
        for x in h.iter_mut() {
            *x ^= 0xa5a5_a5a5_a5a5_a5a5;
        }
        let name = b"SHA-512/256";
        let mut blk = [0u8; 128];
        blk[..name.len()].copy_from_slice(name);
        blk[name.len()] = 0x80;
        blk[127] = (name.len() * 8) as u8;
        c512(&mut h, &blk, &c.k64);
        c.iv512_256 = h;
        c
    }
}

/// The text of refconsts.rs.
pub fn consts_text() -> String {
    format!("static CONSTS: Consts = {:#x?};\n", derived())
}

// ---- answers computed by a faster process ------------------------------------------------------

static TAPE: std::sync::Mutex<Option<Tape>> = std::sync::Mutex::new(None);
static TAPE_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Tape {
    map: std::collections::BTreeMap<u64, Vec<u8>>,
    /// Records of `REC` bytes, sorted: key, length, answer.
    file: Vec<u8>,
    record: bool,
}

const REC: usize = 8 + 1 + 64;

impl Tape {
    fn get(&self, key: u64) -> Option<Vec<u8>> {
        let (mut lo, mut hi) = (0, self.file.len() / REC);
        while lo < hi {
            let mid = (lo + hi) / 2;
            let r = &self.file[mid * REC..(mid + 1) * REC];
            let mut k = [0; 8];
            k.copy_from_slice(&r[..8]);
            match u64::from_le_bytes(k).cmp(&key) {
                core::cmp::Ordering::Equal => return Some(r[9..9 + r[8] as usize].to_vec()),
                core::cmp::Ordering::Less => lo = mid + 1,
                core::cmp::Ordering::Greater => hi = mid,
            }
        }
        self.map.get(&key).cloned()
    }
}

/// Records all answers, or reads them from a file: interpreted runs judge the same cases as a
/// native run before them, and the reference is the same code in both.
pub fn tape_open(file: Option<&str>) {
    *TAPE.lock().unwrap() = Some(Tape {
        map: Default::default(),
        record: file.is_none(),
        file: file.map(|f| std::fs::read(f).expect("tape")).unwrap_or_default(),
    });
    TAPE_ON.store(true, std::sync::atomic::Ordering::SeqCst);
}

pub fn tape_write(file: &str) {
    let mut out = Vec::new();
    for (k, v) in &TAPE.lock().unwrap().as_ref().unwrap().map {
        out.extend_from_slice(&k.to_le_bytes());
        out.push(v.len() as u8);
        let mut a = [0; 64];
        a[..v.len()].copy_from_slice(v);
        out.extend_from_slice(&a);
    }
    std::fs::write(file, out).expect("tape");
}

fn tape(head: &[u64], parts: &[&[u8]], f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    if !TAPE_ON.load(std::sync::atomic::Ordering::Relaxed) {
        return f();
    }
    let mut h = 0x9e37_79b9_7f4a_7c15u64;
    let mut step = |x: u64| h = (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29);
    head.iter().for_each(|x| step(*x));
    for p in parts {
        step(p.len() as u64);
        let mut it = p.chunks_exact(8);
        for c in &mut it {
            let mut b = [0; 8];
            b.copy_from_slice(c);
            step(u64::from_le_bytes(b));
        }
        let mut last = [0; 8];
        last[..it.remainder().len()].copy_from_slice(it.remainder());
        step(u64::from_le_bytes(last));
    }
    if let Some(v) = TAPE.lock().unwrap().as_ref().and_then(|t| t.get(h)) {
        return v;
    }
    let v = f();
    let mut g = TAPE.lock().unwrap();
    let t = g.as_mut().unwrap();
    if t.record {
        t.map.insert(h, v.clone());
    }
    v
}

// ---- compression functions -------------------------------------------------------------------

fn c1(h: &mut [u32; 5], block: &[u8]) {
    let mut w = [0u32; 80];
    for t in 0..16 {
        w[t] = u32::from_be_bytes([block[4 * t], block[4 * t + 1], block[4 * t + 2], block[4 * t + 3]]);
    }
    for t in 16..80 {
        w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
    }
    let [mut a, mut b, mut c, mut d, mut e] = *h;
    for t in 0..80 {
        let (f, k) = if t < 20 {
            (((c ^ d) & b) ^ d, 0x5a827999u32)
        } else if t < 40 {
            (b ^ c ^ d, 0x6ed9eba1)
        } else if t < 60 {
            ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc)
        } else {
            (b ^ c ^ d, 0xca62c1d6)
        };
        let tmp = a
            .rotate_left(5)
            .wrapping_add(f)
            .wrapping_add(e)
            .wrapping_add(k)
            .wrapping_add(w[t]);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = tmp;
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
        *x = x.wrapping_add(y);
    }
}

fn c256(h: &mut [u32; 8], block: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = u32::from_be_bytes([block[4 * t], block[4 * t + 1], block[4 * t + 2], block[4 * t + 3]]);
    }
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = *h;
    for t in 0..64 {
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        hh = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
        *x = x.wrapping_add(y);
    }
}

fn c512(h: &mut [u64; 8], block: &[u8], k: &[u64; 80]) {
    let mut w = [0u64; 80];
    for t in 0..16 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&block[8 * t..8 * t + 8]);
        w[t] = u64::from_be_bytes(b);
    }
    for t in 16..80 {
        let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
        let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = *h;
    for t in 0..80 {
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        hh = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
        *x = x.wrapping_add(y);
    }
}

const RL: [u8; 80] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2,
    14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13,
    3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
];
const RR: [u8; 80] = [
    5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12,
    4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5,
    12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
];
const SL: [u8; 80] = [
    11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9,
    11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15,
    9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
];
const SR: [u8; 80] = [
    8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7,
    6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6,
    14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
];

fn crmd(h: &mut [u32; 5], block: &[u8]) {
    let mut x = [0u32; 16];
    for t in 0..16 {
        x[t] = u32::from_le_bytes([block[4 * t], block[4 * t + 1], block[4 * t + 2], block[4 * t + 3]]);
    }
    let f = |j: usize, x: u32, y: u32, z: u32| match j {
        0 => x ^ y ^ z,
        1 => (x & y) | (!x & z),
        2 => (x | !y) ^ z,
        3 => (x & z) | (y & !z),
        _ => x ^ (y | !z),
    };
    let kl = [0, 0x5a827999u32, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    let kr = [0x50a28be6u32, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    let mut l = *h;
    let mut r = *h;
    for j in 0..80 {
        let g = j / 16;
        let t = l[0]
            .wrapping_add(f(g, l[1], l[2], l[3]))
            .wrapping_add(x[RL[j] as usize])
            .wrapping_add(kl[g])
            .rotate_left(SL[j] as u32)
            .wrapping_add(l[4]);
        l = [l[4], t, l[1], l[2].rotate_left(10), l[3]];
        let t = r[0]
            .wrapping_add(f(4 - g, r[1], r[2], r[3]))
            .wrapping_add(x[RR[j] as usize])
            .wrapping_add(kr[g])
            .rotate_left(SR[j] as u32)
            .wrapping_add(r[4]);
        r = [r[4], t, r[1], r[2].rotate_left(10), r[3]];
    }
    let t = h[1].wrapping_add(l[2]).wrapping_add(r[3]);
    h[1] = h[2].wrapping_add(l[3]).wrapping_add(r[4]);
    h[2] = h[3].wrapping_add(l[4]).wrapping_add(r[0]);
    h[3] = h[4].wrapping_add(l[0]).wrapping_add(r[1]);
    h[4] = h[0].wrapping_add(l[1]).wrapping_add(r[2]);
    h[0] = t;
}

/// A chaining value.
#[derive(Clone, PartialEq, Eq)]
pub enum State {
    S5(Alg, [u32; 5]),
    S8(Alg, [u32; 8]),
    L8(Alg, [u64; 8]),
}

impl State {
    pub fn init(alg: Alg) -> State {
        const R: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
        let c = consts();
        match alg {
            Alg::Sha1 | Alg::Ripemd160 => State::S5(alg, R),
            Alg::Sha256 => State::S8(alg, c.iv256),
            Alg::Sha384 => State::L8(alg, c.iv384),
            Alg::Sha512 => State::L8(alg, c.iv512),
            Alg::Sha512_256 => State::L8(alg, c.iv512_256),
        }
    }

    pub fn alg(&self) -> Alg {
        match self {
            State::S5(a, _) | State::S8(a, _) | State::L8(a, _) => *a,
        }
    }

    pub fn from_bytes(alg: Alg, b: &[u8]) -> State {
        assert_eq!(b.len(), alg.state_len());
        match alg {
            Alg::Sha1 | Alg::Ripemd160 => {
                let mut h = [0u32; 5];
                for i in 0..5 {
                    let w = [b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]];
                    h[i] =
                        if alg == Alg::Sha1 { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) };
                }
                State::S5(alg, h)
            }
            Alg::Sha256 => {
                let mut h = [0u32; 8];
                for i in 0..8 {
                    h[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
                }
                State::S8(alg, h)
            }
            _ => {
                let mut h = [0u64; 8];
                for i in 0..8 {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&b[8 * i..8 * i + 8]);
                    h[i] = u64::from_be_bytes(w);
                }
                State::L8(alg, h)
            }
        }
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        match self {
            State::S5(Alg::Ripemd160, h) => h.iter().flat_map(|x| x.to_le_bytes()).collect(),
            State::S5(_, h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
            State::S8(_, h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
            State::L8(_, h) => h.iter().flat_map(|x| x.to_be_bytes()).collect(),
        }
    }

    pub fn compress(&mut self, block: &[u8]) {
        match self {
            State::S5(Alg::Ripemd160, h) => crmd(h, block),
            State::S5(_, h) => c1(h, block),
            State::S8(_, h) => c256(h, block, &consts().k32),
            State::L8(_, h) => c512(h, block, &consts().k64),
        }
    }

    /// Digest of a message whose first `total - tail.len()` bytes led to this state.
    pub fn finish(self, total: u128, tail: &[u8]) -> Vec<u8> {
        let st = self.to_bytes();
        let head = [self.alg() as u64, total as u64, (total >> 64) as u64];
        tape(&head, &[&st, tail], || self.finish_now(total, tail))
    }

    fn finish_now(mut self, total: u128, tail: &[u8]) -> Vec<u8> {
        let alg = self.alg();
        let bl = alg.block();
        let mut chunks = tail.chunks_exact(bl);
        for b in &mut chunks {
            self.compress(b);
        }
        let mut last = chunks.remainder().to_vec();
        last.push(0x80);
        let lenf = if bl == 64 { 8 } else { 16 };
        while (last.len() + lenf) % bl != 0 {
            last.push(0);
        }
        let bits = total * 8;
        if alg == Alg::Ripemd160 {
            last.extend_from_slice(&(bits as u64).to_le_bytes());
        } else if lenf == 8 {
            last.extend_from_slice(&(bits as u64).to_be_bytes());
        } else {
            last.extend_from_slice(&bits.to_be_bytes());
        }
        for b in last.chunks_exact(bl) {
            self.compress(b);
        }
        let mut out = self.to_bytes();
        out.truncate(alg.len());
        out
    }
}

pub fn hash(alg: Alg, msg: &[u8]) -> Vec<u8> { State::init(alg).finish(msg.len() as u128, msg) }

// ---- SipHash-2-4 -----------------------------------------------------------------------------

fn sipround(v: &mut [u64; 4]) {
    v[0] = v[0].wrapping_add(v[1]);
    v[1] = v[1].rotate_left(13);
    v[1] ^= v[0];
    v[0] = v[0].rotate_left(32);
    v[2] = v[2].wrapping_add(v[3]);
    v[3] = v[3].rotate_left(16);
    v[3] ^= v[2];
    v[0] = v[0].wrapping_add(v[3]);
    v[3] = v[3].rotate_left(21);
    v[3] ^= v[0];
    v[2] = v[2].wrapping_add(v[1]);
    v[1] = v[1].rotate_left(17);
    v[1] ^= v[2];
    v[2] = v[2].rotate_left(32);
}

pub fn siphash(k0: u64, k1: u64, msg: &[u8]) -> u64 {
    let v = tape(&[100, k0, k1], &[msg], || siphash_now(k0, k1, msg).to_le_bytes().to_vec());
    let mut b = [0; 8];
    b.copy_from_slice(&v);
    u64::from_le_bytes(b)
}

fn siphash_now(k0: u64, k1: u64, msg: &[u8]) -> u64 {
    let mut v = [
        k0 ^ u64::from_be_bytes(*b"somepseu"),
        k1 ^ u64::from_be_bytes(*b"dorandom"),
        k0 ^ u64::from_be_bytes(*b"lygenera"),
        k1 ^ u64::from_be_bytes(*b"tedbytes"),
    ];
    let mut padded = msg.to_vec();
    while padded.len() % 8 != 7 {
        padded.push(0);
    }
    padded.push(msg.len() as u8);
    for c in padded.chunks_exact(8) {
        let mut b = [0u8; 8];
        b.copy_from_slice(c);
        let m = u64::from_le_bytes(b);
        v[3] ^= m;
        sipround(&mut v);
        sipround(&mut v);
        v[0] ^= m;
    }
    v[2] ^= 0xff;
    for _ in 0..4 {
        sipround(&mut v);
    }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

// ---- HMAC, tagged hash -----------------------------------------------------------------------

pub fn hmac(h: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let ih = h(&inner);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&ih);
    h(&outer)
}

pub fn tagged(tag: &[u8], msg: &[u8]) -> Vec<u8> {
    let t = hash(Alg::Sha256, tag);
    let mut m = t.clone();
    m.extend_from_slice(&t);
    m.extend_from_slice(msg);
    hash(Alg::Sha256, &m)
}

pub fn tag_midstate(tag: &[u8]) -> Vec<u8> {
    let t = hash(Alg::Sha256, tag);
    let mut m = t.clone();
    m.extend_from_slice(&t);
    tape(&[101], &[&m], || {
        let mut s = State::init(Alg::Sha256);
        s.compress(&m);
        s.to_bytes()
    })
}

/// The oracle has to be right before it judges anything.
pub fn selftest() -> Result<(), String> {
    use crate::src::hexs;
    if !cfg!(miri) && derived() != *consts() {
        return Err("refconsts.rs is wrong".into());
    }
    let abc: [(Alg, &str); 6] = [
        (Alg::Sha1, "a9993e364706816aba3e25717850c26c9cd0d89d"),
        (Alg::Sha256, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (
            Alg::Sha384,
            "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7",
        ),
        (
            Alg::Sha512,
            "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f",
        ),
        (Alg::Sha512_256, "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23"),
        (Alg::Ripemd160, "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
    ];
    for (a, want) in abc {
        if hexs(&hash(a, b"abc")) != want {
            return Err(format!("reference {:?} is wrong", a));
        }
    }
    let m: Vec<u8> = (0..15).collect();
    if siphash(0x0706050403020100, 0x0f0e0d0c0b0a0908, &m) != 0xa129ca6149be45e5 {
        return Err("reference SipHash is wrong".into());
    }
    let h = |m: &[u8]| hash(Alg::Sha256, m);
    if hexs(&hmac(&h, 64, b"Jefe", b"what do ya want for nothing?"))
        != "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
    {
        return Err("reference HMAC is wrong".into());
    }
    Ok(())
}
