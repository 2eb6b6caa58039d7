//! The source of every random choice: a case is a pure function of a list of bounded integers
//! (the "choice sequence"). The list is drawn from a seeded generator, read back from a replay
//! file, or decoded from a fuzzer's bytes; shrinking edits the list and runs the case again.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xff51_afd7_ed55_8ccd));
    r.next();
    r.next()
}

/// Numbers and strings that a change brought into the sources. Draws become one of the numbers, or
/// something derived from it, now and then. What was drawn is recorded, so replays do not need them.
pub static NUMBERS: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
pub static TEXTS: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();

fn numbers() -> &'static [u64] { NUMBERS.get().map_or(&[], |v| v) }

/// A number of the dictionary, or one derived from it.
fn derived(r: &mut Rng) -> u64 {
    let d = numbers();
    let x = r.next();
    let v = d[((x >> 40) % d.len() as u64) as usize];
    let w = d[((x >> 20) % d.len() as u64) as usize];
    match x % 24 {
        0..=7 => v,
        8 => v.wrapping_add(1),
        9 => v.wrapping_sub(1),
        10 => v.wrapping_mul(8),
        11 => v / 8,
        12 => v.wrapping_mul(64),
        13 => v.wrapping_mul(128),
        14 => v.checked_shl(1).unwrap_or(v),
        15 => 1u64.checked_shl(v as u32).unwrap_or(v),
        16 => v & 0xff,
        17 => !v,
        18 => v.wrapping_add(w),
        19 => v.wrapping_sub(w),
        20 => v ^ w,
        21 => v.swap_bytes(),
        22 => v.wrapping_add((x >> 50) & 0xff),
        _ => v.wrapping_sub((x >> 50) & 0xff),
    }
}

enum Mode {
    Rng(Rng),
    Zeros,
    Bytes(Vec<u8>, usize),
}

pub struct Src {
    prefix: Vec<u64>,
    mode: Mode,
    /// What was drawn, after bounding.
    pub taken: Vec<u64>,
}

impl Src {
    /// `prefix` is replayed first; what follows comes from the generator.
    pub fn random(prefix: Vec<u64>, seed: u64) -> Src {
        Src { prefix, mode: Mode::Rng(Rng::new(seed)), taken: Vec::new() }
    }

    /// Replays `choices`; draws past their end give 0.
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { prefix: choices, mode: Mode::Zeros, taken: Vec::new() }
    }

    /// Decodes choices from a fuzzer's input.
    pub fn bytes(data: &[u8]) -> Src {
        Src { prefix: Vec::new(), mode: Mode::Bytes(data.to_vec(), 0), taken: Vec::new() }
    }

    /// A value in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let i = self.taken.len();
        let v = if i < self.prefix.len() {
            core::cmp::min(self.prefix[i], max)
        } else {
            match &mut self.mode {
                Mode::Zeros => 0,
                Mode::Rng(r) => {
                    let x = r.next();
                    let other = if max >= 20 && !numbers().is_empty() && r.next() % 12 == 0 {
                        Some(derived(r)).filter(|v| *v <= max)
                    } else {
                        None
                    };
                    if let Some(v) = other {
                        v
                    } else if max == u64::MAX {
                        x
                    } else {
                        ((x as u128 * (max as u128 + 1)) >> 64) as u64
                    }
                }
                Mode::Bytes(d, pos) => {
                    let want = if max < 0x100 {
                        1
                    } else if max < 0x1_0000 {
                        2
                    } else if max < 0x1_0000_0000 {
                        4
                    } else {
                        8
                    };
                    let mut x = 0u64;
                    for k in 0..want {
                        let b = d.get(*pos).copied().unwrap_or(0);
                        *pos += 1;
                        x |= (b as u64) << (8 * k);
                    }
                    if max == u64::MAX {
                        x
                    } else {
                        x % (max + 1)
                    }
                }
            }
        };
        crate::runner::mirror(i, v);
        self.taken.push(v);
        v
    }

    /// `v`, unless something else is replayed.
    fn suggest(&mut self, max: u64, v: u64) -> u64 {
        if let (Mode::Rng(_), true) = (&self.mode, self.taken.len() >= self.prefix.len()) {
            let v = core::cmp::min(v, max);
            crate::runner::mirror(self.taken.len(), v);
            self.taken.push(v);
            return v;
        }
        self.draw(max)
    }

    /// A number for the choices that are suggested; 0 if nothing is to be suggested.
    fn aside(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Rng(r) if self.taken.len() >= self.prefix.len() => r.next(),
            _ => 0,
        }
    }

    pub fn n(&mut self, max: usize) -> usize { self.draw(max as u64) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.n(hi - lo) }
    pub fn u64(&mut self) -> u64 { self.draw(u64::MAX) }
    pub fn byte(&mut self) -> u8 { self.draw(255) as u8 }
    /// True with probability 1/n; shrinks to false.
    pub fn one_in(&mut self, n: usize) -> bool { self.n(n - 1) == n - 1 }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.n(xs.len() - 1)] }
}

/// A byte string at a chosen offset from an aligned address, with nothing readable to spare at its
/// end (so that an over-read is visible to a sanitizer).
#[derive(Clone)]
pub struct Msg {
    buf: Vec<u8>,
    off: usize,
}

impl Msg {
    pub fn new(data: &[u8], off: usize) -> Msg {
        let mut buf = Vec::with_capacity(off + data.len());
        buf.resize(off, 0xA5);
        buf.extend_from_slice(data);
        Msg { buf, off }
    }
}

impl core::ops::Deref for Msg {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.buf[self.off..] }
}

/// Fills `n` bytes according to a drawn recipe.
pub fn gen_fill(src: &mut Src, n: usize) -> (Vec<u8>, &'static str) {
    let mut v = vec![0u8; n];
    let kind = src.n(15);
    let name = match kind {
        0 => "zeros",
        1 => {
            let b = src.pick(&[0xffu8, 0x80, 0x01, 0x36, 0x5c, 0x7f, 0x6a, 0xa5]);
            v.iter_mut().for_each(|x| *x = b);
            "const"
        }
        2 => {
            let b = src.byte();
            v.iter_mut().enumerate().for_each(|(i, x)| *x = b.wrapping_add(i as u8));
            "counter"
        }
        3 => {
            if n > 0 {
                let bit = src.n(n * 8 - 1);
                v[bit / 8] = 1 << (bit % 8);
            }
            "one-bit"
        }
        4 => {
            // printable text
            let mut r = Rng::new(src.u64());
            v.iter_mut().for_each(|x| *x = 0x20 + (r.next() % 95) as u8);
            "text"
        }
        5 => {
            // random, then a run of zeros
            let keep = src.n(n);
            fill_random(&mut v[..keep], src.u64());
            "zero-tail"
        }
        6 => {
            // zeros, then random
            let skip = src.n(n);
            let s = src.u64();
            fill_random(&mut v[skip..], s);
            "zero-head"
        }
        7 => {
            // a repeated random block
            let mut blk = [0u8; 128];
            fill_random(&mut blk, src.u64());
            let per = src.pick(&[128usize, 64, 8, 16, 4, 3, 1]);
            v.iter_mut().enumerate().for_each(|(i, x)| *x = blk[i % per]);
            "periodic"
        }
        8 => {
            // literal bytes, drawn one by one as far as it is affordable (they shrink one by one)
            let lit = core::cmp::min(n, 64);
            for x in v[..lit].iter_mut() {
                *x = src.byte();
            }
            let s = if n > lit { src.u64() } else { 0 };
            fill_random(&mut v[lit..], s);
            "literal"
        }
        9 => {
            fill_random(&mut v, src.u64());
            embed(src, &mut v);
            "chosen bytes"
        }
        _ => {
            fill_random(&mut v, src.u64());
            "random"
        }
    };
    (v, name)
}

/// Puts a few chosen bytes somewhere in `v`.
pub fn embed(src: &mut Src, v: &mut [u8]) {
    let r = src.aside();
    let x = src.u64();
    let w = 1usize << src.n(3);
    let texts = TEXTS.get().map_or(&[][..], |t| t);
    let chosen: Vec<u8> = if !texts.is_empty() && r % 2 == 1 {
        texts[(r >> 8) as usize % texts.len()].clone()
    } else if r & 16 == 0 {
        x.to_le_bytes()[..w].to_vec()
    } else {
        x.to_be_bytes()[8 - w..].to_vec()
    };
    let most = core::cmp::min(v.len(), 48);
    let k = src.suggest(most as u64, core::cmp::min(chosen.len(), most) as u64) as usize;
    let at = match src.n(2) {
        0 => 0,
        1 => v.len() - k,
        _ => src.n(v.len() - k),
    };
    for (i, b) in v[at..at + k].iter_mut().enumerate() {
        *b = src.suggest(255, chosen.get(i).copied().unwrap_or(0) as u64) as u8;
    }
}

/// What programs put around or between hex digits, or any other character, or a string of the
/// dictionary.
fn gen_affix(src: &mut Src) -> String {
    const LIST: [&str; 60] = [
        " ", "\n", "\t", "\0", "\r", "\r\n", "  ", "\x0b", "\x0c", "\x1b", "\x7f", "\u{85}", "\u{a0}", "\u{ad}",
        "\u{feff}", "\u{200b}", "\u{200e}", "\u{2028}", "\u{2003}", "\u{3000}", "0x", "0X", "x", "X", "\\x", "#", "$",
        "h", "H", "0h", "&h", "16#", "%", "+", "-", "--", "=", "==", ":", "::", ";", ",", ".", "_", "/", "\\", "|", "*", "~",
        "\"", "'", "`", "<", ">", "{", "}", "(", ")", "hex:", "sha256:",
    ];
    let s = match src.n(7) {
        0..=3 => src.pick(&LIST).to_string(),
        4 => ((src.n(127) as u8) as char).to_string(),
        5 => char::from_u32(src.n(0x2fff) as u32).unwrap_or('?').to_string(),
        _ => {
            let r = src.aside();
            let texts = TEXTS.get().map_or(&[][..], |t| t);
            let chosen: Vec<char> = if !texts.is_empty() {
                String::from_utf8_lossy(&texts[r as usize % texts.len()]).chars().collect()
            } else if !numbers().is_empty() {
                let v = numbers()[r as usize % numbers().len()];
                u32::try_from(v).ok().and_then(char::from_u32).into_iter().collect()
            } else {
                Vec::new()
            };
            let k = src.suggest(200, chosen.len() as u64) as usize;
            (0..k)
                .map(|i| {
                    let c = chosen.get(i).map_or(0, |c| *c as u64);
                    char::from_u32(src.suggest(0x10_ffff, c) as u32).unwrap_or('?')
                })
                .collect()
        }
    };
    if src.one_in(6) {
        s.repeat(src.range(1, 4))
    } else {
        s
    }
}

/// A text with something in front of, behind, around or between its digits, or in place of some.
pub fn disturb(src: &mut Src, digits: &str) -> String {
    let a = gen_affix(src);
    let n = digits.len();
    match src.n(7) {
        0 | 1 => a + digits,
        2 | 3 => digits.to_string() + &a,
        4 => {
            let b = match &a[..] {
                "{" => "}".to_string(),
                "(" => ")".to_string(),
                "<" => ">".to_string(),
                "[" => "]".to_string(),
                _ if src.n(1) == 0 => a.clone(),
                _ => gen_affix(src),
            };
            a + digits + &b
        }
        5 => {
            // groups of digits
            let step = src.pick(&[2usize, 4, 8, 1, 16]);
            let mut t = String::new();
            for (i, c) in digits.chars().enumerate() {
                if i > 0 && i % step == 0 {
                    t.push_str(&a);
                }
                t.push(c);
            }
            t
        }
        6 => {
            let at = src.n(n);
            digits[..at].to_string() + &a + &digits[at..]
        }
        _ => {
            // in place of as many digits, so that the length stays
            let k = core::cmp::min(a.len(), n);
            let at = match src.n(2) {
                0 => 0,
                1 => n - k,
                _ => src.n(n - k),
            };
            digits[..at].to_string() + &a + &digits[at + k..]
        }
    }
}

pub fn fill_random(v: &mut [u8], seed: u64) {
    let mut r = Rng::new(seed);
    let mut it = v.chunks_exact_mut(8);
    for c in &mut it {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    let rem = it.into_remainder();
    if !rem.is_empty() {
        let l = r.next().to_le_bytes();
        let k = rem.len();
        rem.copy_from_slice(&l[..k]);
    }
}

/// Upper bound of generated sizes (lowered where execution is interpreted).
pub static CAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

pub fn cap(n: usize) -> usize {
    core::cmp::min(n, CAP.load(std::sync::atomic::Ordering::Relaxed))
}

/// Whether cases are to be kept small because every step is slow.
pub fn lean() -> bool { CAP.load(std::sync::atomic::Ordering::Relaxed) < 1000 }

/// A count, less of it where steps are slow.
pub fn few(n: usize, lean_n: usize) -> usize {
    if lean() {
        core::cmp::min(n, lean_n)
    } else {
        n
    }
}

/// A message length. `block` is a block size of interest.
pub fn gen_len(src: &mut Src, block: usize, max: usize) -> usize {
    let class = src.n(31);
    let l = match class {
        0..=5 => src.n(24),
        6..=13 => {
            // around a multiple of the block size, or of the place where padding needs a block more
            let k = src.n(20);
            let d = src.n(36);
            (k * block + d).saturating_sub(18)
        }
        14..=21 => src.n(700),
        22..=26 => src.n(3000),
        27..=28 => {
            // around powers of two
            let p = src.range(3, 16);
            let d = src.n(18);
            ((1usize << p) + d).saturating_sub(9)
        }
        29..=30 => src.n(20_000),
        _ => {
            if src.one_in(8) {
                if src.one_in(40) {
                    src.n(1 << 23)
                } else {
                    src.n(1 << 20)
                }
            } else {
                src.n(1 << 17)
            }
        }
    };
    let l = if class == 26 {
        let mut l = l;
        if !numbers().is_empty() {
            // the further away, the rarer
            let r = src.aside();
            let v = derived(&mut Rng::new(r));
            if r % (1 + (v >> 14)) == 0 && v <= 1 << 26 {
                l = v as usize;
            }
        }
        src.suggest(1 << 26, l as u64) as usize
    } else {
        l
    };
    let mut l = cap(core::cmp::min(l, max));
    if class >= 22 && l > 4 * block && src.one_in(2) {
        // where padding or a block ends
        let d = src.pick(&[0usize, 1, 2, 9, 8, 10, 16, 17, 18]) % block;
        l -= l % block + d;
    }
    l
}

pub fn gen_msg(src: &mut Src, block: usize, max: usize) -> Msg {
    let n = gen_len(src, block, max);
    gen_msg_len(src, n)
}

pub fn gen_msg_len(src: &mut Src, n: usize) -> Msg {
    let (v, _) = gen_fill(src, n);
    let off = src.n(15);
    Msg::new(&v, off)
}

/// Cuts `data` in pieces, some of them empty.
pub fn gen_partition(src: &mut Src, len: usize, block: usize) -> Vec<usize> {
    let mut cuts = Vec::new();
    let mode = src.n(5);
    let mut left = len;
    match mode {
        0 => {
            // one piece
        }
        1 => {
            // two pieces
            let k = src.n(len);
            cuts.push(k);
            left -= k;
        }
        2 if len <= if lean() { 200 } else { 150_000 } => {
            // byte by byte
            for _ in 0..len {
                cuts.push(1);
            }
            left = 0;
        }
        3 => {
            // steps of one size
            let step = src.range(1, 2 * block + 1);
            let most = if lean() { 200 } else { 150_000 };
            while left > step && cuts.len() < most {
                cuts.push(step);
                left -= step;
            }
        }
        _ => {
            // mixed
            let pieces = src.range(1, 12);
            for _ in 0..pieces {
                let k = match src.n(7) {
                    0 => 0,
                    1 => 1,
                    2 => src.n(8),
                    3 => block,
                    4 => (block + src.n(2)).saturating_sub(1),
                    5 => src.n(2 * block),
                    6 => src.n(left),
                    _ => src.n(700),
                };
                let k = core::cmp::min(k, left);
                cuts.push(k);
                left -= k;
            }
        }
    }
    cuts.push(left);
    cuts
}

pub fn hexs(b: &[u8]) -> String {
    let t = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(t[(x >> 4) as usize] as char);
        s.push(t[(x & 15) as usize] as char);
    }
    s
}

/// Short form of a byte string for reports.
pub fn show(b: &[u8]) -> String {
    if b.len() <= 80 {
        format!("[{}]{}", b.len(), hexs(b))
    } else {
        format!("[{}]{}..{}", b.len(), hexs(&b[..24]), hexs(&b[b.len() - 8..]))
    }
}
