//! C08 text, C09 bytes, C10 comparison. Generic over the hash value types.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash as StdHash, Hasher};

use chf::{siphash24, FromSliceError};

use crate::props::hashing::expect;
use crate::runner::{catch, Cx, Res};
use crate::src::{hexs, show, Src};
use crate::types::{with_type, TypeCase, HT, N_TYPES};

/// The bytes of a value: random, extreme, or nearly constant.
pub fn gen_value(src: &mut Src, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match src.n(6) {
        0 => {}
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        2 => {
            let i = src.n(n - 1);
            v[i] = src.byte();
        }
        3 => {
            for x in v.iter_mut() {
                *x = src.byte();
            }
        }
        4 => v.iter_mut().enumerate().for_each(|(i, x)| *x = (i as u8).wrapping_mul(17)),
        5 => crate::src::fill_random(&mut v, src.u64()),
        _ => {
            crate::src::fill_random(&mut v, src.u64());
            crate::src::embed(src, &mut v);
        }
    }
    v
}

macro_rules! type_case {
    ($name:ident, $f:ident) => {
        struct $name<'a>(&'a mut Src, &'a mut Cx);
        impl<'a> TypeCase for $name<'a> {
            type Out = Res;
            fn run<H: HT>(self) -> Res {
                self.1.label(H::NAME);
                $f::<H>(self.0, self.1).map_err(|e| format!("{}: {}", H::NAME, e))
            }
        }
    };
}

// ---- C08 -------------------------------------------------------------------------------------

pub const C08_RULE: &str = "A case is a hash type (21, midstate and HMAC results of up to 300 bytes included), a value, and either a set of format parameters (flags, precision, width, fill, alignment; precisions 0..=2N+3 are swept) \
or a string to parse: the value's digits in any mix of cases, or digits damaged in length or in one character, prefixed, padded, non-ASCII, or arbitrary. \
Oracle: hex written by the harness; strings are valid exactly if they consist of 2N hex digits. Non-trivial: value not all zero, or a malformed string; distinct by choice sequence.";

type_case!(C08, c08_type);

pub fn c08(src: &mut Src, cx: &mut Cx) -> Res {
    let t = src.n(N_TYPES - 1);
    with_type(t, C08(src, cx))
}

fn same_text(what: &str, got: &str, want: &str) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

/// Takes so much text and no more.
struct Limited {
    room: usize,
    text: String,
}

impl core::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.text.len() + s.len() > self.room {
            return Err(core::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn strip0x(s: &str) -> &str { s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).unwrap_or(s) }

fn c08_type<H: HT>(src: &mut Src, cx: &mut Cx) -> Res {
    let mode = src.n(3);
    if mode == 0 {
        // formats; first draw is the precision so that it can be swept
        let p = src.n(2 * H::N + 3);
        let v = gen_value(src, H::N);
        let h = H::from_arr(&v);
        let lower = hexs(&v);
        let upper = lower.to_uppercase();
        cx.label("format");
        cx.nontrivial = v.iter().any(|b| *b != 0);
        let w = src.n(2 * H::N + 12);
        let fill = src.pick(&[' ', '*', '0', '-', '\u{e9}']);
        cx.note(|| format!("{} value {} precision {} width {} fill {:?}", H::NAME, show(&v), p, w, fill));
        same_text("{}", &format!("{}", h), &lower)?;
        same_text("to_string", &h.to_string(), &lower)?;
        same_text("{:x}", &format!("{:x}", h), &lower)?;
        same_text("{:X}", &format!("{:X}", h), &upper)?;
        same_text("{:?}", strip0x(&format!("{:?}", h)), &lower)?;
        same_text("{:#?}", strip0x(&format!("{:#?}", h)), &lower)?;
        same_text("{:#}", strip0x(&format!("{:#}", h)), &lower)?;
        same_text("{:#x}", strip0x(&format!("{:#x}", h)), &lower)?;
        same_text("{:#X}", strip0x(&format!("{:#X}", h)), &upper)?;
        let cut = core::cmp::min(p, 2 * H::N);
        same_text("precision {}", &format!("{:.1$}", h, p), &lower[..cut])?;
        same_text("precision {:x}", &format!("{:.1$x}", h, p), &lower[..cut])?;
        same_text("precision {:X}", &format!("{:.1$X}", h, p), &upper[..cut])?;
        // width: the digits, and nothing but fill around them
        let padded = [
            ("{:w}", format!("{:1$}", h, w), &lower[..], ' '),
            ("{:<w}", format!("{:<1$}", h, w), &lower[..], ' '),
            ("{:>w}", format!("{:>1$}", h, w), &lower[..], ' '),
            ("{:^w}", format!("{:^1$}", h, w), &lower[..], ' '),
            ("{:wx}", format!("{:1$x}", h, w), &lower[..], ' '),
            ("{:wX}", format!("{:1$X}", h, w), &upper[..], ' '),
            ("{:w.p}", format!("{:1$.2$}", h, w, p), &lower[..cut], ' '),
            ("{:w.pX}", format!("{:>1$.2$X}", h, w, p), &upper[..cut], ' '),
        ];
        for (what, got, digits, f) in &padded {
            check_pad(what, got, digits, w, *f)?;
        }
        let filled = match fill {
            '*' => format!("{:*^1$}", h, w),
            '0' => format!("{:0>1$}", h, w),
            '-' => format!("{:-<1$}", h, w),
            '\u{e9}' => format!("{:\u{e9}>1$}", h, w),
            _ => format!("{:>1$}", h, w),
        };
        check_pad("fill", &filled, &lower, w, fill)?;
        // flags that mean something for numbers only
        let flagged = [
            ("{:0w}", format!("{:01$}", h, w), &lower[..]),
            ("{:0wX}", format!("{:01$X}", h, w), &upper[..]),
            ("{:#w}", format!("{:#1$}", h, w), &lower[..]),
        ];
        for (what, got, digits) in &flagged {
            let t = strip0x(got.trim());
            if t != *digits && t.trim_start_matches('0') != digits.trim_start_matches('0')
                && t.trim_end_matches('0') != digits.trim_end_matches('0')
            {
                return Err(format!("{} of {} with width {} gave {:?}", what, digits, w, got));
            }
        }
        // a writer with too little room
        let room = src.n(2 * H::N + 4);
        let mut l = Limited { room, text: String::new() };
        let r = catch(|| core::fmt::Write::write_fmt(&mut l, format_args!("{:x}", h)))
            .map_err(|p| format!("writing to {} places panicked: {}", room, p))?;
        match r {
            Ok(()) => same_text("text in a bounded writer", &l.text, &lower)?,
            Err(_) if room < 2 * H::N => {}
            Err(_) => return Err(format!("writing to {} places failed", room)),
        }
        let back = H::parse(&lower).map_err(|e| format!("own text does not parse: {}", e))?;
        return expect("parse of own text", &back.to_arr(), &v);
    }
    let v = gen_value(src, H::N);
    let mut s: Vec<char> = hexs(&v).chars().collect();
    // cases
    match src.n(3) {
        0 => {}
        1 => s.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
        _ => {
            let mask = src.u64();
            for (i, c) in s.iter_mut().enumerate() {
                if (mask >> (i % 64)) & 1 == 1 {
                    *c = c.to_ascii_uppercase();
                }
            }
        }
    }
    let bad = |src: &mut Src| -> char {
        match src.n(7) {
            0 => src.pick(&['g', 'G', 'x', 'X', '_', '-', '+', ' ', '\n', '\t', '\0', '@', '`', '/', ':', '.', ',', '\u{7f}', 'h', 'O', 'l']),
            1 => (src.n(127) as u8) as char,
            2 => src.pick(&['\u{e9}', '\u{ff11}', '\u{4e2d}', '\u{1f600}', '\u{80}', '\u{ff}', '\u{0661}', '\u{130}', '\u{212a}']),
            3 => char::from_u32(src.n(0x2fff) as u32).unwrap_or('?'),
            _ => src.pick(&['g', 'z', 'G', 'Z', '@', '`', '/', ':', ' ', '-']),
        }
    };
    let kind = if mode == 1 { 0 } else { src.n(13) };
    if kind == 11 {
        // far too long, by a multiple of a power of two
        let t = match crate::props::hashing::aliased(src, 2 * H::N) {
            Some(t) => t,
            None => return Ok(()),
        };
        // SAFETY: zeros and ASCII digits
        let t = unsafe { core::str::from_utf8_unchecked(t) };
        cx.label("parse invalid");
        cx.label("far too long");
        cx.nontrivial = true;
        cx.note(|| format!("{} parse {} characters", H::NAME, t.len()));
        return match catch(|| H::parse(t)).map_err(|p| format!("parse of {} characters panicked: {}", t.len(), p))? {
            Ok(h) => Err(format!("{} characters were accepted as {}", t.len(), h)),
            Err(_) => Ok(()),
        };
    }
    let what = match kind {
        0 => "valid",
        1 => {
            // one character replaced
            let i = src.n(s.len() - 1);
            s[i] = bad(src);
            "one character replaced"
        }
        2 => {
            let k = src.range(1, core::cmp::min(4, s.len()));
            let at = src.n(s.len() - k);
            s.drain(at..at + k);
            "too short"
        }
        3 => {
            let k = src.range(1, 4);
            let at = src.n(s.len());
            for _ in 0..k {
                let c = src.pick(&['0', 'a', 'F', '9']);
                s.insert(at, c);
            }
            "too long"
        }
        4 => {
            s.insert(0, 'x');
            s.insert(0, '0');
            "0x in front"
        }
        5 => {
            if s.len() >= 2 {
                s[0] = '0';
                s[1] = src.pick(&['x', 'X']);
            }
            "0x instead of the first byte"
        }
        6 | 12 | 13 => {
            let t: String = s.iter().collect();
            s = crate::src::disturb(src, &t).chars().collect();
            "something around or between"
        }
        7 => {
            // right byte length, but not ASCII
            let c = src.pick(&['\u{e9}', '\u{4e2d}', '\u{1f600}', '\u{661}']);
            let k = c.len_utf8();
            if s.len() > k {
                let at = src.n(s.len() - k);
                s.drain(at..at + k);
                s.insert(at, c);
            }
            "non-ASCII of the right byte length"
        }
        8 => {
            s.clear();
            let k = src.n(2 * H::N + 4);
            let only = src.one_in(2);
            for _ in 0..k {
                let c = if only { bad(src) } else { src.pick(&['0', '1', 'a', 'f', 'A', 'F', 'g']) };
                s.push(c);
            }
            "arbitrary"
        }
        9 => {
            // another type's length
            let k = src.pick(&[0usize, 1, 8, 16, 20, 28, 32, 33, 48, 64, 100, 128, 129, 256, 300]);
            s = (0..2 * k).map(|i| b"0123456789abcdef"[i % 16] as char).collect();
            "another length"
        }
        _ => {
            let at = src.n(s.len());
            let c = bad(src);
            s.insert(at, c);
            "a character inserted"
        }
    };
    let text: String = s.into_iter().collect();
    let valid = text.len() == 2 * H::N && text.bytes().all(|b| b.is_ascii_hexdigit());
    cx.label(if valid { "parse valid" } else { "parse invalid" });
    cx.label(what);
    cx.nontrivial = !valid || v.iter().any(|b| *b != 0);
    cx.note(|| format!("{} parse {:?} ({})", H::NAME, text, what));
    let r = catch(|| H::parse(&text)).map_err(|p| format!("parse of {:?} panicked: {}", text, p))?;
    match (r, valid) {
        (Ok(h), true) => {
            let want: Vec<u8> = (0..H::N)
                .map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            expect("parse", &h.to_arr(), &want)?;
            same_text("parse, print", &h.to_string(), &text.to_lowercase())?;
        }
        (Err(_), false) => {}
        (Ok(h), false) => return Err(format!("{:?} was accepted as {}", text, h)),
        (Err(e), true) => return Err(format!("{:?} was rejected: {}", text, e)),
    }
    if H::IS_MIDSTATE {
        let r = <chf::sha256::Midstate as chf::hex::FromHex>::from_hex(&text);
        if r.is_ok() != valid {
            return Err(format!("from_hex of {:?} gave {:?}", text, r));
        }
        if let Ok(m) = r {
            expect("from_hex", &m.to_byte_array(), &H::parse(&text).map_err(|e| e)?.to_arr())?;
        }
    }
    Ok(())
}

fn check_pad(what: &str, got: &str, digits: &str, width: usize, fill: char) -> Res {
    let n = got.chars().count();
    let bad = || Err(format!("{}: width {} of {:?} gave {:?}", what, width, digits, got));
    if n != core::cmp::max(width, digits.len()) {
        return bad();
    }
    let pad = n - digits.len();
    let chars: Vec<char> = got.chars().collect();
    for left in 0..=pad {
        if chars[..left].iter().all(|c| *c == fill)
            && chars[left..left + digits.len()].iter().copied().eq(digits.chars())
            && chars[left + digits.len()..].iter().all(|c| *c == fill)
        {
            // explicit alignments say where
            let ok = match what {
                "{:<w}" => left == 0,
                "{:>w}" => left == pad,
                "{:^w}" => left == pad / 2 || left == (pad + 1) / 2,
                _ => true,
            };
            if ok || fill == '0' {
                return Ok(());
            }
        }
    }
    bad()
}

pub fn c08_sweep(thorough: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for t in 0..N_TYPES as u64 {
        for p in 0..=259 {
            v.push(vec![t, 0, p, 5]);
        }
        // each position, one character replaced by each byte (a random bad one if not thorough)
        for i in 0..200 {
            for c in 0..if thorough { 12 } else { 3 } {
                let _ = c;
                v.push(vec![t, 2, 5, 12345 + i, 0, 1, i]);
            }
        }
        for k in 0..12 {
            v.push(vec![t, 2, 0, 0, 11, k]);
        }
        for b in 0..256u64 {
            // every byte value in every type's first position, and every one-byte change
            v.push(vec![t, 1, 2, b % 20, b]);
        }
    }
    v
}

// ---- C09 -------------------------------------------------------------------------------------

pub const C09_RULE: &str = "A case is a hash type, a value, a second value to write through the mutable view, a slice length (0..=310 swept) and an index range. \
All ways in and out must carry the same bytes, views must alias, from_slice must accept exactly the type's length and report both lengths otherwise. \
Non-trivial: value not all zero; distinct by choice sequence.";

type_case!(C09, c09_type);

pub fn c09(src: &mut Src, cx: &mut Cx) -> Res {
    let t = src.n(N_TYPES - 1);
    with_type(t, C09(src, cx))
}

fn c09_type<H: HT>(src: &mut Src, cx: &mut Cx) -> Res {
    let n = H::N;
    let sl_len = match src.n(3) {
        0 => src.n(310),
        1 => n,
        2 => (n + src.n(4)).saturating_sub(2),
        _ => src.pick(&[0usize, 1, 8, 20, 28, 32, 48, 64, 128, 31, 33, 63, 65]),
    };
    let v = gen_value(src, n);
    let v2 = gen_value(src, n);
    cx.nontrivial = v.iter().any(|b| *b != 0);
    cx.note(|| format!("{} value {} second {} slice of {}", H::NAME, show(&v), show(&v2), sl_len));
    let h = H::from_arr(&v);
    expect("to_byte_array", &h.to_arr(), &v)?;
    for (what, got) in h.ways_out() {
        expect(what, &got, &v)?;
    }
    let lo = &h as *const H as usize;
    let hi = lo + core::mem::size_of::<H>();
    for (what, p, len) in h.borrows() {
        let p = p as usize;
        if len != n || p < lo || p + len > hi {
            return Err(format!("{}: {} bytes at {:#x}, the value is {:#x}..{:#x}", what, len, p, lo, hi));
        }
    }
    if let Some((ways, alias)) = H::by_ref(&v) {
        cx.label("view");
        for (what, got) in ways {
            expect(&format!("from_bytes_ref then {}", what), &got, &v)?;
        }
        if !alias {
            return Err("from_bytes_ref does not refer to the caller's array".into());
        }
    }
    if let Some((after, before, alias)) = H::by_mut(&v, &v2) {
        expect("read through from_bytes_mut", &before, &v)?;
        expect("array after a write through from_bytes_mut", &after, &v2)?;
        if !alias {
            return Err("from_bytes_mut does not refer to the caller's array".into());
        }
    }
    if let Some(z) = H::zeros() {
        expect("all_zeros", &z.to_arr(), &vec![0; n])?;
    }
    if let Some(l) = H::len_const() {
        if l != n {
            return Err(format!("LEN = {}, digest has {} bytes", l, n));
        }
    }
    // slices
    let mut sl = vec![0u8; sl_len];
    crate::src::fill_random(&mut sl, src.u64());
    match (H::from_slice_(&sl), sl_len == n) {
        (Ok(x), true) => {
            cx.label("slice accepted");
            expect("from_slice", &x.to_arr(), &sl)?;
        }
        (Err(e), false) => {
            cx.label("slice rejected");
            check_err(&e, n, sl_len)?;
        }
        (Ok(_), false) => return Err(format!("a slice of {} bytes was accepted", sl_len)),
        (Err(e), true) => return Err(format!("a slice of {} bytes was rejected: {}", sl_len, e)),
    }
    let big = if src.one_in(8) { crate::props::hashing::aliased(src, n) } else { None };
    if let Some(big) = big {
        cx.label("far too long a slice");
        match H::from_slice_(big) {
            Err(e) => check_err(&e, n, big.len())?,
            Ok(_) => return Err(format!("a slice of {} bytes was accepted", big.len())),
        }
    }
    // the error type by itself
    let got = src.n(100_000);
    let exp = src.n(100_000);
    check_err(&FromSliceError::new(got, exp), exp, got)?;
    // indexing
    let i = src.n(n + 2);
    let r = catch(|| h.at(i));
    match (&r, i < n) {
        (Ok(b), true) if *b == v[i] => {}
        (Err(_), false) => {}
        _ => return Err(format!("[{}] gave {:?}", i, r)),
    }
    let a = src.n(n + 1);
    let b = src.n(n + 1);
    let ok = a <= b && b <= n;
    let r = catch(|| h.range(a..b));
    match (&r, ok) {
        (Ok(x), true) if x[..] == v[a..b] => {}
        (Err(_), false) => {}
        _ => return Err(format!("[{}..{}] gave {:?}", a, b, r)),
    }
    let r = catch(|| h.from(a..));
    match (&r, a <= n) {
        (Ok(x), true) if x[..] == v[a..] => {}
        (Err(_), false) => {}
        _ => return Err(format!("[{}..] gave {:?}", a, r)),
    }
    let r = catch(|| h.to(..b));
    match (&r, b <= n) {
        (Ok(x), true) if x[..] == v[..b] => {}
        (Err(_), false) => {}
        _ => return Err(format!("[..{}] gave {:?}", b, r)),
    }
    expect("[..]", &h.full(), &v)?;
    let r = catch(|| h.incl(a..=b));
    match (&r, a <= b && b < n || a == b + 1 && b < n) {
        (Ok(None), _) => {}
        (Ok(Some(x)), true) if a <= b && x[..] == v[a..=b] => {}
        (Ok(Some(x)), true) if a > b && x.is_empty() => {}
        (Err(_), false) => {}
        _ => return Err(format!("[{}..={}] gave {:?}", a, b, r)),
    }
    let r = catch(|| h.to_incl(..=b));
    match (&r, b < n) {
        (Ok(None), _) => {}
        (Ok(Some(x)), true) if x[..] == v[..=b] => {}
        (Err(_), false) => {}
        _ => return Err(format!("[..={}] gave {:?}", b, r)),
    }
    if n == 8 {
        let mut a = [0; 8];
        a.copy_from_slice(&v);
        let s = siphash24::Hash::from_byte_array(a);
        if s.as_u64() != u64::from_le_bytes(a) || siphash24::Hash::from_u64(s.as_u64()) != s {
            return Err(format!("SipHash {} as integer is {:#x}", show(&v), s.as_u64()));
        }
    }
    Ok(())
}

fn check_err(e: &FromSliceError, expected: usize, got: usize) -> Res {
    if e.expected_length() != expected
        || e.invalid_length() != got
        || e.expected != expected
        || e.got != got
    {
        return Err(format!("error for {} instead of {} bytes is {:?}", got, expected, e));
    }
    let text = e.to_string();
    let nums: Vec<usize> = text
        .split(|c: char| !c.is_ascii_digit())
        .filter(|s| !s.is_empty())
        .filter_map(|s| s.parse().ok())
        .collect();
    if nums != [got, expected] && nums != [expected, got] {
        return Err(format!("message for {} instead of {} bytes is {:?}", got, expected, text));
    }
    if nums == [expected, got] && got != expected && text.find("expected") > text.find(&got.to_string()) {
        return Err(format!("message for {} instead of {} bytes is {:?}", got, expected, text));
    }
    if *e != FromSliceError::new(got, expected) || *e != e.clone() {
        return Err("equal errors differ".into());
    }
    Ok(())
}

pub fn c09_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for t in 0..N_TYPES as u64 {
        for l in 0..=310 {
            v.push(vec![t, 0, l]);
        }
    }
    v
}

// ---- C10 -------------------------------------------------------------------------------------

pub const C10_RULE: &str = "A case is a hash type and a pair of values (equal, differing in one bit at a swept position, differing in several places, random) or a collection of up to 40 values with repetitions. \
Oracle: comparison of the byte strings; sorted and set/map contents against the same operation on byte vectors. Non-trivial: values not all equal; distinct by choice sequence.";

type_case!(C10, c10_type);

pub fn c10(src: &mut Src, cx: &mut Cx) -> Res {
    let t = src.n(N_TYPES - 1);
    with_type(t, C10(src, cx))
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xfe);
    }
}

fn hash_of<H: StdHash>(h: &H) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    h.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut d);
    (r.0, d.finish())
}

fn pair<H: HT>(a: &[u8], b: &[u8]) -> Res {
    let (x, y) = (H::from_arr(a), H::from_arr(b));
    let want = a.cmp(b);
    let eq = a == b;
    let tests = [
        ("==", x == y, eq),
        ("!=", x != y, !eq),
        ("<", x < y, a < b),
        ("<=", x <= y, a <= b),
        (">", x > y, a > b),
        (">=", x >= y, a >= b),
        ("cmp", x.cmp(&y) == want, true),
        ("partial_cmp", x.partial_cmp(&y) == Some(want), true),
        ("min", x.min(y).to_arr() == a.min(b), true),
        ("max", x.max(y).to_arr() == a.max(b), true),
        ("clone", x.clone() == x && x.clone().to_arr() == a, true),
        ("self == self", x == x && x.cmp(&x) == core::cmp::Ordering::Equal, true),
        ("hash of equals", !eq || hash_of(&x) == hash_of(&y), true),
        ("reference ==", &x == &y, eq),
        ("slice ==", [x, y] == [y, x], eq),
    ];
    for (what, got, want) in tests {
        if got != want {
            return Err(format!("{} on {} and {}", what, show(a), show(b)));
        }
    }
    let z = x;
    let mut w = y;
    w.clone_from(&x);
    if z.to_arr() != a || w.to_arr() != a || x.to_arr() != a {
        return Err("copy or clone_from changed the value".into());
    }
    Ok(())
}

fn c10_type<H: HT>(src: &mut Src, cx: &mut Cx) -> Res {
    let mode = src.n(3);
    if mode <= 1 {
        let bit = src.n(H::N * 8 - 1);
        let a = gen_value(src, H::N);
        let mut b = a.clone();
        b[bit / 8] ^= 1 << (bit % 8);
        if mode == 1 {
            cx.label("pair");
            match src.n(3) {
                0 => b = a.clone(),
                1 => {
                    let i = src.n(H::N - 1);
                    b[i] = src.byte();
                }
                2 => b = gen_value(src, H::N),
                _ => {
                    // the later bytes point the other way
                    for x in b[bit / 8 + 1..].iter_mut() {
                        *x = src.byte();
                    }
                }
            }
        } else {
            cx.label("one bit");
        }
        cx.nontrivial = a != b;
        cx.note(|| format!("{} {} against {}", H::NAME, show(&a), show(&b)));
        pair::<H>(&a, &b)?;
        return pair::<H>(&b, &a);
    }
    cx.label("collection");
    let k = src.range(1, crate::src::few(40, 5));
    let mut vals: Vec<Vec<u8>> = Vec::new();
    for _ in 0..k {
        let v = if !vals.is_empty() && src.one_in(2) {
            let mut v = vals[src.n(vals.len() - 1)].clone();
            let i = src.n(H::N - 1);
            v[i] = src.byte();
            v
        } else {
            gen_value(src, H::N)
        };
        vals.push(v);
    }
    let hs: Vec<H> = vals.iter().map(|v| H::from_arr(v)).collect();
    cx.note(|| format!("{} collection of {}", H::NAME, vals.len()));
    let set: BTreeSet<Vec<u8>> = vals.iter().cloned().collect();
    cx.nontrivial = set.len() > 1;
    let mut sv = vals.clone();
    sv.sort();
    let mut sh = hs.clone();
    sh.sort();
    let back: Vec<Vec<u8>> = sh.iter().map(|h| h.to_arr()).collect();
    if back != sv {
        return Err("sort differs from the sort of the bytes".into());
    }
    sh = hs.clone();
    sh.sort_unstable_by(|a, b| b.cmp(a));
    sv.reverse();
    if sh.iter().map(|h| h.to_arr()).collect::<Vec<_>>() != sv {
        return Err("reverse sort differs from that of the bytes".into());
    }
    let hset: HashSet<H> = hs.iter().copied().collect();
    let bset: BTreeSet<H> = hs.iter().copied().collect();
    let mut hm: HashMap<H, usize> = HashMap::new();
    let mut bm: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for (i, (h, v)) in hs.iter().zip(&vals).enumerate() {
        hm.insert(*h, i);
        bm.insert(v.clone(), i);
    }
    if hset.len() != set.len() || bset.len() != set.len() || hm.len() != bm.len() {
        return Err(format!("sets hold {} / {} / {} values, there are {}", hset.len(), bset.len(), hm.len(), set.len()));
    }
    if bset.iter().map(|h| h.to_arr()).collect::<Vec<_>>() != set.iter().cloned().collect::<Vec<_>>() {
        return Err("BTreeSet order differs".into());
    }
    for (v, i) in &bm {
        if hm.get(&H::from_arr(v)) != Some(i) {
            return Err(format!("lookup of {} gave {:?}, want {}", show(v), hm.get(&H::from_arr(v)), i));
        }
    }
    if hs.iter().max().map(|h| h.to_arr()) != vals.iter().max().cloned()
        || hs.iter().min().map(|h| h.to_arr()) != vals.iter().min().cloned()
    {
        return Err("max/min of the collection differ".into());
    }
    Ok(())
}

pub fn c10_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for t in 0..N_TYPES as u64 {
        for bit in 0..2400 {
            v.push(vec![t, 0, bit]);
        }
    }
    v
}
