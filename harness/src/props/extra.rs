//! The mixed battery (C14, C15, C18), constant-time comparison (C16, C17), the fuzzing stub (C20).

use chf::cmp::fixed_time_eq;

use crate::props::{engine, hashing, value};
use crate::runner::{catch, CaseFn, Cx, Res};
use crate::src::{cap, gen_fill, show, Msg, Src};

// ---- battery ---------------------------------------------------------------------------------

pub const BATTERY_RULE: &str = "A case is a case of one of the properties C01 to C10, C13, C16, C19 (chosen first, then generated and judged as there: reference digests, models of histories, hex and byte oracles); \
a part of the cases comes from those properties' sweeps. Non-trivial as in the chosen property; distinct by choice sequence.";

pub const C18_RULE: &str = "A case is a case of one of the properties C01 to C10, C13, C16, C19 (chosen first, then generated as there; a part comes from those properties' sweeps), executed under AddressSanitizer with overflow \
and debug checks, or under Miri. Violations: a sanitizer or Miri report, a crash, a panic that is not documented. Besides, 642 generated functions that use a view (reference conversion, slice, index) after its owner is gone or changed, none of which may compile. Wrong results are judged by the other properties. Non-trivial as in the chosen property; distinct by choice sequence.";

const BATTERY: &[(&str, CaseFn, fn(bool) -> Vec<Vec<u64>>)] = &[
    ("from C01", hashing::c01, hashing::c01_sweep),
    ("from C02", engine::c02, engine::c02_sweep),
    ("from C03", hashing::c03, hashing::c03_sweep),
    ("from C04", hashing::c04, hashing::c04_sweep),
    ("from C05", hashing::c05, hashing::c05_sweep),
    ("from C06", engine::c06, engine::c06_sweep),
    ("from C07", hashing::c07, hashing::c07_sweep),
    ("from C08", value::c08, value::c08_sweep),
    ("from C09", value::c09, value::c09_sweep),
    ("from C10", value::c10, value::c10_sweep),
    ("from C13", engine::c13, engine::c13_sweep),
    ("from C16", c16, c16_sweep),
    ("from C19", engine::c19, crate::runner::no_sweep),
];

pub fn battery(src: &mut Src, cx: &mut Cx) -> Res {
    let i = src.n(BATTERY.len() - 1);
    let (name, case, _) = BATTERY[i];
    cx.label(name);
    cx.note(|| name.to_string());
    case(src, cx).map_err(|e| format!("({}) {}", name, e))
}

/// For C18: what was computed is the business of other properties, panics are not.
pub fn c18(src: &mut Src, cx: &mut Cx) -> Res {
    match battery(src, cx) {
        Err(e) if !e.contains("panic: ") && !e.contains("panic after") && !e.contains("panicked") => {
            cx.label("a wrong result, which is not judged here");
            Ok(())
        }
        r => r,
    }
}

/// The sweeps of all parts, mixed evenly: any even selection of them is even in the parts too.
pub fn battery_sweep(thorough: bool) -> Vec<Vec<u64>> {
    let mut keyed = Vec::new();
    for (i, (_, _, sweep)) in BATTERY.iter().enumerate() {
        let s = sweep(thorough);
        // no part may crowd out the others
        let most = 1500;
        let n = s.len();
        let k = core::cmp::min(n, most);
        for j in 0..k {
            let mut p = vec![i as u64];
            p.extend_from_slice(&s[j * n / k]);
            keyed.push((crate::src::mix(i as u64, j as u64), p));
        }
    }
    keyed.sort();
    keyed.into_iter().map(|(_, p)| p).collect()
}

/// Cases that a small selection of the sweep must contain: lengths where 32-bit arithmetic ends.
pub fn battery_must() -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    // arbitrary states and HMAC states at 2^29 and 2^30 bytes, and at the largest length
    for alg in 0..6u64 {
        for at in [[1, 22, 4], [1, 23, 4]] {
            v.push([&[5, 3, alg][..], &at].concat());
        }
        v.push(vec![5, 3, alg, 5]);
        v.push(vec![5, 4, alg, 1, 1, 22 + alg % 2, 4]);
    }
    v
}

// ---- C16 -------------------------------------------------------------------------------------

pub const C16_RULE: &str = "A case is a pair of slices at chosen offsets: one byte against all 256 others (swept over all 256), equal contents, contents that differ in one bit or byte at a swept position (lengths 0..=80), \
in several places, in places that would cancel out under xor, in as many places as add up to a multiple of 2^8, 2^16 or 2^32, or of different lengths (must panic). Oracle: comparison of the byte vectors. Non-trivial: non-empty slices; distinct by choice sequence.";

pub fn c16(src: &mut Src, cx: &mut Cx) -> Res {
    let eq = |a: &[u8], b: &[u8]| -> Res {
        let want = a.to_vec() == b.to_vec();
        let got = catch(|| fixed_time_eq(a, b))
            .map_err(|p| format!("fixed_time_eq({}, {}): panic: {}", show(a), show(b), p))?;
        if got != want {
            return Err(format!("fixed_time_eq({}, {}) = {}", show(a), show(b), got));
        }
        Ok(())
    };
    match src.n(5) {
        5 => {
            // differences that add up to a multiple of 2^8, 2^16 or 2^32
            let bit = src.n(7);
            let x = 1u8 << bit;
            let w = src.pick(&[8usize, 8, 8, 16, 16]);
            let w = if src.one_in(40_000) && bit == 7 { 32 } else { w };
            let n = cap(1 << (w - bit));
            let (mut a, _) = gen_fill(src, core::cmp::min(n, 1000));
            a.resize(n, 0x55);
            let b: Vec<u8> = a.iter().map(|c| c ^ x).collect();
            cx.label(if w == 32 { "differences add up to 2^32" } else { "differences add up" });
            cx.nontrivial = true;
            cx.note(|| format!("{} bytes that all differ in bit {}", n, bit));
            eq(&a, &b)
        }
        0 => {
            // one byte against all others, alone or among others
            let a = src.byte();
            let n = src.n(20);
            let (base, _) = gen_fill(src, n);
            let pos = src.n(n);
            cx.label("one byte against all");
            cx.nontrivial = true;
            cx.note(|| format!("{:#04x} against all, inserted at {} of {}", a, pos, show(&base)));
            let mut l = base.clone();
            l.insert(pos, a);
            let l = Msg::new(&l, pos % 8);
            for b in 0..=255u8 {
                if crate::src::lean() && b % 16 != a % 16 {
                    continue;
                }
                let mut r = base.clone();
                r.insert(pos, b);
                eq(&l, &Msg::new(&r, (pos + 3) % 8))?;
            }
            Ok(())
        }
        1 => {
            // one difference at a given place
            let n = cap(src.n(80));
            let pos = src.n(80);
            let flip = src.n(254) as u8 + 1;
            let (a, _) = gen_fill(src, n);
            let mut b = a.clone();
            if pos < n {
                b[pos] ^= flip;
                cx.label("one difference");
            } else {
                cx.label("equal");
            }
            let (oa, ob) = (src.n(15), src.n(15));
            cx.nontrivial = n > 0;
            cx.note(|| format!("length {}, place {} differs by {:#04x}, offsets {} {}", n, pos, flip, oa, ob));
            eq(&Msg::new(&a, oa), &Msg::new(&b, ob))
        }
        2 => {
            // several differences, among them some that cancel under xor or add
            let n = cap(match src.n(4) {
                0 => src.n(8),
                1 => src.n(64),
                2 => src.n(600),
                3 => 256 * src.n(4) + src.n(2),
                _ => src.n(70_000),
            });
            let (a, _) = gen_fill(src, n);
            let mut b = a.clone();
            let k = src.n(6);
            let flip = 1u8 << src.n(7);
            for _ in 0..k {
                if n > 0 {
                    let i = src.n(n - 1);
                    match src.n(2) {
                        0 => b[i] ^= flip,
                        1 => b[i] = b[i].wrapping_add(flip),
                        _ => b[i] = src.byte(),
                    }
                }
            }
            if n > 1 && src.one_in(4) {
                b.swap(0, n - 1);
            }
            let (oa, ob) = (src.n(15), src.n(15));
            cx.label("several differences");
            cx.nontrivial = n > 0;
            cx.note(|| format!("{} against {}", show(&a), show(&b)));
            eq(&Msg::new(&a, oa), &Msg::new(&b, ob))
        }
        3 => {
            // all bytes differ in the same way: as many differences as there are bytes
            let n = cap(src.n(520));
            let x = src.n(254) as u8 + 1;
            let (a, _) = gen_fill(src, n);
            let b: Vec<u8> = a.iter().map(|c| c ^ x).collect();
            cx.label("all bytes differ");
            cx.nontrivial = n > 0;
            cx.note(|| format!("{} against its complement under {:#04x}", show(&a), x));
            eq(&Msg::new(&a, 0), &Msg::new(&b, 1))
        }
        _ => {
            let n = cap(src.n(300));
            let m = cap(src.n(300));
            if n == m {
                return Ok(());
            }
            let (a, _) = gen_fill(src, n);
            let b: Vec<u8> = a.iter().copied().chain(core::iter::repeat(0)).take(m).collect();
            cx.label("different lengths");
            cx.nontrivial = true;
            cx.note(|| format!("lengths {} and {}", n, m));
            match catch(|| fixed_time_eq(&a, &b)) {
                Err(_) => {}
                Ok(r) => return Err(format!("lengths {} and {}: returned {}", n, m, r)),
            }
            if let Some(long) = hashing::aliased(src, n) {
                let short = &long[..n];
                cx.note(|| format!("lengths {} and {}", n, long.len()));
                for (a, b) in [(short, long), (long, short)] {
                    if let Ok(r) = catch(|| fixed_time_eq(a, b)) {
                        return Err(format!("lengths {} and {}: returned {}", a.len(), b.len(), r));
                    }
                }
            }
            Ok(())
        }
    }
}

pub fn c16_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for a in 0..=255 {
        v.push(vec![0, a, 0]);
        v.push(vec![0, a]);
    }
    for n in 0..=80u64 {
        for p in 0..=n {
            v.push(vec![1, n, p]);
        }
    }
    for n in 0..=40 {
        for m in 0..=40 {
            if n != m {
                v.push(vec![4, n, m]);
            }
        }
    }
    for n in 0..=520 {
        v.push(vec![3, n]);
    }
    for bit in 0..8 {
        for w in [0, 4] {
            v.push(vec![5, bit, w, 0]);
        }
    }
    // once 2^32
    v.push(vec![5, 7, 0, u64::MAX]);
    v
}

// ---- C17 -------------------------------------------------------------------------------------

#[cfg(not(any(miri, hashes_fuzz)))]
pub const C17_RULE: &str = "A case is a length (0..=72 swept), two buffers at chosen offsets and 6 to 20 contents for them (equal; one bit or byte different at each of several places, first and last included; all different; random; sign and zero bytes). \
Each call of fixed_time_eq is executed instruction by instruction (trap flag) and the sequence of instruction addresses is compared with the one for equal all-zero contents in the same buffers. \
Non-trivial: length > 0 and at least one unequal content; distinct by choice sequence.";

#[cfg(not(any(miri, hashes_fuzz)))]
pub fn c17(src: &mut Src, cx: &mut Cx) -> Res {
    use crate::trace;
    let n = match src.n(3) {
        0 => src.n(72),
        1 => src.n(16),
        2 => src.pick(&[20usize, 32, 48, 64, 33, 128, 256]),
        _ => {
            let most = match src.n(39) {
                39 => 70_000,
                0..=9 => 5000,
                _ => 300,
            };
            src.n(most)
        }
    };
    let (oa, ob) = (src.n(15), src.n(15));
    let mut a = vec![0u8; oa + n];
    let mut b = vec![0u8; ob + n];
    cx.note(|| format!("length {}, offsets {} {}", n, oa, ob));
    let k = match n {
        0..=300 => src.range(6, 20),
        301..=5000 => 6,
        _ => 2,
    };
    let base = trace::run(&a[oa..], &b[ob..])?;
    if base.len < 3 {
        return Err(format!("no trace ({} instructions)", base.len));
    }
    cx.label(match n {
        0 => "length 0",
        1..=16 => "length 1..16",
        17..=64 => "length 17..64",
        _ => "length > 64",
    });
    for _ in 0..k {
        let (fill, _) = gen_fill(src, n);
        a[oa..].copy_from_slice(&fill);
        b[ob..].copy_from_slice(&fill);
        let what = src.n(6);
        if n > 0 {
            match what {
                0 => {}
                1 => b[ob] ^= 1 << src.n(7),
                2 => b[ob + n - 1] ^= 1 << src.n(7),
                3 => {
                    let i = src.n(n - 1);
                    b[ob + i] = src.byte();
                }
                4 => {
                    let x = src.byte();
                    b[ob..].iter_mut().for_each(|c| *c ^= x);
                }
                5 => {
                    let (f2, _) = gen_fill(src, n);
                    b[ob..].copy_from_slice(&f2);
                }
                _ => {
                    let i = src.n(n);
                    b[ob + i..].iter_mut().for_each(|c| *c = !*c);
                }
            }
        }
        let differ = a[oa..] != b[ob..];
        cx.nontrivial |= differ;
        cx.label(if differ { "trace of unequal contents" } else { "trace of equal contents" });
        let t = trace::run(&a[oa..], &b[ob..])?;
        if t != base {
            return Err(format!(
                "length {}: {} against {} executes {} instructions (hash {:x}), all-zero contents {} (hash {:x})",
                n,
                show(&a[oa..]),
                show(&b[ob..]),
                t.len,
                t.hash,
                base.len,
                base.hash
            ));
        }
    }
    Ok(())
}

#[cfg(not(any(miri, hashes_fuzz)))]
pub fn c17_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = (0..=72).map(|n| vec![0, n]).collect();
    for n in [1023, 1024, 4095, 4096, 4097] {
        v.push(vec![3, 0, n]);
    }
    v.push(vec![3, 39, 65_537]);
    v
}

// ---- C20 -------------------------------------------------------------------------------------

#[cfg(hashes_fuzz)]
pub const C20_RULE: &str = "A case is an engine kind (17) with a message (lengths 0..=300 swept) in a build with --cfg hashes_fuzz: hashing in one piece, in a random partition, byte by byte and through a clone must agree and repeat, \
the digest must have the normal length, SHA-256 must not return all zeros, and nothing may panic. Messages that xor to zero are generated on purpose. Non-trivial: non-empty message; distinct by choice sequence.";

#[cfg(hashes_fuzz)]
pub fn c20(src: &mut Src, cx: &mut Cx) -> Res {
    use crate::engines::{kind_of, Kind, N_KINDS};
    use crate::props::hashing::{expect, pieces};
    use crate::refimpl::Alg;
    use crate::src::{gen_len, gen_partition};
    let k = src.n(N_KINDS - 1);
    let n = if src.n(1) == 0 { src.n(300) } else { gen_len(src, 64, 20_000) };
    let kind = kind_of(src, k);
    let (mut m, _) = gen_fill(src, n);
    let zero = n > 0 && src.one_in(3);
    if zero {
        let x = m[..n - 1].iter().fold(0, |a, b| a ^ b);
        m[n - 1] = x;
        cx.label("xor is zero");
    }
    let msg = Msg::new(&m, src.n(7));
    let cuts = gen_partition(src, n, kind.block());
    cx.label(kind.label());
    cx.nontrivial = n > 0;
    cx.note(|| format!("{} message {} in {} pieces", kind.show(), show(&msg), cuts.len()));
    let run = |ps: &[&[u8]]| -> Result<Vec<u8>, String> {
        catch(|| {
            let mut e = kind.make();
            for p in ps {
                e.input(p);
            }
            let c = e.fork();
            kind.enter();
            let r = e.fin();
            kind.enter();
            if c.fin() != r {
                return Err(format!("{}: a clone gives another digest", kind.label()));
            }
            Ok(r)
        })
        .map_err(|p| format!("{}: panic: {}", kind.label(), p))?
    };
    let one = run(&[&msg])?;
    expect("same call twice", &run(&[&msg])?, &one)?;
    expect("in pieces", &run(&pieces(&msg, &cuts))?, &one)
        .map_err(|e| format!("{} (pieces {:?}): {}", kind.label(), cuts, e))?;
    if n <= 400 {
        let ps: Vec<&[u8]> = msg.chunks(1).collect();
        expect("byte by byte", &run(&ps)?, &one).map_err(|e| format!("{}: {}", kind.label(), e))?;
    }
    let want = kind.reference(&[]).len();
    if one.len() != want {
        return Err(format!("{}: digest of {} bytes", kind.label(), one.len()));
    }
    if let Kind::Plain(a) = &kind {
        let e = hashing::all_entries(*a, &msg, &pieces(&msg, &cuts));
        for (what, d) in e {
            // const_hash is not stubbed
            if what.contains("const") {
                continue;
            }
            expect(what, &d, &one)?;
        }
    }
    if kind == Kind::Plain(Alg::Sha256) && one.iter().all(|b| *b == 0) {
        return Err(format!("SHA-256 of {} is all zeros", show(&msg)));
    }
    Ok(())
}

#[cfg(hashes_fuzz)]
pub fn c20_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for k in 0..17 {
        for n in 0..=300 {
            v.push(vec![k, 0, n]);
        }
    }
    v
}
