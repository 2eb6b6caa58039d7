//! C02 streaming, C06 midstates, C13 writers, C19 independence. Histories of operations on engines.

use chf::{
    hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine,
};

use crate::engines::{gen_kind, gen_sip, kind_of, DynTag, Eng, Kind, N_KINDS};
use crate::props::hashing::{expect, pieces};
use crate::refimpl::{Alg, State, ALGS};
use crate::runner::{catch, Cx, Res};
use crate::src::{cap, few, fill_random, gen_fill, gen_len, gen_msg_len, gen_partition, lean, show, Msg, Src};

/// The size of one piece of input.
fn gen_piece(src: &mut Src, block: usize) -> usize {
    cap(match src.n(11) {
        0 => 0,
        1 => 1,
        2 => src.n(8),
        3 | 4 => src.n(block),
        5 => block,
        6 => (block + src.n(2)).saturating_sub(1),
        7 | 8 => src.n(2 * block + 2),
        9 => src.n(5 * block),
        10 => block * src.n(10),
        _ => {
            if src.one_in(6) {
                let most = if src.one_in(40) { 3 << 20 } else { 70_000 };
                src.n(most)
            } else {
                src.n(3000)
            }
        }
    })
}

struct Live {
    kind: Kind,
    eng: Box<dyn Eng>,
    log: Vec<u8>,
    n0: usize,
}

impl Live {
    fn new(kind: Kind) -> Result<Live, String> {
        let eng = kind.make();
        let n0 = eng.n();
        if matches!(kind, Kind::Plain(_) | Kind::Sip(..)) && n0 != 0 {
            return Err(format!("{}: n_bytes_hashed() of a new engine is {}", kind.label(), n0));
        }
        Ok(Live { kind, eng, log: Vec::new(), n0 })
    }

    fn feed(&mut self, data: &[u8]) -> Res {
        let before = self.eng.n();
        self.eng.input(data);
        self.log.extend_from_slice(data);
        let after = self.eng.n();
        if after.wrapping_sub(before) != data.len() {
            return Err(format!(
                "{}: {} bytes raised n_bytes_hashed() from {} to {}",
                self.kind.label(),
                data.len(),
                before,
                after
            ));
        }
        Ok(())
    }

    fn count(&self) -> Res {
        if self.eng.n() != self.n0 + self.log.len() {
            return Err(format!(
                "{}: n_bytes_hashed() = {} after {} bytes (started at {})",
                self.kind.label(),
                self.eng.n(),
                self.log.len(),
                self.n0
            ));
        }
        Ok(())
    }

    fn fork(&self) -> Live {
        Live { kind: self.kind.clone(), eng: self.eng.fork(), log: self.log.clone(), n0: self.n0 }
    }

    /// Overwritten by `clone_from`; both are of one type, not necessarily with the same key or tag.
    fn assign(&mut self, from: &Live) {
        from.kind.enter();
        self.eng.assign(&*from.eng);
        self.kind = from.kind.clone();
        self.log = from.log.clone();
        self.n0 = from.n0;
    }

    fn check(self) -> Res {
        self.count()?;
        self.kind.enter();
        let got = self.eng.fin();
        expect(self.kind.label(), &got, &self.kind.reference(&self.log))
            .map_err(|e| format!("{} (message {})", e, show(&self.log)))
    }
}

fn piece(src: &mut Src, block: usize) -> Msg {
    let n = gen_piece(src, block);
    let mut v = vec![0; n];
    let style = src.n(3);
    if style > 0 {
        fill_random(&mut v, src.u64());
    }
    if style == 3 {
        crate::src::embed(src, &mut v);
    }
    let off = src.n(7);
    Msg::new(&v, off)
}

// ---- C02 -------------------------------------------------------------------------------------

pub const C02_RULE: &str = "A case is an engine kind (17 kinds with random keys and tags) and either three pieces (first two lengths swept up to two blocks and one), \
a message cut in many pieces fed one by one and through the one-shot functions, pieces fed to an engine that is up to 2^61 bytes into its message against the same in one piece, or a history of up to 40 operations (input of a piece, empty input, clone, clone_from, count, finalize a clone, drop) on up to 5 engines of one type, clones of one another or new with keys and tags of their own. \
Model: each engine's log of bytes, judged by the reference digest and by the byte count. Non-trivial: at least two inputs of which one is non-empty; distinct by choice sequence.";

pub fn c02(src: &mut Src, cx: &mut Cx) -> Res {
    let mode = src.n(60);
    if mode == 60 {
        let what = src.n(3);
        return far_along(src, cx, what);
    }
    let mode = mode % 5;
    if mode == 0 {
        let k = src.n(N_KINDS - 1);
        let a = src.n(257);
        let b = src.n(257);
        let c = src.n(20);
        let kind = kind_of(src, k);
        let msg = gen_msg_len(src, a + b + c);
        cx.label("three pieces");
        cx.label(kind.label());
        cx.nontrivial = a + b + c > 0;
        cx.note(|| format!("{}: pieces {} + {} + {} of {}", kind.show(), a, b, c, show(&msg)));
        let mut l = Live::new(kind)?;
        l.feed(&msg[..a])?;
        let other = l.fork();
        l.feed(&msg[a..a + b])?;
        l.feed(&msg[a + b..])?;
        if !lean() {
            let ps = [&msg[..a], &msg[a..a + b], &msg[a + b..]];
            if let Some((chunks, whole)) = l.kind.oneshot(&ps, &msg) {
                let want = l.kind.reference(&msg);
                expect("hash_byte_chunks", &chunks, &want)?;
                expect("HashEngine::hash", &whole, &want)?;
            }
        }
        l.check()?;
        // the clone must not have noticed
        return other.check();
    }
    if mode == 3 {
        let mut kind = gen_kind(src);
        // the one-shot functions have no key
        match &mut kind {
            Kind::Sip(a, b) => (*a, *b) = (0, 0),
            Kind::Hmac(_, k) | Kind::HmacSip(k) | Kind::HmacTagged(_, k) | Kind::HmacHmac(k) =>
                k.clear(),
            _ => (),
        }
        let n = gen_len(src, kind.block(), 1 << 21);
        let msg = gen_msg_len(src, n);
        let cuts = gen_partition(src, n, kind.block());
        let ps = pieces(&msg, &cuts);
        cx.label("one-shot in pieces");
        cx.label(kind.label());
        cx.nontrivial = cuts.len() > 1 && n > 0;
        cx.note(|| format!("{}: {} in pieces of {:?}", kind.show(), show(&msg), cuts));
        let want = kind.reference(&msg);
        let mut l = Live::new(kind.clone())?;
        for p in &ps {
            l.feed(p)?;
        }
        kind.enter();
        expect(kind.label(), &l.eng.fin(), &want)?;
        if let Some((chunks, whole)) = kind.oneshot(&ps, &msg) {
            expect("hash_byte_chunks", &chunks, &want)?;
            expect("HashEngine::hash", &whole, &want)?;
        }
        return Ok(());
    }
    if mode == 4 {
        // far into a message
        let alg = ALGS[src.n(5)];
        let len = gen_aligned(src, alg.block());
        let n = gen_len(src, alg.block(), 5000);
        let tail = gen_msg_len(src, n);
        let cuts = gen_partition(src, n, alg.block());
        let state = vec![7u8; alg.state_len()];
        let hm = src.n(2) == 2;
        cx.label("far into a message");
        cx.label(Kind::Plain(alg).label());
        cx.nontrivial = n > 0;
        cx.note(|| format!("{:?} (hmac {}) after {} bytes: {} in pieces of {:?}", alg, hm, len, show(&tail), cuts));
        let run = |ps: &[&[u8]]| {
            if hm {
                hmac_start(alg, &state, &state, len, ps)
            } else {
                start_from(alg, 0, &state, len, ps)
            }
        };
        let o = run(&pieces(&tail, &cuts));
        counted(&o)?;
        let whole = run(&[&tail]);
        counted(&whole)?;
        return expect("in pieces", &o.digest, &whole.digest)
            .map_err(|e| format!("{:?} after {} bytes: {}", alg, len, e));
    }
    let kind = gen_kind(src);
    cx.label("history");
    cx.label(kind.label());
    let block = kind.block();
    let mut live = vec![Live::new(kind.clone())?];
    let steps = src.range(1, few(40, 5));
    let mut inputs = 0;
    let mut nonempty = 0;
    cx.note(|| kind.show());
    for _ in 0..steps {
        if live.is_empty() {
            break;
        }
        let i = src.n(live.len() - 1);
        match src.n(10) {
            0..=4 => {
                let m = piece(src, block);
                inputs += 1;
                nonempty += !m.is_empty() as usize;
                cx.note(|| format!("#{} input {}", i, show(&m)));
                live[i].feed(&m)?;
            }
            5 => {
                cx.note(|| format!("#{} input of nothing", i));
                inputs += 1;
                live[i].feed(&[])?;
            }
            6 => {
                if live.len() < 5 && src.one_in(4) {
                    // one of the same type, with a key or tag of its own
                    let k = kind.sibling(src);
                    cx.label("op sibling");
                    cx.note(|| format!("#{} is a new {}", live.len(), k.show()));
                    live.push(Live::new(k)?);
                } else if live.len() < 5 {
                    cx.label("op clone");
                    cx.note(|| format!("#{} clone", i));
                    let l = live[i].fork();
                    live.push(l);
                }
            }
            7 => live[i].count()?,
            9 => {
                // over another engine
                let j = src.n(live.len() - 1);
                if i != j {
                    cx.label("op clone_from");
                    cx.note(|| format!("#{} becomes a clone of #{}", j, i));
                    let from = live[i].fork();
                    live[j].assign(&from);
                }
            }
            8 => {
                cx.note(|| format!("#{} finalize a clone", i));
                live[i].fork().check()?;
            }
            _ => {
                if live.len() > 1 && src.one_in(2) {
                    cx.note(|| format!("#{} drop", i));
                    live.swap_remove(i);
                }
            }
        }
    }
    cx.nontrivial = inputs >= 2 && nonempty >= 1;
    for l in live {
        l.check()?;
    }
    Ok(())
}

pub fn c02_sweep(thorough: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for k in 0..N_KINDS as u64 {
        let b = match k {
            6 => 8,
            14 => 32,
            2 | 3 | 4 | 10 | 11 | 12 => 128,
            _ => 64,
        };
        let seconds: Vec<u64> = if thorough {
            (0..=2 * b + 1).collect()
        } else {
            vec![0, 1, 7, b / 2, b.saturating_sub(9), b - 8, b - 1, b, b + 1, 2 * b]
        };
        for a in 0..=2 * b + 1 {
            for s in &seconds {
                v.push(vec![0, k, a, *s]);
            }
        }
    }
    v
}

// ---- C06 -------------------------------------------------------------------------------------

pub const C06_RULE: &str = "A case is one of: (a) an engine kind and a history in which the engine is replaced, up to 4 times at block boundaries, by one restored from its exported midstate \
and length, then fed on and compared with the reference digest; (b) an arbitrary state and a length up to 2^61 for a plain, tagged or HMAC engine, continued and compared with the reference \
compression; (c) the exported midstate bytes after k blocks against the reference chaining value; SipHash engines restored at lengths 256 k further than the state was met; (d) a length that is no multiple of the block, which must panic. \
Non-trivial: a restore of a non-initial state, or a misaligned length; distinct by choice sequence.";

macro_rules! from_mid {
    ($m:ident, $state:expr, $len:expr) => {{
        let mut a = [0u8; core::mem::size_of::<<$m::Engine as HashEngine>::Midstate>()];
        a.copy_from_slice($state);
        <$m::Engine as HashEngine>::from_midstate(a, $len)
    }};
}

/// What an engine made from `state` and `len` says: length, midstate, digest after `ps`.
struct FromState {
    n: usize,
    /// The first piece that was counted wrongly, if any: its length, the counts before and after.
    miscounted: Option<(usize, usize, usize)>,
    mid: Vec<u8>,
    digest: Vec<u8>,
}

fn observe<E: HashEngine>(e: E, mid: impl Fn(&E) -> Vec<u8>, ps: &[&[u8]]) -> FromState {
    let n = e.n_bytes_hashed();
    let m = mid(&e);
    let mut e = e.clone();
    let mut miscounted = None;
    for p in ps {
        let before = e.n_bytes_hashed();
        e.input(p);
        if e.n_bytes_hashed().wrapping_sub(before) != p.len() {
            miscounted.get_or_insert((p.len(), before, e.n_bytes_hashed()));
        }
    }
    FromState { n, miscounted, mid: m, digest: e.finalize().as_ref().to_vec() }
}

fn counted(o: &FromState) -> Res {
    match o.miscounted {
        None => Ok(()),
        Some((k, a, b)) => Err(format!("{} bytes raised n_bytes_hashed() from {} to {}", k, a, b)),
    }
}

fn start_from(alg: Alg, variant: usize, state: &[u8], len: usize, ps: &[&[u8]]) -> FromState {
    fn v(x: impl AsRef<[u8]>) -> Vec<u8> { x.as_ref().to_vec() }
    match alg {
        Alg::Sha1 => observe(from_mid!(sha1, state, len), |e| v(e.midstate()), ps),
        Alg::Sha256 => {
            let mut a = [0; 32];
            a.copy_from_slice(state);
            let m = sha256::Midstate(a);
            match variant {
                0 => observe(
                    <sha256::Engine as HashEngine>::from_midstate(m, len),
                    |e| v(e.midstate()),
                    ps,
                ),
                1 => observe(sha256::Engine::from_midstate(m, len), |e| v(e.midstate()), ps),
                _ => observe(
                    <sha256t::Engine<DynTag> as HashEngine>::from_midstate(
                        sha256::Midstate::from_byte_array(a),
                        len,
                    ),
                    |e| v(e.midstate()),
                    ps,
                ),
            }
        }
        Alg::Sha384 => observe(from_mid!(sha384, state, len), |e| v(e.midstate()), ps),
        Alg::Sha512 => observe(from_mid!(sha512, state, len), |e| v(e.midstate()), ps),
        Alg::Sha512_256 => observe(from_mid!(sha512_256, state, len), |e| v(e.midstate()), ps),
        Alg::Ripemd160 => observe(from_mid!(ripemd160, state, len), |e| v(e.midstate()), ps),
    }
}

fn hmac_start(alg: Alg, inner: &[u8], outer: &[u8], len: usize, ps: &[&[u8]]) -> FromState {
    fn v(x: impl AsRef<[u8]>) -> Vec<u8> { x.as_ref().to_vec() }
    macro_rules! go {
        ($m:ident, $mk:expr) => {{
            let mk = $mk;
            let e = <hmac::Engine<$m::Engine> as HashEngine>::from_midstate(
                hmac::Midstate { inner: mk(inner), outer: mk(outer) },
                len,
            );
            observe(e, |e| [v(e.midstate().inner), v(e.midstate().outer)].concat(), ps)
        }};
    }
    fn arr<const N: usize>(s: &[u8]) -> [u8; N] {
        let mut a = [0; N];
        a.copy_from_slice(s);
        a
    }
    match alg {
        Alg::Sha1 => go!(sha1, arr::<20>),
        Alg::Sha256 => go!(sha256, |s: &[u8]| sha256::Midstate(arr::<32>(s))),
        Alg::Sha384 => go!(sha384, arr::<64>),
        Alg::Sha512 => go!(sha512, arr::<64>),
        Alg::Sha512_256 => go!(sha512_256, arr::<64>),
        Alg::Ripemd160 => go!(ripemd160, arr::<20>),
    }
}

/// A multiple of the block below 2^61, and small enough for this target.
fn gen_aligned(src: &mut Src, block: usize) -> usize {
    let max_bits = core::cmp::min(61, usize::BITS - 1);
    let v: u64 = match src.n(5) {
        0 => src.n(300) as u64,
        1 => {
            // close to a power of two
            let p = src.range(7, max_bits as usize - 1);
            let d = src.n(8) as u64;
            ((1u64 << p) / block as u64 + d).saturating_sub(4)
        }
        2 => src.draw((1u64 << 29) / block as u64),
        3 => src.draw((1u64 << core::cmp::min(33, max_bits - 1)) / block as u64),
        4 => src.draw((1u64 << (max_bits - 1)) / block as u64),
        // the largest lengths allowed, less room for the rest of the message
        _ => ((1u64 << max_bits) - (1 << 21)) / block as u64 - src.n(1000) as u64,
    };
    (v * block as u64) as usize
}

/// A state of random words, some of them extreme.
fn gen_state(src: &mut Src, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    match src.n(3) {
        0 => fill_random(&mut v, src.u64()),
        1 => {
            for x in v.iter_mut() {
                *x = src.byte();
            }
        }
        2 => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = i as u8;
            }
        }
        _ => {
            let b = src.pick(&[0u8, 0xff, 0x80]);
            v.iter_mut().for_each(|x| *x = b);
        }
    }
    v
}

/// The end of a message far longer than could be fed: an engine that stands at a chosen length, with
/// a chosen state, goes on with a few more bytes. `what`: 0 plain, 1 HMAC, 2 tagged, 3 SipHash.
/// Says nothing if engines cannot be restored as they should: that is C06's matter.
pub fn far_along(src: &mut Src, cx: &mut Cx, what: usize) -> Res {
    cx.label("far along");
    cx.nontrivial = true;
    if what == 3 {
        let blocks = src.n(70);
        let (k0, k1) = (src.u64(), src.u64());
        let msg = gen_msg_len(src, 8 * blocks);
        let far = gen_aligned(src, 256);
        let n = gen_len(src, 8, 1000);
        let tail = gen_msg_len(src, n);
        let cuts = gen_partition(src, n, 8);
        let ps = pieces(&tail, &cuts);
        cx.note(|| format!("SipHash({:#x}, {:#x}) of {} bytes, of which {} and at the end {}", k0, k1, far + msg.len() + n, show(&msg), show(&tail)));
        let at = |len: usize| {
            let mut e = siphash24::Engine::with_keys(k0, k1);
            e.input(&msg);
            observe(<siphash24::Engine as HashEngine>::from_midstate(e.midstate(), len), |_| Vec::new(), &ps)
        };
        let want = Kind::Sip(k0, k1).reference(&[&msg[..], &tail[..]].concat());
        let (near, o) = (at(msg.len()), at(far + msg.len()));
        if near.n != msg.len() || o.n != far + msg.len() || near.digest != want {
            return Ok(());
        }
        counted(&o)?;
        return expect("digest", &o.digest, &want).map_err(|e| format!("{} bytes before the last {}: {}", o.n, n, e));
    }
    let alg = if what == 2 { Alg::Sha256 } else { ALGS[src.n(5)] };
    let b = alg.block();
    let (len, near_len) = (gen_aligned(src, b), b * src.n(3));
    let state = gen_state(src, alg.state_len());
    let n = gen_len(src, b, 1000);
    let tail = gen_msg_len(src, n);
    let cuts = gen_partition(src, n, b);
    let ps = pieces(&tail, &cuts);
    cx.label(Kind::Plain(alg).label());
    cx.note(|| format!("{:?} (way {}) standing at {} bytes with {}, then {}", alg, what, len, show(&state), show(&tail)));
    let at = |len: usize| match what {
        1 => hmac_start(alg, &state, &state, len, &ps),
        w => start_from(alg, w, &state, len, &ps),
    };
    let want = |len: usize| {
        let d = State::from_bytes(alg, &state).finish(len as u128 + n as u128, &tail);
        match what {
            1 => State::from_bytes(alg, &state).finish((b + d.len()) as u128, &d),
            _ => d,
        }
    };
    let mid = if what == 1 { [state.clone(), state.clone()].concat() } else { state.clone() };
    let (near, o) = (at(near_len), at(len));
    if near.n != near_len || o.n != len || near.mid != mid || o.mid != mid || near.digest != want(near_len) {
        return Ok(());
    }
    counted(&o)?;
    expect("digest", &o.digest, &want(len)).map_err(|e| format!("{:?}, {} bytes before the last {}: {}", alg, len, n, e))
}

pub fn c06(src: &mut Src, cx: &mut Cx) -> Res {
    match src.n(6) {
        6 => {
            // SipHash knows its length modulo 256 only: a state met after n bytes may be met after
            // n + 256 k bytes too
            let kind = gen_sip(src);
            let (k0, k1) = match kind {
                Kind::Sip(a, b) => (a, b),
                _ => (0, 0),
            };
            let blocks = src.n(70);
            let msg = gen_msg_len(src, 8 * blocks);
            let far = gen_aligned(src, 256);
            let n = gen_len(src, 8, 1000);
            let tail = gen_msg_len(src, n);
            let cuts = gen_partition(src, n, 8);
            cx.label("SipHash far into a message");
            cx.label(kind.label());
            cx.nontrivial = true;
            cx.note(|| format!("{} fed {}, restored at {} bytes more, then {} in {} pieces", kind.show(), show(&msg), far, show(&tail), cuts.len()));
            let mut e = siphash24::Engine::with_keys(k0, k1);
            e.input(&msg);
            let len = far + 8 * blocks;
            let again = e.midstate();
            let e = <siphash24::Engine as HashEngine>::from_midstate(e.midstate(), len);
            let o = observe(e, |_| Vec::new(), &pieces(&tail, &cuts));
            if o.n != len {
                return Err(format!("SipHash: restored with length {}, reports {}", len, o.n));
            }
            counted(&o)?;
            let want = kind.reference(&[&msg[..], &tail[..]].concat());
            expect("digest of a restored SipHash engine", &o.digest, &want)
                .map_err(|e| format!("length {}, {} more bytes: {}", len, n, e))?;
            let mut e = <siphash24::Engine as HashEngine>::from_midstate(again, len);
            for p in pieces(&tail, &cuts) {
                e.input(p);
            }
            expect("integer digest of a restored SipHash engine", &siphash24::Hash::from_engine_to_u64(e).to_le_bytes(), &want)
                .map_err(|e| format!("length {}, {} more bytes: {}", len, n, e))
        }
        0 => {
            // one restore, with swept sizes
            let k = src.n(N_KINDS - 1);
            let blocks = src.n(12);
            let tail = src.n(300);
            let kind = kind_of(src, k);
            c06_history(src, cx, kind, Some((blocks, tail)))
        }
        1 | 2 => {
            let kind = gen_kind(src);
            c06_history(src, cx, kind, None)
        }
        3 => {
            let alg = ALGS[src.n(5)];
            let len = gen_aligned(src, alg.block());
            let state = gen_state(src, alg.state_len());
            let variant = if alg == Alg::Sha256 { src.n(2) } else { 0 };
            let n = gen_len(src, alg.block(), 5000);
            let tail = gen_msg_len(src, n);
            let cuts = gen_partition(src, n, alg.block());
            cx.label("arbitrary state");
            cx.label(Kind::Plain(alg).label());
            if len >= 1 << 29 {
                cx.label("length>=2^29");
            }
            #[cfg(target_pointer_width = "64")]
            if len >= 1 << 32 {
                cx.label("length>=2^32");
            }
            cx.nontrivial = true;
            cx.note(|| format!("{:?} state {} length {} then {} in {} pieces", alg, show(&state), len, show(&tail), cuts.len()));
            let o = start_from(alg, variant, &state, len, &pieces(&tail, &cuts));
            if o.n != len {
                return Err(format!("{:?}: restored with length {}, reports {}", alg, len, o.n));
            }
            counted(&o)?;
            expect("midstate of a restored engine", &o.mid, &state)
                .map_err(|e| format!("{:?}: {}", alg, e))?;
            let want = State::from_bytes(alg, &state).finish(len as u128 + n as u128, &tail);
            expect("digest of a restored engine", &o.digest, &want)
                .map_err(|e| format!("{:?}, length {}, {} more bytes: {}", alg, len, n, e))
        }
        4 => {
            // midstate bytes of real histories; HMAC from arbitrary states
            let alg = ALGS[src.n(5)];
            let b = alg.block();
            if src.n(1) == 0 {
                let blocks = src.n(few(20, 3));
                let msg = gen_msg_len(src, blocks * b);
                let cuts = gen_partition(src, msg.len(), b);
                cx.label("chaining value");
                cx.label(Kind::Plain(alg).label());
                cx.nontrivial = blocks > 0;
                cx.note(|| format!("{:?}: chaining value after {}", alg, show(&msg)));
                let mut st = State::init(alg);
                for c in msg.chunks_exact(b) {
                    st.compress(c);
                }
                let ps = pieces(&msg, &cuts);
                macro_rules! mid {
                    ($m:ident) => {{
                        let mut e = $m::Engine::default();
                        for p in &ps {
                            e.input(p);
                        }
                        let m = e.midstate();
                        let s: &[u8] = m.as_ref();
                        s.to_vec()
                    }};
                }
                let got = match alg {
                    Alg::Sha1 => mid!(sha1),
                    Alg::Sha256 => mid!(sha256),
                    Alg::Sha384 => mid!(sha384),
                    Alg::Sha512 => mid!(sha512),
                    Alg::Sha512_256 => mid!(sha512_256),
                    Alg::Ripemd160 => mid!(ripemd160),
                };
                return expect("midstate", &got, &st.to_bytes())
                    .map_err(|e| format!("{:?} after {} blocks: {}", alg, blocks, e));
            }
            let len = gen_aligned(src, b);
            let inner = gen_state(src, alg.state_len());
            let outer = gen_state(src, alg.state_len());
            let n = gen_len(src, b, 3000);
            let tail = gen_msg_len(src, n);
            let cuts = gen_partition(src, n, b);
            cx.label("arbitrary HMAC state");
            cx.label(Kind::Hmac(alg, Vec::new()).label());
            cx.nontrivial = true;
            cx.note(|| format!("HMAC {:?} inner {} outer {} length {} then {}", alg, show(&inner), show(&outer), len, show(&tail)));
            let o = hmac_start(alg, &inner, &outer, len, &pieces(&tail, &cuts));
            if o.n != len {
                return Err(format!("HMAC {:?}: restored with length {}, reports {}", alg, len, o.n));
            }
            counted(&o)?;
            expect("HMAC midstate", &o.mid, &[inner.clone(), outer.clone()].concat())?;
            let ih = State::from_bytes(alg, &inner).finish(len as u128 + n as u128, &tail);
            let want = State::from_bytes(alg, &outer).finish((b + ih.len()) as u128, &ih);
            expect("restored HMAC", &o.digest, &want)
                .map_err(|e| format!("{:?}, length {}, {} more bytes: {}", alg, len, n, e))
        }
        _ => {
            // misaligned
            let alg = ALGS[src.n(5)];
            let b = alg.block();
            let hm = src.n(2) == 2;
            let off = 1 + src.n(b - 2);
            let len = gen_aligned(src, b) + off;
            let variant = if alg == Alg::Sha256 { src.n(2) } else { 0 };
            cx.label("misaligned length");
            cx.nontrivial = true;
            cx.note(|| format!("{:?} (variant {}, hmac {}): length {} must panic", alg, variant, hm, len));
            let state = vec![7u8; alg.state_len()];
            let r = catch(|| {
                if hm {
                    hmac_start(alg, &state, &state, len, &[])
                } else {
                    start_from(alg, variant, &state, len, &[])
                }
            });
            match r {
                Err(_) => Ok(()),
                Ok(_) => Err(format!("{:?}: length {} (block {}) was accepted", alg, len, b)),
            }
        }
    }
}

fn c06_history(src: &mut Src, cx: &mut Cx, kind: Kind, fixed: Option<(usize, usize)>) -> Res {
    cx.label("restore");
    cx.label(kind.label());
    cx.note(|| kind.show());
    let g = kind.grain();
    let mut l = Live::new(kind.clone())?;
    let rounds = if fixed.is_some() { 1 } else { src.range(1, few(4, 2)) };
    for _ in 0..rounds {
        // up to the next boundary
        let blocks = match fixed {
            Some((b, _)) => b,
            None => match src.n(3) {
                0 => src.n(2),
                1 => src.n(10),
                _ => src.n(100),
            },
        };
        let target = cap(blocks * g) / g * g;
        let msg = gen_msg_len(src, target);
        let cuts = gen_partition(src, target, g);
        for p in pieces(&msg, &cuts) {
            l.feed(p)?;
        }
        l.count()?;
        l.kind.enter();
        let resumed = l.eng.resume();
        cx.note(|| format!("fed {}, restored at {}", show(&msg), l.eng.n()));
        if resumed.n() != l.eng.n() {
            return Err(format!("{}: restored with length {}, reports {}", kind.label(), l.eng.n(), resumed.n()));
        }
        if !l.log.is_empty() {
            cx.nontrivial = true;
        }
        // one goes on from the original, one from the restored engine
        let orig = l.fork();
        l.eng = resumed;
        l.fork().check().map_err(|e| format!("right after restoring: {}", e))?;
        if src.one_in(4) {
            orig.check()?;
        }
    }
    let n = match fixed {
        Some((_, t)) => cap(t),
        None => gen_len(src, kind.block(), 3000),
    };
    let tail = gen_msg_len(src, n);
    let cuts = gen_partition(src, n, kind.block());
    for p in pieces(&tail, &cuts) {
        l.feed(p)?;
    }
    cx.note(|| format!("then {}", show(&tail)));
    l.check().map_err(|e| format!("after restoring: {}", e))
}

pub fn c06_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for k in 0..N_KINDS as u64 {
        for b in 0..=6 {
            for t in [0u64, 1, 7, 8, 9, 31, 32, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 200] {
                v.push(vec![0, k, b, t]);
            }
        }
    }
    for a in 0..6u64 {
        for off in 0..=126u64 {
            // misaligned: alg, no hmac, offset
            v.push(vec![5, a, 0, off]);
            v.push(vec![5, a, 2, off]);
        }
    }
    v
}

// ---- C13 -------------------------------------------------------------------------------------

pub const C13_RULE: &str = "A case is an engine kind with Write impls and a history of up to 25 operations (write, write_all, write_vectored with up to 70 buffers, BufWriter, io::copy, write!, flush through std::io; \
write, write_all, flush through bitcoin_io; direct input; empty buffers included). Model: the log of accepted bytes, judged by the reference digest and the byte count. \
Non-trivial: at least one trait write of a non-empty buffer; distinct by choice sequence.";

fn c13_kind(src: &mut Src, i: usize) -> Kind {
    // those with Write impls
    let m = [0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
    kind_of(src, m[i])
}

pub fn c13(src: &mut Src, cx: &mut Cx) -> Res {
    let i = src.n(14);
    let first = src.n(11);
    let kind = c13_kind(src, i);
    cx.label(kind.label());
    cx.note(|| kind.show());
    let block = kind.block();
    let mut l = Live::new(kind.clone())?;
    let steps = src.range(1, few(25, 3));
    let has_std = cfg!(feature = "std");
    let has_bio = cfg!(any(feature = "std", feature = "io"));
    for s in 0..steps {
        let op = if s == 0 { first } else { src.n(11) };
        let m = piece(src, block);
        if op == 4 && has_std {
            // text
            let a = String::from_utf8_lossy(&m).into_owned();
            let b = src.pick(&["", "x", "yz", "abcd", "\u{e9}\u{4e2d}"]);
            cx.label("op write!");
            cx.note(|| format!("write! {:?} {:?}", a, b));
            let want = format!("{}{:>3}", a, b);
            let before = l.eng.n();
            match l.eng.wr().std_fmt(&a, b) {
                Some(Ok(())) => {}
                r => return Err(format!("{}: write! gave {:?}", kind.label(), r)),
            }
            if l.eng.n().wrapping_sub(before) != want.len() {
                return Err(format!("{}: write! of {} bytes counted {}", kind.label(), want.len(), l.eng.n().wrapping_sub(before)));
            }
            l.log.extend_from_slice(want.as_bytes());
            cx.nontrivial |= !want.is_empty();
            continue;
        }
        if op == 5 && has_std {
            let cuts = match src.n(3) {
                0 => gen_partition(src, m.len(), block),
                1 => {
                    // many small ones, and empty ones
                    let k = src.n(few(70, 4));
                    let mut left = m.len();
                    let mut v = Vec::new();
                    for _ in 0..k {
                        let n = core::cmp::min(left, src.n(3));
                        v.push(n);
                        left -= n;
                    }
                    v.push(left);
                    v
                }
                _ => {
                    let cut = src.n(m.len());
                    vec![cut, m.len() - cut]
                }
            };
            let ps = pieces(&m, &cuts);
            if src.one_in(2) {
                let size = src.n(200);
                let end = src.n(2);
                cx.label("op BufWriter");
                cx.note(|| format!("BufWriter({}) {} in {} pieces", size, show(&m), cuts.len()));
                let before = l.eng.n();
                match l.eng.wr().std_buffered(&ps, size, end) {
                    Some(Ok(())) => {}
                    r => return Err(format!("{}: a BufWriter gave {:?}", kind.label(), r)),
                }
                if l.eng.n().wrapping_sub(before) != m.len() {
                    return Err(format!("{}: {} bytes through a BufWriter, counted {}", kind.label(), m.len(), l.eng.n().wrapping_sub(before)));
                }
                l.log.extend_from_slice(&m);
                cx.nontrivial |= !m.is_empty();
                continue;
            }
            cx.label("op write_vectored");
            cx.note(|| format!("write_vectored {} in pieces of {:?}", show(&m), &cuts[..core::cmp::min(100, cuts.len())]));
            let before = l.eng.n();
            let k = match l.eng.wr().std_vectored(&ps) {
                Some(Ok(k)) => k,
                r => return Err(format!("{}: write_vectored gave {:?}", kind.label(), r)),
            };
            // a writer may take less than everything, but says how much
            if k > m.len() || l.eng.n().wrapping_sub(before) != k || (k == 0 && !m.is_empty()) {
                return Err(format!("{}: write_vectored of {} bytes returned {}, counted {}", kind.label(), m.len(), k, l.eng.n().wrapping_sub(before)));
            }
            l.log.extend_from_slice(&m[..k]);
            continue;
        }
        let before = l.eng.n();
        let w = l.eng.wr();
        let (name, r): (&'static str, Option<Result<u64, String>>) = match op {
            0 if has_std => ("op std write", w.std_write(&m).map(|r| r.map(|k| k as u64))),
            1 if has_std => ("op std write_all", w.std_write_all(&m).map(|r| r.map(|_| m.len() as u64))),
            2 if has_std => ("op io::copy", w.std_copy(&m)),
            3 if has_std => ("op std flush", w.std_flush().map(|r| r.map(|_| 0))),
            6 | 7 if has_bio => ("op bitcoin_io write", w.bio_write(&m).map(|r| r.map(|k| k as u64))),
            8 if has_bio => ("op bitcoin_io write_all", w.bio_write_all(&m).map(|r| r.map(|_| m.len() as u64))),
            9 if has_bio => ("op bitcoin_io flush", w.bio_flush().map(|r| r.map(|_| 0))),
            _ => {
                l.eng.input(&m);
                ("op input", Some(Ok(m.len() as u64)))
            }
        };
        cx.label(name);
        cx.note(|| format!("{} {}", name, show(&m)));
        let flush = name.ends_with("flush");
        let want = if flush { 0 } else { m.len() };
        match r {
            Some(Ok(k)) if k as usize == want => {}
            r => return Err(format!("{}: {} of {} bytes gave {:?}", kind.label(), name, m.len(), r)),
        }
        if l.eng.n().wrapping_sub(before) != want {
            return Err(format!("{}: {} of {} bytes counted {}", kind.label(), name, m.len(), l.eng.n().wrapping_sub(before)));
        }
        if !flush {
            l.log.extend_from_slice(&m);
            cx.nontrivial |= !m.is_empty() && name != "op input";
        }
        if src.one_in(8) {
            l.fork().check()?;
        }
    }
    l.check()
}

pub fn c13_sweep(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for k in 0..15 {
        for op in 0..12 {
            for _ in 0..12 {
                v.push(vec![k, op]);
            }
        }
    }
    v
}

// ---- C19 -------------------------------------------------------------------------------------

pub const C19_RULE: &str = "A case is a set of 2 to 8 engines of different kinds and either (a) one interleaving of up to 60 inputs, clones, restores, one-shot hashes, abandoned engines and finalisations on one thread, \
or the same memory hashed again and again with a byte of message, key or tag changed in between, or hashing and formatting from inside iterators, pieces, readers and writers given to the crate, or (b) 2 to 8 threads that run the engines' histories concurrently, each repeated and compared with the reference and with the single-threaded result. All types must be Send and Sync. \
Non-trivial: at least two engines are fed between each other's inputs (or two threads run); distinct by choice sequence.";

struct P<T>(core::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSend {
    const SEND: bool = false;
}
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSend for P<T> {}
impl<T> NotSync for P<T> {}
impl<T: Send> P<T> {
    const SEND: bool = true;
}
impl<T: Sync> P<T> {
    const SYNC: bool = true;
}

fn thread_types() -> Res {
    macro_rules! t {
        ($($t:ty),* $(,)?) => { $(
            if !<P<$t>>::SEND || !<P<$t>>::SYNC {
                return Err(format!("{} cannot be used by several threads (Send: {}, Sync: {})",
                    stringify!($t), <P<$t>>::SEND, <P<$t>>::SYNC));
            }
        )* };
    }
    t!(
        sha1::Engine, sha256::Engine, sha384::Engine, sha512::Engine, sha512_256::Engine,
        ripemd160::Engine, siphash24::Engine, sha256t::Engine<DynTag>, hmac::Engine<sha256::Engine>,
        hmac::Engine<sha512::Engine>, hmac::Engine<siphash24::Engine>,
        sha1::Hash, sha256::Hash, sha384::Hash, sha512::Hash, sha512_256::Hash, ripemd160::Hash,
        siphash24::Hash, sha256t::Hash<DynTag>, hmac::Hash<32>, sha256::Midstate
    );
    Ok(())
}

#[derive(Clone)]
struct Script {
    kind: Kind,
    pieces: Vec<Msg>,
}

impl Script {
    fn message(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for p in &self.pieces {
            v.extend_from_slice(p);
        }
        v
    }
    fn run(&self) -> Vec<u8> {
        let mut e = self.kind.make();
        for p in &self.pieces {
            e.input(p);
        }
        self.kind.enter();
        e.fin()
    }
}

/// Contents, keys and tags change in memory that stays where it is: nothing may be remembered by address.
fn same_memory(src: &mut Src, cx: &mut Cx) -> Res {
    cx.label("same memory, new contents");
    let k = gen_kind(src);
    let n = match src.n(3) {
        0 => src.n(9),
        1 => k.block(),
        2 => src.n(3 * k.block()),
        _ => cap(src.n(2000)),
    };
    let mut buf = gen_fill(src, n).0;
    let mut kind = k.clone();
    cx.label(kind.label());
    let steps = src.range(2, few(12, 2));
    cx.nontrivial = n > 0;
    cx.note(|| format!("{}: {} bytes, overwritten {} times", kind.show(), n, steps));
    for s in 0..steps {
        if s > 0 {
            // a byte of the message, key or tag, in place
            let flip = src.n(254) as u8 + 1;
            let at = src.n(1 << 16);
            fn poke(v: &mut [u8], at: usize, flip: u8) {
                let n = v.len();
                if n > 0 {
                    v[at % n] ^= flip;
                }
            }
            match (src.n(2), &mut kind) {
                (0, Kind::Hmac(_, k) | Kind::HmacSip(k) | Kind::HmacTagged(_, k) | Kind::HmacHmac(k)) =>
                    poke(k, at, flip),
                (0, Kind::Tagged(t)) | (1, Kind::HmacTagged(t, _)) => poke(t, at, flip),
                (0, Kind::Sip(a, b)) => (*a, *b) = (*b, *a ^ flip as u64),
                _ => poke(&mut buf, at, flip),
            }
        }
        let want = kind.reference(&buf);
        let mut e = kind.make();
        e.input(&buf);
        kind.enter();
        expect(kind.label(), &e.fin(), &want).map_err(|e| format!("round {}: {}", s, e))?;
        if let Some((chunks, whole)) = kind.oneshot(&[&buf], &buf) {
            expect("hash_byte_chunks", &chunks, &want).map_err(|e| format!("round {}: {}", s, e))?;
            expect("HashEngine::hash", &whole, &want).map_err(|e| format!("round {}: {}", s, e))?;
        }
        match &kind {
            Kind::Plain(a) =>
                for (what, d) in crate::props::hashing::all_entries(*a, &buf, &vec![&buf[..]]) {
                    expect(what, &d, &want).map_err(|e| format!("round {}: {}", s, e))?;
                },
            Kind::Sip(a, b) => {
                let h = siphash24::Hash::hash_with_keys(*a, *b, &buf);
                expect("hash_with_keys", h.as_bytes(), &want).map_err(|e| format!("round {}: {}", s, e))?;
            }
            Kind::Tagged(_) => {
                kind.enter();
                let h = sha256t::Hash::<DynTag>::hash(&buf);
                expect("sha256t::Hash::hash", h.as_bytes(), &want).map_err(|e| format!("round {}: {}", s, e))?;
            }
            _ => (),
        }
    }
    Ok(())
}

/// A piece of a message that is in the middle of another hash whenever it is looked at.
struct Busy<'a> {
    data: &'a [u8],
    inner: &'a Script,
    want: &'a [u8],
    bad: &'a std::cell::RefCell<Option<String>>,
}

fn aside(inner: &Script, want: &[u8], bad: &std::cell::RefCell<Option<String>>, what: &str) {
    let got = inner.run();
    if let Err(e) = expect(inner.kind.label(), &got, want) {
        bad.borrow_mut().get_or_insert(format!("{}: {}", what, e));
    }
    if inner.kind.oneshot(&[], &[]).is_some() {
        let m = inner.message();
        let (a, b) = inner.kind.oneshot(&[&m], &m).expect("is some");
        if let Err(e) = expect("hash_byte_chunks", &a, want).and(expect("hash", &b, want)) {
            bad.borrow_mut().get_or_insert(format!("{}: {}", what, e));
        }
    }
}

impl AsRef<[u8]> for Busy<'_> {
    fn as_ref(&self) -> &[u8] {
        aside(self.inner, self.want, self.bad, "hashed while a piece was looked at");
        self.data
    }
}

impl std::io::Read for Busy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        aside(self.inner, self.want, self.bad, "hashed while a reader was read");
        let n = core::cmp::min(buf.len(), self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Formats another value whenever it is written to.
struct BusyText<'a>(String, &'a [u8], String);

impl core::fmt::Write for BusyText<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.push_str(s);
        let mut a = [0; 20];
        a.copy_from_slice(&self.1[..20]);
        self.2 = format!("{} {:X} {:?}", hmac::Hash::<20>::from_byte_array(a), sha1::Hash::from_byte_array(a), ripemd160::Hash::from_byte_array(a));
        Ok(())
    }
}

/// Calls into the crate from inside calls into the crate: from iterators, pieces, readers, writers and
/// a user's hash function.
fn nested(src: &mut Src, cx: &mut Cx) -> Res {
    cx.label("nested calls");
    cx.nontrivial = true;
    // the outer hash is of a kind that pieces can be given to
    let alg = ALGS[src.n(5)];
    let which = src.n(3);
    let k = src.range(1, few(5, 2));
    let outer: Vec<Msg> = (0..k).map(|_| piece(src, alg.block())).collect();
    let kind = if src.one_in(2) { Kind::Plain(alg) } else { gen_kind(src) };
    let m = piece(src, kind.block());
    let inner = Script { kind, pieces: vec![m] };
    let want_inner = rf_want(&inner);
    let bad = std::cell::RefCell::new(None);
    let whole: Vec<u8> = outer.iter().flat_map(|p| p.iter().copied()).collect();
    cx.note(|| format!("{:?} of {} bytes with {} inside", alg, whole.len(), inner.kind.show()));
    let okind = if which == 1 { Kind::Hmac(alg, Vec::new()) } else { Kind::Plain(alg) };
    cx.label(okind.label());
    let want = okind.reference(&whole);
    let items = || {
        outer.iter().map(|p| {
            aside(&inner, &want_inner, &bad, "hashed by an iterator");
            Busy { data: p, inner: &inner, want: &want_inner, bad: &bad }
        })
    };
    macro_rules! go {
        ($m:ident, $n:literal) => {
            match which {
                0 => <$m::Engine as HashEngine>::hash_byte_chunks(items()).to_vec(),
                1 => <hmac::Engine<$m::Engine> as HashEngine>::hash_byte_chunks(items()).to_vec(),
                _ => {
                    let mut e = $m::Engine::default();
                    for mut p in items() {
                        copy_busy(&mut e, &mut p);
                    }
                    let h = $m::Hash::from_engine(e);
                    let mut a = [0u8; 20];
                    a[..core::cmp::min(20, $n)].copy_from_slice(&h.as_bytes()[..core::cmp::min(20, $n)]);
                    let mut t = BusyText(String::new(), &a, String::new());
                    use core::fmt::Write;
                    let _ = write!(t, "{} {:X}", h, h);
                    let hx = crate::src::hexs(&want);
                    let ok = hx == crate::src::hexs(h.as_bytes()) && t.0 != format!("{} {}", hx, hx.to_uppercase());
                    if ok {
                        return Err(format!("text with other values formatted meanwhile: {:?}", t.0));
                    }
                    let ax = crate::src::hexs(&a);
                    if !t.2.starts_with(&format!("{} {} ", ax, ax.to_uppercase())) {
                        return Err(format!("text formatted while writing: {:?}", t.2));
                    }
                    h.as_bytes().to_vec()
                }
            }
        };
    }
    let got = match alg {
        Alg::Sha1 => go!(sha1, 20),
        Alg::Sha256 => go!(sha256, 32),
        Alg::Sha384 => go!(sha384, 48),
        Alg::Sha512 => go!(sha512, 64),
        Alg::Sha512_256 => go!(sha512_256, 32),
        Alg::Ripemd160 => go!(ripemd160, 20),
    };
    if let Some(b) = bad.into_inner() {
        return Err(b);
    }
    expect("outer hash", &got, &want)
}

/// A value of its own: text, parsing, comparing.
fn value_ops(w: &[u8]) -> Res {
    let mut a = [0u8; 32];
    let n = core::cmp::min(32, w.len());
    a[..n].copy_from_slice(&w[..n]);
    let hx = crate::src::hexs(&a);
    let h = sha256::Hash::from_byte_array(a);
    let m = hmac::Hash::<32>::from_byte_array(a);
    let t = format!("{} {:x} {} {:X}", h, h, m, m);
    if t != format!("{} {} {} {}", hx, hx, hx, hx.to_uppercase()) {
        return Err(format!("text of {} is {}", hx, t));
    }
    let p: sha256::Hash = hx.parse().map_err(|e| format!("parsing {}: {}", hx, e))?;
    let q: hmac::Hash<32> = hx.parse().map_err(|e| format!("parsing {}: {}", hx, e))?;
    if p != h || q != m || p.cmp(&h) != core::cmp::Ordering::Equal || sha256::Hash::from_slice(&a) != Ok(h) {
        return Err(format!("{} parsed is {} or {}", hx, p, q));
    }
    let mut b = a;
    b[n - 1] ^= 0x10;
    if !chf::cmp::fixed_time_eq(&a, &a) || chf::cmp::fixed_time_eq(&a, &b) {
        return Err(format!("fixed_time_eq on {}", hx));
    }
    Ok(())
}

/// Feeds what is read, by whatever means this build has.
fn copy_busy<E: HashEngine>(e: &mut E, r: &mut Busy) {
    let mut buf = [0; 300];
    loop {
        let n = std::io::Read::read(r, &mut buf).expect("no errors");
        if n == 0 {
            return;
        }
        e.input(&buf[..n]);
    }
}

pub fn c19(src: &mut Src, cx: &mut Cx) -> Res {
    thread_types()?;
    let threads = src.one_in(3);
    if !threads && src.one_in(5) {
        return same_memory(src, cx);
    }
    if !threads && src.one_in(8) {
        return nested(src, cx);
    }
    let n = src.range(2, few(8, 2));
    if !threads {
        cx.label("interleaved");
        let mut live = Vec::new();
        for _ in 0..n {
            let k = gen_kind(src);
            cx.label(k.label());
            cx.note(|| k.show());
            live.push(Live::new(k)?);
        }
        let steps = src.range(2, few(60, 5));
        let mut last = usize::MAX;
        let mut switches = 0;
        for _ in 0..steps {
            if live.is_empty() {
                break;
            }
            let i = src.n(live.len() - 1);
            let block = live[i].kind.block();
            match src.n(11) {
                0..=5 => {
                    let m = piece(src, block);
                    cx.note(|| format!("#{} input {}", i, show(&m)));
                    live[i].feed(&m)?;
                    if last != usize::MAX && last != i {
                        switches += 1;
                    }
                    last = i;
                }
                6 => {
                    cx.note(|| format!("#{} clone finalised", i));
                    live[i].fork().check()?;
                }
                7 => {
                    // replaced by its clone, the original is dropped
                    let l = live[i].fork();
                    live[i] = l;
                    // and over one that has seen something else
                    let mut other = Live::new(live[i].kind.sibling(src))?;
                    let m = piece(src, block);
                    other.feed(&m)?;
                    other.assign(&live[i]);
                    live[i] = other;
                }
                8 => {
                    if live[i].log.len() % live[i].kind.grain() == 0 {
                        cx.note(|| format!("#{} restored from its midstate", i));
                        live[i].kind.enter();
                        let r = live[i].eng.resume();
                        live[i].eng = r;
                    }
                }
                9 => {
                    // something unrelated, abandoned in the middle
                    let k = gen_kind(src);
                    let mut l = Live::new(k)?;
                    let m = piece(src, 64);
                    l.feed(&m)?;
                }
                10 => {
                    // an unrelated one-shot hash, twice
                    let k = gen_kind(src);
                    let m = piece(src, 64);
                    let s = Script { kind: k, pieces: vec![m] };
                    let a = s.run();
                    let b = s.run();
                    expect("same call twice", &a, &b)?;
                    expect(s.kind.label(), &a, &s.kind.reference(&s.message()))?;
                }
                _ => {
                    if live.len() > 1 {
                        cx.note(|| format!("#{} finalised", i));
                        live.swap_remove(i).check()?;
                        last = usize::MAX;
                    }
                }
            }
        }
        cx.nontrivial = switches >= 2;
        for l in live {
            l.check()?;
        }
        return Ok(());
    }
    cx.label("threads");
    cx.nontrivial = true;
    let mut scripts = Vec::new();
    for _ in 0..n {
        let kind = gen_kind(src);
        let k = src.range(1, few(6, 2));
        let mut ps = Vec::new();
        for _ in 0..k {
            ps.push(piece(src, kind.block()));
        }
        cx.note(|| format!("thread: {} fed {} pieces", kind.show(), ps.len()));
        scripts.push(Script { kind, pieces: ps });
    }
    let reps = src.range(1, few(20, 1));
    // half of the time all threads do the same
    if src.one_in(2) {
        let s = scripts[0].clone();
        scripts.iter_mut().for_each(|x| *x = s.clone());
        cx.label("threads, same work");
    }
    let wants: Vec<Vec<u8>> = scripts.iter().map(|s| s.kind.reference(&s.message())).collect();
    let barrier = std::sync::Barrier::new(n);
    let results: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .zip(&wants)
            .map(|(s, w)| {
                let barrier = &barrier;
                sc.spawn(move || -> Res {
                    barrier.wait();
                    for _ in 0..reps {
                        let got = catch(|| s.run()).map_err(|e| format!("panic: {}", e))?;
                        expect(s.kind.label(), &got, w)
                            .map_err(|e| format!("with {} threads: {}", "several", e))?;
                        value_ops(w).map_err(|e| format!("with several threads: {}", e))?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into())))
            .collect()
    });
    for r in results {
        r?;
    }
    // an engine moved to another thread in mid-message
    let s = scripts.swap_remove(0);
    let mut e = s.kind.make();
    let half = s.pieces.len() / 2;
    for p in &s.pieces[..half] {
        e.input(p);
    }
    let s2 = s.clone();
    let got = std::thread::spawn(move || {
        let mut e = e;
        for p in &s2.pieces[half..] {
            e.input(p);
        }
        s2.kind.enter();
        e.fin()
    })
    .join()
    .map_err(|_| "panic after a move to another thread".to_string())?;
    expect("moved to another thread", &got, &rf_want(&s))
}

fn rf_want(s: &Script) -> Vec<u8> { s.kind.reference(&s.message()) }

/// For a process of its own: the first things done with the crate at all are done by several
/// threads at once. All threads do the same, or each starts elsewhere in the list.
pub fn first_use(seed: u64) -> Res {
    let mut src = Src::random(vec![], seed);
    let n = if cfg!(miri) { 2 } else { src.range(2, 8) };
    let k = if cfg!(miri) { 17 } else { src.range(1, 4) };
    let mut scripts = Vec::new();
    for i in 0..k {
        let kind = if cfg!(miri) { crate::engines::kind_of(&mut src, i) } else { gen_kind(&mut src) };
        let len = src.n(if cfg!(miri) { 20 } else { 300 });
        let msg = gen_msg_len(&mut src, len);
        scripts.push(Script { kind, pieces: vec![msg] });
    }
    let shift = src.n(1);
    // nothing here touches the crate
    let wants: Vec<Vec<u8>> = scripts.iter().map(rf_want).collect();
    let ready = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (scripts, wants, ready) = (&scripts, &wants, &ready);
                sc.spawn(move || -> Res {
                    ready.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    while ready.load(std::sync::atomic::Ordering::Relaxed) < n {
                        if cfg!(miri) {
                            std::thread::yield_now();
                        } else {
                            core::hint::spin_loop();
                        }
                    }
                    for j in 0..scripts.len() {
                        let j = (j + t * shift) % scripts.len();
                        let got = catch(|| scripts[j].run()).map_err(|e| format!("panic: {}", e))?;
                        expect(&scripts[j].kind.show(), &got, &wants[j])
                            .map_err(|e| format!("first use by {} threads at once: {}", n, e))?;
                        if !cfg!(miri) || j == 0 {
                            value_ops(&wants[j])?;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap_or_else(|_| Err("thread panicked".into()))?;
        }
        Ok(())
    })
}
