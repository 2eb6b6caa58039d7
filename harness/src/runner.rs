//! Runs the cases of a property: sweep cases first (fixed prefix of choices), then random ones.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};

use crate::shrink;
use crate::src::{mix, Src};

pub type Res = Result<(), String>;

/// What a case reports besides its verdict.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    /// Genuine, recorded defects this case ran into (by signature).
    pub known: Vec<String>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Res;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    /// Prefixes that enumerate a part of the space.
    pub sweep: fn(thorough: bool) -> Vec<Vec<u64>>,
    pub rule: &'static str,
}

pub fn no_sweep(_: bool) -> Vec<Vec<u64>> { Vec::new() }

// ---- panics ----------------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: Cell<usize> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if CATCHING.with(|c| c.get()) == 0 {
            eprintln!("harness: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// What `f` returns, or the message of its panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    CATCHING.with(|c| c.set(c.get() - 1));
    r
}

// ---- where we are, for a crash ---------------------------------------------------------------

static MIRROR: AtomicPtr<u64> = AtomicPtr::new(core::ptr::null_mut());
static MIRROR_CAP: AtomicUsize = AtomicUsize::new(0);
/// Print every choice (for cases that do not return).
pub static TRACE_DRAWS: AtomicBool = AtomicBool::new(false);
static MIRI_TRACE: AtomicBool = AtomicBool::new(false);

#[cfg(not(miri))]
pub fn map_mirror(path: &str) {
    use std::os::fd::AsRawFd;
    const WORDS: usize = 1 << 16;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .expect("progress file");
    f.set_len((WORDS * 8) as u64).expect("progress file");
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            WORDS * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        MIRROR.store(p as *mut u64, Ordering::SeqCst);
    }
    MIRROR_CAP.store(WORDS - 1, Ordering::SeqCst);
}

#[cfg(miri)]
pub fn map_mirror(_path: &str) { MIRI_TRACE.store(true, Ordering::SeqCst); }

/// Called for every choice made by the main thread.
#[inline]
pub fn mirror(i: usize, v: u64) {
    if TRACE_DRAWS.load(Ordering::Relaxed) {
        eprintln!("@draw {}", v);
    }
    let p = MIRROR.load(Ordering::Relaxed);
    if !p.is_null() && i < MIRROR_CAP.load(Ordering::Relaxed) {
        unsafe {
            core::ptr::write_volatile(p.add(1 + i), v);
            core::ptr::write_volatile(p, i as u64 + 1);
        }
    }
}

fn mirror_start() {
    let p = MIRROR.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { core::ptr::write_volatile(p, 0) }
    }
}

pub fn read_mirror(path: &str) -> Vec<u64> {
    let d = std::fs::read(path).unwrap_or_default();
    let w: Vec<u64> =
        d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let n = w.first().copied().unwrap_or(0) as usize;
    w.get(1..1 + n).map(|s| s.to_vec()).unwrap_or_default()
}

// ---- one case --------------------------------------------------------------------------------

pub struct Outcome {
    pub choices: Vec<u64>,
    pub verdict: Res,
    pub cx: Cx,
}

pub fn run_case(case: CaseFn, mut src: Src, verbose: bool) -> Outcome {
    let mut cx = Cx { verbose, ..Cx::default() };
    mirror_start();
    let r = catch(|| case(&mut src, &mut cx));
    let verdict = match r {
        Ok(v) => v,
        Err(p) => Err(format!("panic: {}", p)),
    };
    Outcome { choices: src.taken, verdict, cx }
}

pub struct Violation {
    pub choices: Vec<u64>,
    pub original_len: usize,
    pub message: String,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub sweep: u64,
    pub nontrivial: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(Vec<u64>, Vec<String>)>,
    pub known: BTreeMap<String, (u64, Vec<u64>)>,
    pub violation: Option<Violation>,
}

fn key(choices: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in choices {
        h = mix(h, *c);
    }
    h
}

pub struct RunArgs {
    pub seed: u64,
    pub config: String,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub thorough: bool,
    pub sweep_max: usize,
    /// Run this one case only.
    pub only: Option<u64>,
    /// The sweep, computed elsewhere.
    pub prefixes: Option<Vec<Vec<u64>>>,
}

pub fn case_src(p: &Prop, a: &RunArgs, sweep: &[Vec<u64>], idx: u64) -> Src {
    let base = a.config.bytes().chain(p.id.bytes()).fold(a.seed, |h, b| mix(h, b as u64));
    let prefix = sweep.get(idx as usize).cloned().unwrap_or_default();
    Src::random(prefix, mix(base, idx))
}

pub fn sweep_of(p: &Prop, a: &RunArgs) -> Vec<Vec<u64>> {
    if let Some(v) = &a.prefixes {
        return v.clone();
    }
    let mut sweep = (p.sweep)(a.thorough);
    if sweep.len() > a.sweep_max {
        // keep an even selection, the choice of which depends on the seed
        let n = sweep.len() as u128;
        let k = a.sweep_max as u128;
        let off = (mix(a.seed, 77) % (n / k.max(1)).max(1) as u64) as u128;
        let sel: Vec<Vec<u64>> = (0..k)
            .map(|i| sweep[core::cmp::min((i * n / k + off) as usize, n as usize - 1)].clone())
            .collect();
        sweep = sel;
        if crate::props::is_battery(p) {
            sweep.extend(crate::props::extra::battery_must());
        }
    }
    sweep
}

pub fn run(p: &Prop, a: &RunArgs) -> Report {
    let mut rep = Report::default();
    let sweep = sweep_of(p, a);
    let total = sweep.len() as u64 + a.cases;
    let mut idx = a.shard;
    if let Some(i) = a.only {
        let o = run_case(p.case, case_src(p, a, &sweep, i), false);
        rep.evaluations = 1;
        if let Err(message) = o.verdict {
            rep.violation = Some(Violation {
                original_len: o.choices.len(),
                choices: o.choices,
                message,
                notes: o.cx.notes,
            });
        }
        return rep;
    }
    let sample_every = core::cmp::max(1, total / (a.shards * 6).max(1));
    let mut since = sample_every;
    while idx < total {
        if MIRI_TRACE.load(Ordering::Relaxed) {
            eprintln!("@case {}", idx);
        }
        let o = run_case(p.case, case_src(p, a, &sweep, idx), false);
        rep.evaluations += 1;
        if (idx as usize) < sweep.len() {
            rep.sweep += 1;
        }
        for (l, n) in &o.cx.labels {
            *rep.labels.entry(l).or_insert(0) += n;
        }
        for k in &o.cx.known {
            let e = rep.known.entry(k.clone()).or_insert((0, o.choices.clone()));
            e.0 += 1;
        }
        if o.cx.nontrivial {
            rep.nontrivial += 1;
            rep.keys.insert(key(&o.choices));
            since += 1;
            if since >= sample_every && rep.samples.len() < 6 && !cfg!(miri) {
                since = 0;
                let again = run_case(p.case, Src::replay(o.choices.clone()), true);
                rep.samples.push((clip(&again.choices), again.cx.notes));
            }
        }
        if let Err(m) = o.verdict {
            let original_len = o.choices.len();
            let (choices, message) = if cfg!(miri) {
                (o.choices, m)
            } else {
                let mut last = m;
                let c = shrink::shrink(o.choices, 4000, &mut |c: &[u64]| {
                    let o = run_case(p.case, Src::replay(c.to_vec()), false);
                    match o.verdict {
                        Ok(()) => None,
                        Err(m) => {
                            last = m;
                            Some(o.choices)
                        }
                    }
                });
                (c, last)
            };
            let again = run_case(p.case, Src::replay(choices.clone()), true);
            let message = again.verdict.err().unwrap_or(message);
            rep.violation = Some(Violation { choices, original_len, message, notes: again.cx.notes });
            break;
        }
        idx += a.shards;
    }
    rep
}

fn clip(c: &[u64]) -> Vec<u64> { c.iter().take(40).copied().collect() }

// ---- JSON out (no dependency in the smallest configuration) -----------------------------------

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u64]) -> String {
    // as strings: JSON readers may lose 64-bit integers
    let v: Vec<String> = v.iter().map(|x| format!("\"{}\"", x)).collect();
    format!("[{}]", v.join(","))
}

fn strs(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|x| js(x)).collect();
    format!("[{}]", v.join(","))
}

impl Report {
    pub fn write(&self, out: &str) {
        let mut s = String::from("{");
        s.push_str(&format!(
            "\"evaluations\":{},\"sweep\":{},\"nontrivial\":{},\"distinct\":{}",
            self.evaluations,
            self.sweep,
            self.nontrivial,
            self.keys.len()
        ));
        let l: Vec<String> = self.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        s.push_str(&format!(",\"labels\":{{{}}}", l.join(",")));
        let l: Vec<String> = self
            .samples
            .iter()
            .map(|(c, n)| format!("{{\"choices\":{},\"case\":{}}}", nums(c), strs(n)))
            .collect();
        s.push_str(&format!(",\"samples\":[{}]", l.join(",")));
        let l: Vec<String> = self
            .known
            .iter()
            .map(|(k, (n, c))| {
                format!("{{\"what\":{},\"count\":{},\"choices\":{}}}", js(k), n, nums(c))
            })
            .collect();
        s.push_str(&format!(",\"known\":[{}]", l.join(",")));
        match &self.violation {
            None => s.push_str(",\"violation\":null"),
            Some(v) => s.push_str(&format!(
                ",\"violation\":{{\"choices\":{},\"original_len\":{},\"message\":{},\"notes\":{}}}",
                nums(&v.choices),
                v.original_len,
                js(&v.message),
                strs(&v.notes)
            )),
        }
        s.push('}');
        if out == "-" {
            println!("@report {}", s);
            return;
        }
        let mut f = std::fs::File::create(out).expect("report file");
        f.write_all(s.as_bytes()).expect("report file");
        let mut k: Vec<u64> = self.keys.iter().copied().collect();
        k.sort_unstable();
        let b: Vec<u8> = k.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{}.keys", out), b).expect("keys file");
    }
}
