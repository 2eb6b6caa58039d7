//! Executes a call one instruction at a time (x86 trap flag) and records where it went.

use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Once;

static HASH: AtomicU64 = AtomicU64::new(0);
static LEN: AtomicU64 = AtomicU64::new(0);
static ENTRY: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Trace {
    pub len: u64,
    pub hash: u64,
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        // relative to the harness's own code: a replay is laid out elsewhere
        let x = rip.wrapping_sub(ENTRY.load(Ordering::Relaxed) as u64);
        let h = HASH.load(Ordering::Relaxed);
        HASH.store((h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29), Ordering::Relaxed);
        LEN.store(LEN.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = on_trap;
        sa.sa_sigaction = f as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut()), 0);
        ENTRY.store(traced as *const () as usize, Ordering::SeqCst);
    });
}

#[inline(never)]
fn traced(a: &[u8], b: &[u8]) -> bool {
    let (a, b) = (core::hint::black_box(a), core::hint::black_box(b));
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = core::hint::black_box(chf::cmp::fixed_time_eq(a, b));
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    r
}

/// The trace of `fixed_time_eq(a, b)`.
pub fn run(a: &[u8], b: &[u8]) -> Result<Trace, String> {
    install();
    // resolve whatever is resolved on first use, and warm up run-time dispatch
    core::hint::black_box(chf::cmp::fixed_time_eq(a, b));
    let mut last = (Trace { len: 0, hash: 0 }, Trace { len: 0, hash: 0 });
    for _ in 0..4 {
        last = (once(a, b)?, once(a, b)?);
        if last.0 == last.1 {
            return Ok(last.0);
        }
    }
    Err(format!("two traces of one call differ: {:?} {:?}", last.0, last.1))
}

fn once(a: &[u8], b: &[u8]) -> Result<Trace, String> {
    HASH.store(0, Ordering::SeqCst);
    LEN.store(0, Ordering::SeqCst);
    // what it returns is judged elsewhere
    traced(a, b);
    let t = Trace { len: LEN.load(Ordering::SeqCst), hash: HASH.load(Ordering::SeqCst) };
    Ok(t)
}
