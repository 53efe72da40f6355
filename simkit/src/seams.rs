//! Interposed C symbols. The harness executable defines `clock_gettime`, `getrandom`,
//! `syscall` and `sched_yield`; the static linker binds std's references to them, so the
//! code under test reads the simulated clock, draws its hash seeds from the run's seed and
//! blocks in the simulated scheduler, without any change to /repo.
use libc::{c_int, c_long, c_void};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

pub static SIM: AtomicBool = AtomicBool::new(false);
static NOW_S: AtomicI64 = AtomicI64::new(0);
static NOW_NS: AtomicI64 = AtomicI64::new(0);
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CLIENT_SKEW: Cell<i64> = const { Cell::new(0) };
    static TICK: Cell<i64> = const { Cell::new(0) };
    static READS: Cell<i64> = const { Cell::new(0) };
}

/// Sets the simulated wall clock.
pub fn set_now(secs: i64, nanos: i64) {
    NOW_S.store(secs, SeqCst);
    NOW_NS.store(nanos, SeqCst);
}
/// Offset of the calling client's clock from true time.
pub fn set_skew(secs: i64) {
    CLIENT_SKEW.with(|c| c.set(secs));
}
/// Makes the calling client's clock advance by this much with every reading (a slow client), counted from now.
pub fn set_tick(secs: i64) {
    TICK.with(|c| c.set(secs));
    READS.with(|c| c.set(0));
}
/// Readings of the calling client's clock since `set_tick`.
pub fn reads() -> i64 {
    READS.with(|c| c.get())
}
pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, SeqCst);
}
pub fn enter_sim() {
    SIM.store(true, SeqCst);
}

#[inline(always)]
pub unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if SIM.load(SeqCst) && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_MONOTONIC) {
        CLOCK_READS.fetch_add(1, SeqCst);
        let skew = CLIENT_SKEW.with(|c| c.get());
        let reads = READS.with(|c| c.replace(c.get() + 1));
        (*ts).tv_sec = NOW_S.load(SeqCst) + skew + reads * TICK.with(|c| c.get());
        (*ts).tv_nsec = NOW_NS.load(SeqCst);
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: libc::c_uint) -> isize {
    if SIM.load(SeqCst) {
        ENTROPY_READS.fetch_add(1, SeqCst);
        let s = HASH_SEED.load(SeqCst);
        let mut r = crate::rng::Rng::new(s);
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for b in out.iter_mut() {
            *b = r.u64() as u8;
        }
        HASH_SEED.store(crate::rng::mix(s), SeqCst);
        return len as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as isize
}

/// std's futex calls come through here; a wait by a simulated task becomes a scheduler
/// decision (run another task, then report a spurious wake-up).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && crate::sched::in_task() {
        let op = (b as c_int) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let word = a as *const std::sync::atomic::AtomicU32;
            if (*word).load(SeqCst) == c as u32 {
                crate::sched::block_point();
            }
            return 0;
        }
    }
    if n == libc::SYS_getrandom && SIM.load(SeqCst) {
        return getrandom(a as *mut c_void, b as usize, c as libc::c_uint) as c_long;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::sched::in_task() {
        crate::sched::block_point();
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
