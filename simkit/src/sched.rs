//! A scheduler for simulated client tasks. Each task is a real OS thread, but exactly one
//! runs at a time; control changes hands only where the seeded schedule says so: at task
//! boundaries, where a task would block, and at allocations made inside library code (the
//! global allocator is the preemption seam, so a task can be stopped in the middle of a
//! library call without any hook in the library).
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub struct SimAlloc;

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        System.realloc(p, l, n)
    }
}

const MAXT: usize = 16;
const MAIN: usize = MAXT;
struct Shared {
    baton: [AtomicU32; MAXT + 1],
    alive: [AtomicBool; MAXT],
    n: AtomicUsize,
    rng: UnsafeCell<Option<Rng>>,
    countdown: AtomicU64,
    mean_gap: AtomicU64,
    switches: AtomicU64,
    allocs: AtomicU64,
    blocked_in_row: AtomicU64,
    deadlock: AtomicBool,
    trace: AtomicU64,
    enabled: AtomicBool,
}
unsafe impl Sync for Shared {}
static S: Shared = Shared {
    baton: [const { AtomicU32::new(0) }; MAXT + 1],
    alive: [const { AtomicBool::new(false) }; MAXT],
    n: AtomicUsize::new(0),
    rng: UnsafeCell::new(None),
    countdown: AtomicU64::new(u64::MAX),
    mean_gap: AtomicU64::new(0),
    switches: AtomicU64::new(0),
    allocs: AtomicU64::new(0),
    blocked_in_row: AtomicU64::new(0),
    deadlock: AtomicBool::new(false),
    trace: AtomicU64::new(0),
    enabled: AtomicBool::new(false),
};

pub fn in_task() -> bool {
    S.enabled.load(SeqCst) && TASK.with(|t| t.get()) < MAXT && !BUSY.with(|b| b.get())
}

fn wait_for(slot: usize) {
    while S.baton[slot].load(SeqCst) == 0 {
        unsafe {
            crate::seams::raw_syscall(libc::SYS_futex, S.baton[slot].as_ptr() as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
        }
    }
    S.baton[slot].store(0, SeqCst);
}
fn give(slot: usize) {
    S.baton[slot].store(1, SeqCst);
    unsafe {
        crate::seams::raw_syscall(libc::SYS_futex, S.baton[slot].as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

fn rng() -> &'static mut Rng {
    unsafe { (*S.rng.get()).as_mut().unwrap() }
}

fn next_gap() -> u64 {
    let m = S.mean_gap.load(SeqCst);
    if m == 0 {
        return u64::MAX;
    }
    // Mixture: mostly around the mean, sometimes bursts of very close preemptions.
    let r = rng();
    if r.chance(0.2) {
        1 + r.below(4)
    } else {
        1 + r.below(2 * m)
    }
}

fn runnable_other(me: usize) -> Option<usize> {
    let n = S.n.load(SeqCst);
    let mut cand = [0usize; MAXT];
    let mut k = 0;
    for i in 0..n {
        if i != me && S.alive[i].load(SeqCst) {
            cand[k] = i;
            k += 1;
        }
    }
    if k == 0 {
        None
    } else {
        Some(cand[rng().usize(k)])
    }
}

fn switch_to(me: usize, to: usize) {
    let sw = S.switches.fetch_add(1, SeqCst);
    let a = S.allocs.load(SeqCst);
    S.trace.store(crate::rng::key(&[S.trace.load(SeqCst), sw, a, me as u64, to as u64]), SeqCst);
    give(to);
    if me < MAXT {
        wait_for(me);
    }
}

#[inline]
fn alloc_point() {
    if !S.enabled.load(SeqCst) {
        return;
    }
    let me = match TASK.try_with(|t| t.get()) {
        Ok(m) if m < MAXT => m,
        _ => return,
    };
    if BUSY.with(|b| b.get()) {
        return;
    }
    S.allocs.fetch_add(1, SeqCst);
    S.blocked_in_row.store(0, SeqCst);
    let c = S.countdown.load(SeqCst);
    if c == u64::MAX {
        return;
    }
    if c > 1 {
        S.countdown.store(c - 1, SeqCst);
        return;
    }
    BUSY.with(|b| b.set(true));
    S.countdown.store(next_gap(), SeqCst);
    if let Some(to) = runnable_other(me) {
        switch_to(me, to);
    }
    BUSY.with(|b| b.set(false));
}

/// Called where a task would block (futex wait, yield).
pub fn block_point() {
    let me = TASK.with(|t| t.get());
    BUSY.with(|b| b.set(true));
    let k = S.blocked_in_row.fetch_add(1, SeqCst);
    match runnable_other(me) {
        Some(to) if k < 100_000 => switch_to(me, to),
        _ => {
            S.deadlock.store(true, SeqCst);
            // Nobody can run: leave the process, the parent reports it.
            unsafe { libc::_exit(97) }
        }
    }
    BUSY.with(|b| b.set(false));
}

/// Keeps scheduler-irrelevant harness work out of the preemption count.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SchedStats {
    pub switches: u64,
    pub allocs: u64,
    pub trace: u64,
}

/// Runs the jobs to completion under a seeded schedule; `mean_gap` is the mean number of
/// allocations between preemptions (0: tasks are only switched when one ends or blocks).
/// Results come back in job order; a panic is returned as Err(message).
pub fn run_tasks<'a, T: Send + 'a>(seed: u64, mean_gap: u64, jobs: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> (Vec<Result<T, String>>, SchedStats) {
    let n = jobs.len();
    assert!(n <= MAXT);
    let mut out: Vec<Option<Result<T, String>>> = (0..n).map(|_| None).collect();
    unsafe {
        *S.rng.get() = Some(Rng::new(seed));
    }
    S.n.store(n, SeqCst);
    S.mean_gap.store(mean_gap, SeqCst);
    S.switches.store(0, SeqCst);
    S.allocs.store(0, SeqCst);
    S.trace.store(seed, SeqCst);
    S.blocked_in_row.store(0, SeqCst);
    let gap = next_gap();
    S.countdown.store(gap, SeqCst);
    std::thread::scope(|scope| {
        for (i, (job, slot)) in jobs.into_iter().zip(out.iter_mut()).enumerate() {
            S.alive[i].store(true, SeqCst);
            scope.spawn(move || {
                give(MAIN); // ready
                wait_for(i);
                TASK.with(|t| t.set(i));
                let r = crate::ctx::catch(job);
                TASK.with(|t| t.set(usize::MAX));
                *slot = Some(r);
                S.alive[i].store(false, SeqCst);
                match runnable_other(i) {
                    Some(to) => {
                        let sw = S.switches.load(SeqCst);
                        S.trace.store(crate::rng::key(&[S.trace.load(SeqCst), sw, 0xE7D, i as u64, to as u64]), SeqCst);
                        give(to)
                    }
                    None => give(MAIN),
                }
            });
            wait_for(MAIN);
        }
        if n > 0 {
            S.enabled.store(true, SeqCst);
            let first = rng().usize(n);
            give(first);
            wait_for(MAIN);
            S.enabled.store(false, SeqCst);
        }
    });
    let st = SchedStats { switches: S.switches.load(SeqCst), allocs: S.allocs.load(SeqCst), trace: S.trace.load(SeqCst) };
    (out.into_iter().map(|o| o.unwrap()).collect(), st)
}
