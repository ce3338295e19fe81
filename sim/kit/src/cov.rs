//! Basic-block callbacks of the instrumented code under test: deterministic step counting (hang
//! detection), edge coverage, and the preemption points of the thread scheduler.
//!
//! All counters are plain statics: while code under test runs, at most one thread runs (either the run
//! is single-threaded or the scheduler passes a token), so updates never race.
use crate::sched;

static mut NEDGES: u32 = 0;
static mut MAP: *mut u8 = std::ptr::null_mut();
static mut STEPS: u64 = 0;
/// Next step number at which the slow path must run.
static mut NEXT: u64 = u64::MAX;
static mut BUDGET: u64 = u64::MAX;
static mut SWITCH_AT: u64 = u64::MAX;
static mut LAST_EDGE: u32 = 0;
/// Blocks this run has executed, and (when not 0) on average how many new ones per preemption.
static mut SEEN: Vec<u8> = Vec::new();
static mut FRESH_EVERY: u64 = 0;
static mut FRESH_SEED: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NEDGES += 1;
            *p = NEDGES;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    STEPS += 1;
    if STEPS >= NEXT {
        LAST_EDGE = id;
        slow();
    }
    if let Some(b) = SEEN.get_mut(id as usize) {
        if *b == 0 {
            *b = 1;
            fresh(id);
        }
    }
}
/// A block this run has not executed before.
#[cold]
#[inline(never)]
unsafe fn fresh(id: u32) {
    // the map is shared by all workers: write only once, or its cache lines bounce
    if !MAP.is_null() && *MAP.add(id as usize) == 0 {
        *MAP.add(id as usize) = 1;
    }
    if FRESH_EVERY != 0 {
        FRESH_SEED = crate::rng::mix64(FRESH_SEED);
        if FRESH_SEED % FRESH_EVERY == 0 {
            sched::on_fresh(id, (FRESH_SEED >> 32) as usize);
        }
    }
}
/// From now on, code that runs for the first time is preempted at about one block in `every`.
pub fn preempt_fresh(every: u64, seed: u64) {
    unsafe {
        FRESH_EVERY = every;
        FRESH_SEED = seed;
    }
}
#[cold]
#[inline(never)]
unsafe fn slow() {
    if STEPS >= BUDGET {
        crate::runner::abort_run("hang", &format!("no end after {} basic blocks of the code under test", STEPS));
    }
    if STEPS >= SWITCH_AT {
        sched::on_point(LAST_EDGE);
    }
    NEXT = std::cmp::min(BUDGET, SWITCH_AT);
}
pub fn edges() -> u32 {
    unsafe { NEDGES }
}
/// Allocates the shared coverage map; call once before forking.
pub fn init_map() {
    unsafe {
        let n = NEDGES as usize + 1;
        let p = libc::mmap(
            std::ptr::null_mut(),
            n.max(1),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        MAP = p as *mut u8;
    }
}
pub fn edges_hit() -> u64 {
    unsafe {
        if MAP.is_null() {
            return 0;
        }
        (0..=NEDGES as usize).filter(|i| *MAP.add(*i) != 0).count() as u64
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
/// Starts a run: zero steps, the given budget.
pub fn start(budget: u64) {
    unsafe {
        STEPS = 0;
        FRESH_EVERY = 0;
        SEEN = vec![0; NEDGES as usize + 1];
        BUDGET = budget;
        SWITCH_AT = u64::MAX;
        NEXT = budget;
    }
}
pub fn switch_at(step: u64) {
    unsafe {
        SWITCH_AT = step;
        NEXT = std::cmp::min(BUDGET, SWITCH_AT);
    }
}
