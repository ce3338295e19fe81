//! Seeded scheduler for real threads: exactly one managed thread runs at a time; it is preempted at
//! the basic-block callbacks named by the plan, or when it blocks, yields or sleeps (interposed calls).
use crate::cov;
use crate::rng::mix64;
use crate::seams::raw_syscall;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// (blocks to run before the switch, thread to switch to)
    pub switches: Vec<(u64, usize)>,
    /// (thread, from step, number of steps) during which the thread does not run
    pub stalls: Vec<(usize, u64, u64)>,
    /// round-robin period once the switches are used up
    pub fair: u64,
    /// preempt at about one in so many blocks that run for the first time (0: not), and a seed
    pub fresh: (u64, u64),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Blocked(usize, bool),
    Done,
}
struct State {
    st: Vec<St>,
    timed_out: Vec<bool>,
    cur: usize,
    plan: Plan,
    next: usize,
    sig: u64,
    switches: u64,
    blocks: u64,
    stalls_hit: u64,
    stalled: Vec<Option<(u64, u64)>>,
}
const MAXT: usize = 16;
static SEM: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static DONE: AtomicU32 = AtomicU32::new(0);
static mut S: Option<State> = None;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn me() -> Option<usize> {
    let m = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if m == usize::MAX {
        None
    } else {
        Some(m)
    }
}
fn fwait(a: &AtomicU32) {
    loop {
        if a.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe {
            raw_syscall(
                libc::SYS_futex,
                [a as *const _ as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0],
            );
        }
    }
}
fn fpost(a: &AtomicU32) {
    a.store(1, SeqCst);
    unsafe {
        raw_syscall(libc::SYS_futex, [a as *const _ as usize, libc::FUTEX_WAKE as usize, 64, 0, 0, 0]);
    }
}
#[allow(static_mut_refs)]
fn s() -> &'static mut State {
    unsafe { S.as_mut().unwrap() }
}
pub struct Report {
    pub signature: u64,
    pub switches: u64,
    pub blocks: u64,
    pub stalls_hit: u64,
}
/// Runs the closures as threads under the plan; returns when all are done.
pub fn run(plan: Plan, threads: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = threads.len();
    assert!(n <= MAXT && n > 0);
    let mut stalled = vec![None; n];
    for &(t, a, l) in &plan.stalls {
        if t < n {
            stalled[t] = Some((a, a.saturating_add(l)));
        }
    }
    unsafe {
        S = Some(State {
            st: vec![St::Ready; n],
            timed_out: vec![false; n],
            cur: 0,
            plan,
            next: 0,
            sig: 0,
            switches: 0,
            blocks: 0,
            stalls_hit: 0,
            stalled,
        });
    }
    for a in &SEM {
        a.store(0, SeqCst);
    }
    DONE.store(0, SeqCst);
    let hs: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    fwait(&SEM[i]);
                    ME.with(|m| m.set(i));
                    f();
                    finish(i);
                    ME.with(|m| m.set(usize::MAX));
                })
                .expect("spawn")
        })
        .collect();
    let fresh = s().plan.fresh;
    cov::preempt_fresh(fresh.0, fresh.1);
    arm();
    let first = pick(0, false).unwrap_or(0);
    s().cur = first;
    fpost(&SEM[first]);
    fwait(&DONE);
    cov::switch_at(u64::MAX);
    cov::preempt_fresh(0, 0);
    for h in hs {
        let _ = h.join();
    }
    let st = s();
    Report { signature: st.sig, switches: st.switches, blocks: st.blocks, stalls_hit: st.stalls_hit }
}
/// Programs the next switch point.
fn arm() {
    let st = s();
    let d = match st.plan.switches.get(st.next) {
        Some((d, _)) => (*d).max(1),
        None => st.plan.fair.max(100),
    };
    cov::switch_at(cov::steps().saturating_add(d));
}
fn is_stalled(t: usize) -> bool {
    match s().stalled[t] {
        Some((a, b)) => {
            let now = cov::steps();
            now >= a && now < b
        }
        None => false,
    }
}
/// A ready thread at or after `from`, round robin. A stalled thread runs only when nothing else can.
fn pick(from: usize, count: bool) -> Option<usize> {
    let n = s().st.len();
    for k in 0..n {
        let t = (from + k) % n;
        if s().st[t] == St::Ready {
            if is_stalled(t) {
                if count {
                    s().stalls_hit += 1;
                }
                continue;
            }
            return Some(t);
        }
    }
    for k in 0..n {
        let t = (from + k) % n;
        if s().st[t] == St::Ready {
            s().stalled[t] = None;
            return Some(t);
        }
    }
    None
}
fn transfer(me: usize, to: usize, edge: u32) {
    let st = s();
    st.sig = mix64(st.sig ^ ((edge as u64) << 16) ^ ((me as u64) << 8) ^ to as u64);
    if to == me {
        return;
    }
    st.switches += 1;
    st.cur = to;
    fpost(&SEM[to]);
    fwait(&SEM[me]);
}
/// Called from the basic-block callback at a programmed point.
pub fn on_point(edge: u32) {
    let me = match me() {
        Some(m) => m,
        None => {
            // not a managed thread: never preempt it here
            cov::switch_at(cov::steps().saturating_add(1000));
            return;
        }
    };
    let st = s();
    let want = match st.plan.switches.get(st.next) {
        Some((_, t)) => {
            st.next += 1;
            *t % st.st.len()
        }
        None => (me + 1) % st.st.len(),
    };
    let to = pick(want, true).unwrap_or(me);
    arm();
    transfer(me, to, edge);
}
/// Called at a block that runs for the first time, when the plan asks for it.
pub fn on_fresh(edge: u32, r: usize) {
    if let Some(me) = me() {
        let n = s().st.len();
        if n > 1 {
            let to = pick((me + 1 + r % (n - 1)) % n, true).unwrap_or(me);
            arm();
            transfer(me, to, edge);
        }
    }
}
fn finish(i: usize) {
    s().st[i] = St::Done;
    resume_other(i, true);
}
/// The current thread cannot go on: hand the token to somebody else.
fn resume_other(i: usize, done: bool) {
    loop {
        if let Some(t) = pick((i + 1) % s().st.len(), false) {
            let st = s();
            st.sig = mix64(st.sig ^ (i as u64) << 8 ^ t as u64 ^ 0xb10c);
            st.switches += 1;
            st.cur = t;
            fpost(&SEM[t]);
            if !done {
                fwait(&SEM[i]);
            }
            return;
        }
        let st = s();
        if st.st.iter().all(|x| *x == St::Done) {
            fpost(&DONE);
            return;
        }
        // only blocked threads are left: time out one that has a timeout, or it is a deadlock
        if let Some(t) = (0..st.st.len()).find(|t| matches!(st.st[*t], St::Blocked(_, true))) {
            st.timed_out[t] = true;
            st.st[t] = St::Ready;
            if t == i {
                return;
            }
            continue;
        }
        let who: Vec<usize> = (0..st.st.len()).filter(|t| matches!(st.st[*t], St::Blocked(..))).collect();
        crate::runner::abort_run("deadlock", &format!("threads {:?} wait on each other forever", who));
    }
}
/// Whether the current thread is run by the scheduler.
pub fn managed() -> bool {
    me().is_some()
}
/// Interposed sched_yield / sleep.
pub fn yield_now() -> bool {
    let me = match me() {
        Some(m) => m,
        None => return false,
    };
    if let Some(t) = pick((me + 1) % s().st.len(), false) {
        transfer(me, t, 0xffff);
    }
    true
}
/// Interposed futex. None: not a managed thread, make the real call.
pub fn futex(args: [usize; 6]) -> Option<(i64, i32)> {
    let me = me()?;
    let addr = args[0];
    let cmd = args[1] as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let v = unsafe { std::ptr::read_volatile(addr as *const u32) };
            if v != args[2] as u32 {
                return Some((-1, libc::EAGAIN));
            }
            s().blocks += 1;
            s().st[me] = St::Blocked(addr, args[3] != 0);
            resume_other(me, false);
            if std::mem::replace(&mut s().timed_out[me], false) {
                return Some((-1, libc::ETIMEDOUT));
            }
            Some((0, 0))
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            let max = args[2] as i32 as i64;
            for t in 0..s().st.len() {
                if n >= max {
                    break;
                }
                if matches!(s().st[t], St::Blocked(a, _) if a == addr) {
                    s().st[t] = St::Ready;
                    n += 1;
                }
            }
            Some((n, 0))
        }
        _ => None,
    }
}
