//! C07: several threads call the library at once under the seeded scheduler; every call must return what
//! it returns alone in a fresh process.
use crate::ops;
use simkit::runner::in_child;
use simkit::cov;
use simkit::sched::{self, Plan};
use simkit::{Ctx, Prop, Res, Rng, Step};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Basic blocks after which a history gets no longer.
const LONG: u64 = 50_000_000;
fn key(s: &Step) -> (usize, Vec<u64>, Vec<Vec<u8>>) {
    (ops::index(s), s.a.get(2..).unwrap_or(&[]).to_vec(), s.d.clone())
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().any(|c| c.is_control()) || s.contains('\u{fffd}') {
        simkit::ctx::hex(b)
    } else {
        s.chars().take(160).collect()
    }
}
fn compare(ctx: &mut Ctx, s: &Step, got: &[u8], want: &[u8], class: &str, wher: &str) -> Res<()> {
    ctx.check(got == want, class, || {
        format!("{} {:?} {}: {} but alone {}", ops::name(s), &s.a[2..], wher, show(got), show(want))
    })
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[2, 500, 1]));
    let n = (cfg.usz(0)).clamp(1, 8);
    let calls: Vec<&Step> = steps.iter().filter(|s| s.k == "op" && s.a.len() > 2).collect();
    // alone, each in a process of its own
    let mut solo: BTreeMap<_, Vec<u8>> = BTreeMap::new();
    for s in &calls {
        let k = key(s);
        if solo.contains_key(&k) {
            continue;
        }
        match in_child(Duration::from_secs(60), || ops::outcome(s)) {
            Ok(v) => {
                ctx.count(if v[0] == b'!' { "solo_calls_panicking" } else { "solo_calls_returning" });
                solo.insert(k, v);
            }
            Err((c, m)) => return ctx.fail(&c, format!("{} alone: {}", ops::name(s), m)),
        }
    }
    // a history on the main thread before the threads start
    let before = cfg.usz(2) % 3;
    for s in calls.iter().filter(|s| s.arg(0) % 7 == 6).take(before * 4) {
        let got = ops::outcome(s);
        ctx.count("calls_before");
        compare(ctx, s, &got, &solo[&key(s)], "earlier-call-matters", "after earlier calls")?;
    }
    // a long history: the same calls many times over
    let times = steps.iter().find(|s| s.k == "long").map_or(0, |s| s.arg(0) % 20_000);
    for i in 0..times {
        if cov::steps() > LONG {
            break;
        }
        let s = calls[i as usize % calls.len()];
        let got = ops::outcome(s);
        ctx.count("calls_before");
        compare(ctx, s, &got, &solo[&key(s)], "earlier-call-matters", &format!("after {} earlier calls", i))?;
    }
    let mut lists: Vec<Vec<Step>> = vec![vec![]; n];
    for s in &calls {
        lists[s.usz(0) % n].push((*s).clone());
    }
    let plan = Plan {
        switches: steps.iter().filter(|s| s.k == "sw").map(|s| (s.arg(0) % 10_000_000, s.usz(1) % n)).collect(),
        stalls: steps.iter().filter(|s| s.k == "stall").map(|s| (s.usz(0) % n, s.arg(1) % 10_000_000, s.arg(2) % 3_000_000)).collect(),
        fair: cfg.arg(1) % 100_000,
        fresh: steps.iter().find(|s| s.k == "fresh").map_or((0, 0), |s| (s.arg(0) % 1000, s.arg(1))),
    };
    let out: Vec<Arc<Mutex<Vec<Vec<u8>>>>> = (0..n).map(|_| Default::default()).collect();
    let threads = lists
        .iter()
        .zip(&out)
        .map(|(l, o)| {
            let (l, o) = (l.clone(), o.clone());
            Box::new(move || {
                for s in &l {
                    let v = ops::outcome(s);
                    o.lock().unwrap().push(v);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let rep = sched::run(plan, threads);
    ctx.add("context_switches", rep.switches);
    ctx.add("blocking_waits", rep.blocks);
    ctx.add("fault.thread_stalled", rep.stalls_hit.min(1));
    ctx.state(rep.signature);
    if rep.switches > n as u64 {
        ctx.nontrivial += 1;
    }
    for (t, l) in lists.iter().enumerate() {
        let o = out[t].lock().unwrap();
        ctx.check(o.len() == l.len(), "thread-died", || format!("thread {} finished {} of {} calls", t, o.len(), l.len()))?;
        for (i, s) in l.iter().enumerate() {
            ctx.count("concurrent_calls");
            if o[i][0] == b'!' {
                ctx.fault("call_panicked");
            }
            ctx.ev(ops::name(s), &o[i]);
            compare(ctx, s, &o[i], &solo[&key(s)], "other-thread-matters", &format!("as call {} of thread {} of {}", i, t, n))?;
        }
    }
    // and once more afterwards, on this thread, latest first
    let mut seen = std::collections::BTreeSet::new();
    for s in calls.iter().rev() {
        if seen.insert(key(s)) {
            let got = ops::outcome(s);
            ctx.count("calls_afterwards");
            compare(ctx, s, &got, &solo[&key(s)], "earlier-call-matters", "after the concurrent calls")?;
        }
    }
    Ok(())
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let n = 2 + r.usz(if thorough { 4 } else { 3 });
    let slow = r.chance(1, if thorough { 60 } else { 150 });
    let kinds = if slow {
        let name = if r.chance(1, 2) { "x25519" } else { "p256" };
        vec![ops::index_of(name)]
    } else {
        ops::gen_kinds(r, 10)
    };
    // the threads race through the first calls of the process, preempted where code runs for the first time
    let first = !slow && r.chance(2, 5);
    let kinds = match first {
        true if r.chance(1, 3) => vec![ops::index_of(*r.pick(&["aead", "cipher", "mac", "hash"]))],
        true => vec![kinds[0]],
        false => kinds,
    };
    let pool = ops::pool(r);
    let distinct = if slow { 2 } else { 2 + r.usz(7) };
    let mut base: Vec<Step> = vec![];
    for _ in 0..distinct {
        let mut s = ops::gen_op(r, &pool, &kinds, 0);
        if !base.is_empty() && r.chance(if first { 3 } else { 1 }, if first { 4 } else { 3 }) {
            // same call but for one operand
            let mut b = r.pick(&base).clone();
            if r.chance(1, 2) {
                let j = r.usz(3);
                b.d[j] = r.pick(&pool).clone();
            } else {
                let j = 2 + r.usz(b.a.len() - 2);
                let j = if first { j.max(3) } else { j };
                b.a[j] = s.a[j];
            }
            s = b;
        }
        base.push(s);
    }
    let fair = if first && r.chance(1, 2) { 99_999 } else { r.range(100, 3000) };
    let mut v = vec![Step::new("!cfg", &[n as u64, fair, if first { 0 } else { r.below(3) }])];
    let total = if slow { n } else { n + r.usz(14) };
    for j in 0..total {
        let mut s = if j < base.len() { base[j].clone() } else { r.pick(&base).clone() };
        s.a[0] = r.below(42);
        if j < n {
            s.a[0] = j as u64 + 7 * n as u64 * r.below(2);
        }
        v.push(s);
    }
    if first || r.chance(1, 6) {
        v.push(Step::new("fresh", &[*r.pick(&[1, 2, 3, 5, 10, 30]), r.next()]));
    }
    let scale = if slow { 22 } else { *r.pick(&[6, 9, 12, 15]) };
    let most = if thorough { 80 } else { 40 };
    for _ in 0..if first && r.chance(3, 4) { 0 } else { r.range(3, most) } {
        let bits = r.below(scale) + 1;
        v.push(Step::new("sw", &[1 + r.below(1 << bits), r.below(n as u64)]));
    }
    if r.chance(1, 60) && !slow && !first {
        let bits = r.range(4, 13);
        v.push(Step::new("long", &[(1 << bits) + r.below(1 << bits)]));
    }
    for _ in 0..r.below(3) {
        let (a, l) = (r.below(14), r.below(20));
        v.push(Step::new("stall", &[r.below(n as u64), r.below(1 << a), r.below(1 << l)]));
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C07",
        quick_runs: 8_000,
        thorough_runs: 120_000,
        step_budget: 1_000_000_000,
        again: 0,
        rule: "a seeded interleaving (basic-block granularity) of the calls of 2 to 5 threads over the operation catalogue, with stalls and panicking calls; non-trivial: more preemptions than threads; distinct by scheduler signature",
        real: &["hacspec (all modules)", "secret-integers", "abstract-integers", "hacspec-examples (all primitives)", "Rust standard library locks and once cells"],
        stubs: &["thread scheduler, futex, sleep and yield: simulated"],
        assumptions: &["sequentially consistent memory: one thread runs at a time", "preemption inside the standard library and num-bigint only at their calls back into instrumented code"],
        gen,
        exec,
    }
}
