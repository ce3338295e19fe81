//! C11: every call of the catalogue with the standard streams healthy, closed, full, interrupted or short.
use crate::ops;
use simkit::rng::{mix64, Rng as SimRng};
use simkit::seams::{self, Ans, Out, Seams};
use simkit::{Ctx, Prop, Res, Step};
use std::collections::VecDeque;
use std::io::Write;

const ERRNOS: &[i32] = &[libc::EBADF, libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EFBIG, libc::EDQUOT, libc::ENXIO];
fn answer(x: u64) -> Ans {
    match x % 8 {
        0 | 1 => Ans::Intr,
        2 | 3 => Ans::Short(1 + (x >> 8) as usize % 9),
        4 | 5 => Ans::Err(ERRNOS[(x >> 8) as usize % ERRNOS.len()]),
        _ => Ans::Ok,
    }
}
fn arm(steady: Option<Ans>, plan: VecDeque<Ans>) {
    seams::set(Some(Seams { out: Some(Out { steady, plan, ..Default::default() }), ..Default::default() }));
}
/// What reached or was to reach the streams.
fn disarm() -> ([u64; 3], [u64; 3]) {
    // whatever is still held back; the stream works again by now
    if let Some(o) = seams::get().and_then(|s| s.out.as_mut()) {
        o.steady = None;
        o.plan.clear();
    }
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    match seams::set(None).and_then(|s| s.out) {
        Some(o) => (o.calls, o.bytes),
        None => ([0; 3], [0; 3]),
    }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(160).collect()
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let mut steady: Option<Ans> = None;
    let mut plan: Vec<u64> = vec![];
    for s in steps {
        match &s.k[..] {
            "stream" => {
                let (name, a) = match s.arg(0) % 12 {
                    0 => ("stdout_and_stderr_healthy", None),
                    k @ 1..=8 => (
                        ["stream_closed", "stream_broken_pipe", "stream_full", "stream_io_error", "stream_would_block", "stream_too_large", "stream_quota", "stream_no_device"][k as usize - 1],
                        Some(Ans::Err(ERRNOS[k as usize - 1])),
                    ),
                    9 => ("stream_short_writes", Some(Ans::Short(1 + s.usz(1) % 5))),
                    _ => ("stream_mixed", None),
                };
                steady = a;
                plan = if s.arg(0) % 12 >= 9 { s.a[2.min(s.a.len())..].iter().take(12).copied().collect() } else { vec![] };
                if name != "stdout_and_stderr_healthy" {
                    ctx.fault(name);
                    ctx.nontrivial += 1;
                }
            }
            "op" if s.a.len() > 2 => {
                let run = |healthy: bool| {
                    if healthy {
                        arm(None, VecDeque::new());
                    } else {
                        arm(steady, plan.iter().map(|x| answer(*x)).collect());
                    }
                    let v = ops::outcome(s);
                    (v, disarm())
                };
                let first = s.arg(0) % 2 == 0;
                let a = run(first);
                let b = run(!first);
                let (well, ill) = if first { (a, b) } else { (b, a) };
                ctx.count(if well.0[0] == b'!' { "calls_panicking" } else { "calls_returning" });
                ctx.ev(ops::name(s), &well.0);
                for (w, what) in [(&well, "a healthy"), (&ill, "a faulty")] {
                    let (calls, bytes) = w.1;
                    ctx.check(calls[1] == 0, "writes-to-stdout", || format!("{} {:?} wrote to standard output ({} writes, {} bytes accepted) on {} stream", ops::name(s), &s.a[2..], calls[1], bytes[1], what))?;
                    ctx.add("writes_to_stderr", calls[2]);
                }
                ctx.check(well.0 == ill.0, "result-depends-on-stream", || {
                    format!("{} {:?}: {} but {} when the streams answer {:?}/{:?}", ops::name(s), &s.a[2..], show(&well.0), show(&ill.0), plan.iter().map(|x| answer(*x)).collect::<Vec<_>>(), steady)
                })?;
                ctx.state(mix64(ops::index(s) as u64 ^ (well.0[0] as u64) << 10 ^ (s.arg(2) % 840) << 20 ^ (format!("{:?}", steady).len() as u64) << 40));
            }
            _ => {}
        }
    }
    Ok(())
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let kinds = if r.chance(1, 400) { vec![r.usz(ops::OPS.len())] } else { ops::gen_kinds(r, 10) };
    let pool = ops::pool(r);
    let mut v = vec![];
    let slow = kinds.iter().any(|k| ops::OPS[*k].1 > 10);
    for _ in 0..if slow { 2 } else { 4 + r.usz(if thorough { 40 } else { 20 }) } {
        if v.is_empty() || r.chance(1, 4) {
            let mut a = vec![r.below(12), r.below(9)];
            for _ in 0..r.below(8) {
                a.push(r.next() >> 4);
            }
            v.push(Step::new("stream", &a));
        }
        let w = r.below(2);
        v.push(ops::gen_op(r, &pool, &kinds, w));
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C11",
        quick_runs: 120_000,
        thorough_runs: 1_500_000,
        step_budget: 2_000_000_000,
        again: 600,
        rule: "a series of calls over the operation catalogue, each made with healthy and with faulty standard streams; non-trivial: a stream fault was in force; distinct by call kind, variant, outcome and stream state",
        real: &["hacspec (all modules)", "secret-integers", "abstract-integers", "hacspec-examples (all primitives)", "Rust standard library streams"],
        stubs: &["write system calls on descriptors 1 and 2: simulated"],
        assumptions: &["the panic handler is the simulator's and prints nothing; what a program's own handler prints is not part of the result"],
        gen,
        exec,
    }
}
