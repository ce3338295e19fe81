//! C09: histories of random draws over threads and restarted processes, with a simulated entropy source
//! that is interrupted, answers short, lacks the system call or the device, or fails.
use hacspec::prelude::*;
use simkit::ctx::hash_bytes;
use simkit::rng::{mix64, Rng as SimRng};
use simkit::runner::in_child;
use simkit::sched::{self, Plan};
use simkit::seams::{self, Ans, Entropy, Seams};
use simkit::{guard, Ctx, Prop, Res, Step};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What one draw gave: elements, and how many values an element can have (0: all of the type).
type Got = Vec<u128>;
struct Kind {
    name: &'static str,
    /// bytes of an element; 0: a polynomial
    w: usize,
    /// range of an element of a polynomial
    n: u128,
    /// fixed length, 0: the caller chooses
    l: usize,
    draw: fn(usize) -> Result<Got, String>,
}
macro_rules! sec {
    ($m:ident, $t:ident, $p:ident, $w:expr, $l:expr) => {
        mod $m {
            use super::*;
            array!(Arr, $l, $t);
            pub fn whole(_: usize) -> Result<Got, String> {
                Ok(Arr::random().iter().map(|x| { let v: $p = x.declassify(); v as u128 }).collect())
            }
            pub fn vec(l: usize) -> Result<Got, String> {
                Ok(Arr::get_random_vec(l).iter().map(|x| { let v: $p = x.declassify(); v as u128 }).collect())
            }
        }
    };
}
macro_rules! pubs {
    ($m:ident, $p:ident, $u:ident, $w:expr, $l:expr) => {
        mod $m {
            use super::*;
            array!(Arr, $l, $p);
            pub fn whole(_: usize) -> Result<Got, String> {
                Ok(Arr::random().iter().map(|x| *x as $u as u128).collect())
            }
            pub fn vec(l: usize) -> Result<Got, String> {
                Ok(Arr::get_random_vec(l).iter().map(|x| *x as $u as u128).collect())
            }
        }
    };
}
macro_rules! ring {
    ($m:ident, $t:ident, $l:expr, $n:expr, $irr:expr) => {
        mod $m {
            use super::*;
            poly!(Ring, $t, $l, $n, $irr);
            pub fn whole(_: usize) -> Result<Got, String> {
                let r = Ring::random();
                let fixed = Ring::new_full(r.poly);
                if r.n != fixed.n || r.irr[..] != fixed.irr[..] {
                    return Err("the ring of a random polynomial is another".into());
                }
                #[allow(unused_comparisons)]
                if r.poly.iter().any(|c| *c < 0) {
                    return Err(format!("a coefficient of {:?} is negative", &r.poly[..]));
                }
                Ok(r.poly.iter().map(|c| *c as u128).collect())
            }
        }
    };
}
sec!(s8, U8, u8, 1, 32);
sec!(s8odd, U8, u8, 1, 13);
sec!(s16, U16, u16, 2, 21);
sec!(s32, U32, u32, 4, 16);
sec!(s64, U64, u64, 8, 5);
sec!(s128, U128, u128, 16, 3);
pubs!(p8, u8, u8, 1, 16);
pubs!(p16, u16, u16, 2, 7);
pubs!(p32, u32, u32, 4, 12);
pubs!(p64, u64, u64, 8, 9);
pubs!(p128, u128, u128, 16, 1);
pubs!(i32s, i32, u32, 4, 6);
pubs!(i64s, i64, u64, 8, 2);
ring!(ntru, i128, 11, 3, [(0, 2), (11, 1)]);
ring!(kyber, u128, 16, 3329, [(0, 1), (16, 1)]);
ring!(pair, u128, 40, 2, [(0, 1), (40, 1)]);
ring!(odd, i128, 7, 5, [(0, 4), (1, 4), (7, 1)]);
ring!(big, u128, 6, (1u128 << 127) + 29, [(0, 1), (6, 1)]);
ring!(mid, i128, 9, (1i128 << 40) - 87, [(0, 1), (9, 1)]);
ring!(sml, i64, 13, 4591, [(0, 1), (13, 1)]);
ring!(u32r, u32, 17, 256, [(0, 1), (17, 1)]);
mod shared {
    use super::*;
    both_bytes!(SharedP, SharedS, 24);
    both_arrays!(SharedWP, SharedWS, 10, U32, u32);
    pub fn bytes(_: usize) -> Result<Got, String> {
        Ok(SharedS::random().iter().map(|x| x.declassify() as u128).collect())
    }
    pub fn bytes_pub(_: usize) -> Result<Got, String> {
        Ok(SharedP::random().iter().map(|x| *x as u128).collect())
    }
    pub fn words(_: usize) -> Result<Got, String> {
        Ok(SharedWS::random().iter().map(|x| x.declassify() as u128).collect())
    }
    pub fn words_pub(_: usize) -> Result<Got, String> {
        Ok(SharedWP::random().iter().map(|x| *x as u128).collect())
    }
}
fn seq(l: usize) -> Result<Got, String> {
    Ok(ByteSeq::random(l).iter().map(|x| x.declassify() as u128).collect())
}
macro_rules! k {
    ($name:expr, $w:expr, $n:expr, $l:expr, $f:expr) => {
        Kind { name: $name, w: $w, n: $n, l: $l, draw: $f }
    };
}
const KINDS: &[Kind] = &[
    k!("byte sequence", 1, 0, 0, seq),
    k!("byte sequence", 1, 0, 0, seq),
    k!("byte sequence", 1, 0, 0, seq),
    k!("32 U8", 1, 0, 32, s8::whole),
    k!("13 U8", 1, 0, 13, s8odd::whole),
    k!("21 U16", 2, 0, 21, s16::whole),
    k!("16 U32", 4, 0, 16, s32::whole),
    k!("5 U64", 8, 0, 5, s64::whole),
    k!("3 U128", 16, 0, 3, s128::whole),
    k!("16 u8", 1, 0, 16, p8::whole),
    k!("7 u16", 2, 0, 7, p16::whole),
    k!("12 u32", 4, 0, 12, p32::whole),
    k!("9 u64", 8, 0, 9, p64::whole),
    k!("1 u128", 16, 0, 1, p128::whole),
    k!("6 i32", 4, 0, 6, i32s::whole),
    k!("2 i64", 8, 0, 2, i64s::whole),
    k!("vector of U8", 1, 0, 0, s8::vec),
    k!("vector of U8", 1, 0, 0, s8odd::vec),
    k!("vector of U16", 2, 0, 0, s16::vec),
    k!("vector of U32", 4, 0, 0, s32::vec),
    k!("vector of U64", 8, 0, 0, s64::vec),
    k!("vector of U128", 16, 0, 0, s128::vec),
    k!("vector of u8", 1, 0, 0, p8::vec),
    k!("vector of u16", 2, 0, 0, p16::vec),
    k!("vector of u32", 4, 0, 0, p32::vec),
    k!("vector of u64", 8, 0, 0, p64::vec),
    k!("vector of u128", 16, 0, 0, p128::vec),
    k!("vector of i32", 4, 0, 0, i32s::vec),
    k!("vector of i64", 8, 0, 0, i64s::vec),
    k!("polynomial mod 3", 0, 3, 11, ntru::whole),
    k!("polynomial mod 3329", 0, 3329, 16, kyber::whole),
    k!("polynomial mod 2", 0, 2, 40, pair::whole),
    k!("polynomial mod 5", 0, 5, 7, odd::whole),
    k!("polynomial mod 2^127+29", 0, (1 << 127) + 29, 6, big::whole),
    k!("polynomial mod 2^40-87", 0, (1 << 40) - 87, 9, mid::whole),
    k!("polynomial mod 4591", 0, 4591, 13, sml::whole),
    k!("polynomial mod 256", 0, 256, 17, u32r::whole),
    k!("24 U8 of a pair", 1, 0, 24, shared::bytes),
    k!("24 u8 of a pair", 1, 0, 24, shared::bytes_pub),
    k!("10 U32 of a pair", 4, 0, 10, shared::words),
    k!("10 u32 of a pair", 4, 0, 10, shared::words_pub),
];
fn kind(k: u64) -> usize {
    k as usize % KINDS.len()
}
fn len_of(k: usize, l: u64) -> usize {
    if KINDS[k].l > 0 {
        KINDS[k].l
    } else {
        l as usize % 40_000
    }
}
/// One draw as the process that made it reports it.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
struct Draw {
    thread: u64,
    kind: usize,
    len: usize,
    got: Result<Got, String>,
    /// entropy the process had obtained when the draw returned
    entropy: u64,
    /// whether a hard failure was still planned
    sick: bool,
    /// round of a comparison, position in its script
    round: Option<(u64, u64, u64)>,
}
#[derive(serde::Serialize, serde::Deserialize, Default)]
struct Life {
    draws: Vec<Draw>,
    fired: BTreeMap<String, u64>,
    sigs: Vec<(u64, u64)>,
    dead_threads: u64,
}
fn entropy() -> Option<&'static mut Entropy> {
    seams::get().and_then(|s| s.entropy.as_mut())
}
fn hard(e: &Entropy) -> bool {
    e.steady.is_some() || e.plan.iter().any(|a| matches!(a, Ans::Err(_))) || (e.no_syscall.is_some() && e.no_device.is_some())
}
fn draw(thread: u64, k: usize, l: usize, round: Option<(u64, u64, u64)>) -> Draw {
    let sick = entropy().map_or(false, |e| hard(e));
    let got = match guard(|| (KINDS[k].draw)(l)) {
        Ok(Ok(g)) => Ok(g),
        Ok(Err(m)) => Err(format!("?{}", m)),
        Err(m) => Err(m),
    };
    Draw { thread, kind: k, len: l, got, entropy: entropy().map_or(0, |e| e.bytes), sick, round }
}
const ERRNOS: &[i32] = &[libc::EIO, libc::EAGAIN, libc::EFAULT, libc::EINVAL, libc::EPERM, libc::ENODEV, libc::EBADF, libc::EMFILE];
fn answer(x: u64) -> Ans {
    match x % 16 {
        0..=4 => Ans::Intr,
        5..=9 => Ans::Short(1 + (x >> 8) as usize % 31),
        10 => Ans::Err(ERRNOS[(x >> 8) as usize % ERRNOS.len()]),
        _ => Ans::Ok,
    }
}
/// One process from its start to its end.
fn live(cfg: &Step, no: u64, steps: &[Step]) -> Life {
    let mut e = Entropy { seed: mix64(cfg.arg(0) ^ mix64(no)), ..Default::default() };
    match cfg.arg(1) % 6 {
        3 => e.no_syscall = Some(libc::ENOSYS),
        4 => e.no_syscall = Some(libc::EPERM),
        5 => {
            e.no_syscall = Some(libc::ENOSYS);
            e.poll_intr = 1 + (cfg.arg(2) % 5) as u32;
        }
        _ => {}
    }
    seams::set(Some(Seams { entropy: Some(e), ..Default::default() }));
    let mut life = Life::default();
    let mut spawned = 1;
    for s in steps {
        match &s.k[..] {
            "draw" => {
                let k = kind(s.arg(0));
                life.draws.push(draw(0, k, len_of(k, s.arg(1)), None));
            }
            // a process that draws for long
            "many" => {
                let k = kind(s.arg(0));
                let w = if KINDS[k].w > 0 { KINDS[k].w as u64 } else { bits(KINDS[k].n) as u64 / 8 + 1 };
                let most = 100_000 / (w * len_of(k, s.arg(2) + 2).max(1) as u64);
                for i in 0..s.arg(1).min(most) {
                    life.draws.push(draw(0, k, len_of(k, s.arg(2) + i % 3), None));
                }
            }
            "fault" => {
                let e = entropy().unwrap();
                e.plan = s.a.iter().take(12).map(|x| answer(*x)).collect();
            }
            "down" => {
                let e = entropy().unwrap();
                match s.arg(0) % 3 {
                    0 => e.steady = Some(ERRNOS[s.usz(1) % ERRNOS.len()]),
                    1 => e.steady = Some(libc::EIO),
                    _ => e.no_device = Some([libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO][s.usz(1) % 4]),
                }
            }
            "up" => {
                let e = entropy().unwrap();
                e.steady = None;
                e.no_device = None;
                e.plan.clear();
            }
            "rounds" => {
                // the same script as the first draws of several threads, one after another
                let script: Vec<(usize, usize)> = s.a.iter().skip(1).take(3).map(|x| (kind(*x), len_of(kind(*x), (x >> 16) % 64))).collect();
                let need = script.iter().map(|(k, _)| rounds_for(*k)).max().unwrap_or(8);
                let id = mix64(s.arg(0));
                for t in 0..need {
                    let script = script.clone();
                    let no = spawned;
                    spawned += 1;
                    let h = std::thread::spawn(move || script.iter().enumerate().map(|(i, (k, l))| draw(no, *k, *l, Some((id, t, i as u64)))).collect::<Vec<_>>());
                    match h.join() {
                        Ok(v) => life.draws.extend(v),
                        Err(_) => life.dead_threads += 1,
                    }
                }
            }
            "threads" => {
                let n = 2 + s.usz(0) % 4;
                let fair = 50 + s.arg(1) % 3000;
                let mut sw = vec![];
                let mut x = s.arg(2);
                for _ in 0..s.arg(3) % 40 {
                    x = mix64(x);
                    let bits = 1 + x % (1 + s.arg(4) % 14);
                    sw.push((1 + (x >> 8) % (1 << bits), (x >> 40) as usize % n));
                }
                let work: Vec<(usize, usize)> = s.a.iter().skip(5).take(12).map(|x| (kind(*x), len_of(kind(*x), (x >> 16) % 80))).collect();
                let out: Arc<Mutex<Vec<Vec<Draw>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
                let fs = (0..n)
                    .map(|t| {
                        let (mine, out, no): (Vec<_>, _, _) = (work.iter().enumerate().filter(|(i, _)| i % n == t).map(|(_, w)| *w).collect(), out.clone(), spawned + t as u64);
                        Box::new(move || {
                            for (k, l) in mine {
                                let d = draw(no, k, l, None);
                                out.lock().unwrap()[t].push(d);
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                let rep = sched::run(Plan { switches: sw, stalls: vec![], fair, fresh: (0, 0) }, fs);
                life.sigs.push((rep.signature, rep.switches));
                spawned += n as u64;
                for v in out.lock().unwrap().drain(..) {
                    life.draws.extend(v);
                }
            }
            _ => {}
        }
    }
    if let Some(s) = seams::get() {
        life.fired = s.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    }
    seams::set(None);
    life
}
fn bits(n: u128) -> f64 {
    (n as f64).log2()
}
/// How many draws with fresh entropy make a constant position impossible (2^-64).
fn rounds_for(k: usize) -> u64 {
    let b = if KINDS[k].w > 0 { 8.0 * KINDS[k].w as f64 } else { bits(KINDS[k].n) };
    2 + (64.0 / b).ceil() as u64
}
/// Elements of a kind seen in a run.
#[derive(Default)]
struct Seen {
    n: u64,
    or: u128,
    and: u128,
    small: Vec<bool>,
    top: bool,
    low: bool,
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[1, 0, 0]));
    // values that occurred: (kind or all full-range kinds, window) -> where
    let mut windows: BTreeMap<(usize, u128), (usize, u64, usize)> = BTreeMap::new();
    let mut seen: BTreeMap<usize, Seen> = BTreeMap::new();
    for (no, part) in steps.split(|s| s.k == "restart").enumerate() {
        if no > 0 {
            ctx.fault("restart");
            ctx.nontrivial += 1;
        }
        if part.iter().all(|s| s.k == "!cfg") {
            continue;
        }
        let b = match in_child(Duration::from_secs(60), || serde_json::to_vec(&live(&cfg, no as u64, part)).unwrap()) {
            Ok(b) => b,
            Err((c, m)) => return ctx.fail(&c, format!("process {}: {}", no, m)),
        };
        let life: Life = match serde_json::from_slice(&b) {
            Ok(l) => l,
            Err(_) => return ctx.fail("process-exit", format!("process {} ended in the middle", no)),
        };
        for (k, v) in &life.fired {
            let k: &'static str = match &k[..] {
                "entropy_eintr" => "entropy_interrupted",
                "entropy_short" => "entropy_short",
                "entropy_error" => "entropy_error",
                "entropy_no_syscall" => "entropy_call_missing",
                "entropy_no_device" => "entropy_device_missing",
                "entropy_poll_eintr" => "entropy_wait_interrupted",
                _ => continue,
            };
            ctx.add(&format!("fault.{}", k), *v);
            ctx.nontrivial += 1;
        }
        for (sig, sw) in &life.sigs {
            ctx.state(*sig);
            ctx.add("context_switches", *sw);
        }
        ctx.check(life.dead_threads == 0, "thread-died", || format!("process {}: {} threads died outside a draw", no, life.dead_threads))?;
        let mut drawn = 0u64;
        // per thread, what came out of it
        let mut streams: BTreeMap<(u64, usize), Vec<u8>> = BTreeMap::new();
        let mut coefs: BTreeMap<(u64, usize), Vec<u128>> = BTreeMap::new();
        let mut rounds: BTreeMap<(u64, u64), Vec<&Draw>> = BTreeMap::new();
        for (j, d) in life.draws.iter().enumerate() {
            let k = &KINDS[d.kind];
            let wher = || format!("{} of length {} in process {} thread {} draw {}", k.name, d.len, no, d.thread, j);
            ctx.count("draws");
            match &d.got {
                Err(m) => {
                    ctx.ev("draw", b"panic");
                    ctx.check(!m.starts_with('?'), "wrong-ring", || format!("{}: {}", wher(), m))?;
                    ctx.check(d.sick, "refused-with-entropy", || format!("{}: {}", wher(), m))?;
                    ctx.probe("draw_refused");
                }
                Ok(g) => {
                    ctx.ev("draw", &g.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
                    ctx.check(g.len() == d.len, "wrong-length", || format!("{}: {} elements", wher(), g.len()))?;
                    let lim = if k.w > 0 { 0 } else { k.n };
                    if lim > 0 {
                        ctx.check(g.iter().all(|x| *x < lim), "out-of-range", || format!("{}: {:?}", wher(), g))?;
                    }
                    let bytes = (d.len as f64 * if k.w > 0 { k.w as f64 } else { bits(k.n) / 8.0 }) as u64;
                    drawn += bytes;
                    ctx.check(d.entropy >= bytes.min(16), "no-entropy-behind-it", || format!("{}: {} bytes drawn from {} bytes of entropy", wher(), bytes, d.entropy))?;
                    let s = seen.entry(d.kind).or_insert_with(|| Seen { and: u128::MAX, small: vec![false; 16], ..Default::default() });
                    for x in g {
                        s.n += 1;
                        s.or |= x;
                        s.and &= x;
                        if *x < 16 {
                            s.small[*x as usize] = true;
                        }
                        if lim > 0 {
                            s.top |= *x >= lim - lim / 8 - 1;
                            s.low |= *x <= lim / 8;
                        }
                    }
                    if k.w > 0 {
                        let st = streams.entry((d.thread, 0)).or_default();
                        for x in g {
                            st.extend_from_slice(&x.to_le_bytes()[..k.w]);
                        }
                    } else {
                        coefs.entry((d.thread, d.kind)).or_default().extend_from_slice(g);
                    }
                }
            }
            if let Some((id, _, i)) = d.round {
                rounds.entry((id, i)).or_default().push(d);
            }
            ctx.state(mix64(hash_bytes(k.name.as_bytes()) ^ d.got.is_ok() as u64 ^ (d.sick as u64) << 1 ^ (d.len.min(70) as u64) << 2 ^ (d.thread.min(9)) << 20 ^ (no as u64) << 30 ^ cfg.arg(1) % 6 << 40));
        }
        let had = life.draws.iter().map(|d| d.entropy).max().unwrap_or(0);
        ctx.check(had >= drawn.min(16), "no-entropy-behind-it", || format!("process {}: {} bytes drawn from {} bytes of entropy", no, drawn, had))?;
        // nothing comes twice
        let mut put = |ctx: &mut Ctx, set: usize, w: u128, t: u64, p: usize, what: &str| -> Res<()> {
            ctx.checks += 1;
            if let Some((n0, t0, p0)) = windows.insert((set, w), (no, t, p)) {
                return ctx.fail("repeated", format!("{}: the values at {} of process {} thread {} came before at {} of process {} thread {}", what, p, no, t, p0, n0, t0));
            }
            Ok(())
        };
        for ((t, _), b) in &streams {
            for (p, w) in b.windows(8).enumerate() {
                put(ctx, usize::MAX, u64::from_le_bytes(w.try_into().unwrap()) as u128, *t, p, "bytes")?;
            }
        }
        for ((t, k), c) in &coefs {
            let m = (64.0 / bits(KINDS[*k].n)).ceil() as usize;
            for (p, w) in c.windows(m).enumerate() {
                let h = w.iter().fold((1u64, 2u64), |(a, b), x| (mix64(a ^ *x as u64 ^ mix64((*x >> 64) as u64)), mix64(b.wrapping_mul(3) ^ *x as u64)));
                put(ctx, *k, (h.0 as u128) << 64 | h.1 as u128, *t, p, KINDS[*k].name)?;
            }
        }
        // every position depends on the entropy
        for ((_, i), v) in &rounds {
            let ok: Vec<&Got> = v.iter().filter_map(|d| d.got.as_ref().ok()).collect();
            let d = v[0];
            if (ok.len() as u64) < rounds_for(d.kind) {
                ctx.count("comparisons_cut_short");
                continue;
            }
            for p in 0..d.len {
                ctx.check(ok.iter().any(|g| g[p] != ok[0][p]), "constant-position", || format!("{} of length {} as draw {} of a thread: position {} is {} under {} entropies", KINDS[d.kind].name, d.len, i, p, ok[0][p], ok.len()))?;
            }
            ctx.count("entropy_comparisons");
        }
    }
    // every value can come
    for (k, s) in &seen {
        let kd = &KINDS[*k];
        if kd.w > 0 && s.n >= 70 {
            let all = if kd.w == 16 { u128::MAX } else { (1 << (8 * kd.w)) - 1 };
            ctx.check(s.or == all && s.and == 0, "bits-never-change", || format!("{}: over {} elements the bits {:x} were never set and {:x} never clear", kd.name, s.n, all & !s.or, s.and))?;
        }
        if kd.w == 0 && kd.n <= 16 && s.n >= 60 * kd.n as u64 {
            ctx.check(s.small[..kd.n as usize].iter().all(|x| *x), "value-never-drawn", || format!("{}: over {} coefficients only {:?}", kd.name, s.n, s.small))?;
        }
        if kd.w == 0 && kd.n > 16 && s.n >= 500 {
            ctx.check(s.top && s.low, "value-never-drawn", || format!("{}: over {} coefficients none at an end of the range", kd.name, s.n))?;
        }
    }
    Ok(())
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let mut v = vec![Step::new("!cfg", &[r.next(), r.below(6), r.below(99)])];
    let few = r.chance(1, 2).then(|| (0..3).map(|_| r.below(KINDS.len() as u64)).collect::<Vec<_>>());
    let some = |r: &mut SimRng| match &few {
        Some(f) => *r.pick(f),
        None => r.below(KINDS.len() as u64),
    };
    if r.chance(1, 60) {
        let k = some(r);
        v.push(Step::new("many", &[k, 100 + r.below(if thorough { 6000 } else { 3000 }), r.below(10)]));
    }
    let total = 3 + r.usz(if thorough { 40 } else { 16 });
    let mut long = r.chance(1, 25);
    for _ in 0..total {
        match r.below(24) {
            0..=8 => {
                let l = match r.below(8) {
                    0 => r.below(4),
                    1 => *r.pick(&[8, 16, 32, 64, 128, 256, 1000]) + r.below(3) - 1,
                    2 if long => {
                        long = false;
                        16_000 + r.below(20_000)
                    }
                    _ => r.below(100),
                };
                v.push(Step::new("draw", &[some(r), l]));
            }
            9..=11 => {
                let n = 1 + r.usz(8);
                let a: Vec<u64> = (0..n).map(|_| r.next() >> 4).collect();
                v.push(Step::new("fault", &a));
            }
            12 => v.push(Step::new("down", &[r.below(3), r.below(9)])),
            13..=14 => v.push(Step::new("up", &[])),
            15..=17 => v.push(Step::new("restart", &[])),
            18..=20 => {
                let mut a = vec![r.next() >> 1];
                for _ in 0..1 + r.usz(3) {
                    a.push(some(r) | r.below(64) << 16);
                }
                // kind() reduces the number, so the length bits must leave the kind alone
                for x in a.iter_mut().skip(1) {
                    *x = pack(*x & 0xffff, *x >> 16);
                }
                v.push(Step::new("rounds", &a));
            }
            _ => {
                let mut a = vec![r.below(4), r.below(3000), r.next() >> 1, r.below(40), r.below(14)];
                for _ in 0..2 + r.usz(9) {
                    a.push(pack(some(r), r.below(80)));
                }
                v.push(Step::new("threads", &a));
            }
        }
    }
    v
}
/// A number that gives the kind modulo their count and the length above bit 16.
fn pack(k: u64, l: u64) -> u64 {
    let n = KINDS.len() as u64;
    let x = l << 16;
    x + (k + n - x % n) % n
}
pub fn prop() -> Prop {
    Prop {
        id: "C09",
        quick_runs: 30_000,
        thorough_runs: 800_000,
        step_budget: 2_000_000_000,
        again: 0,
        rule: "a history of draws over threads (scheduled) and restarted processes with entropy faults; non-trivial: a fault or restart happened; distinct by scheduler signature and by draw kind, length, health and place",
        real: &["hacspec (random sequences, arrays, polynomials)", "rand, rand_chacha, getrandom"],
        stubs: &["entropy system calls and device: simulated source", "thread scheduler: simulated", "restarted process: a fresh child process"],
        assumptions: &["values repeat only with probability below 2^-30 per run by chance (and deterministically so per seed)", "a restarted process is a new one, not a forked copy of one that has drawn already: rand 0.7 documents that a forked copy repeats its buffered values"],
        gen,
        exec,
    }
}
