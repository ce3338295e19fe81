//! C03: a content-addressed store shared by writers and readers of different implementations, over a
//! medium that tears, loses, misdirects and flips writes and is read short.
use crate::util::*;
use hacspec_examples::{blake2::blake2b, fips202, sha2};
use simkit::net::damage;
use simkit::rng::mix64;
use simkit::{guard, refm, Ctx, Prop, Res, Rng, Step};

const ALGS: [&str; 8] = ["sha256", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "shake128", "shake256", "blake2b"];
const BLOCK: [usize; 8] = [64, 144, 136, 104, 72, 168, 136, 128];
const PAGE: usize = 32;

fn reference(alg: usize, d: &[u8], l: usize) -> Vec<u8> {
    match alg {
        0 => refm::sha256(d),
        1 => refm::sha3(224, d),
        2 => refm::sha3(256, d),
        3 => refm::sha3(384, d),
        4 => refm::sha3(512, d),
        5 => refm::shake(128, d, l),
        6 => refm::shake(256, d, l),
        _ => refm::blake2b512(d),
    }
}
fn real_digest(alg: usize, d: &[u8], l: usize) -> Result<Vec<u8>, String> {
    guard(|| {
        let m = bs(d);
        match alg {
            0 => un(&sha2::hash(&m)),
            1 => un(&fips202::sha3224(&m)),
            2 => un(&fips202::sha3256(&m)),
            3 => un(&fips202::sha3384(&m)),
            4 => un(&fips202::sha3512(&m)),
            5 => un(&fips202::shake128(&m, l)),
            6 => un(&fips202::shake256(&m, l)),
            _ => un(&blake2b::blake2b(&m)),
        }
    })
}
/// Digest at a node; a hacspec node is judged against the reference on whatever bytes it was handed.
fn digest(ctx: &mut Ctx, real: bool, alg: usize, d: &[u8], l: usize, what: &str) -> Res<Vec<u8>> {
    let want = reference(alg, d, l);
    if !real {
        return Ok(want);
    }
    let name = ALGS[alg];
    ctx.count(&format!("digest_{}", name));
    if d.is_empty() {
        ctx.probe("empty_input");
    } else if d.len() % BLOCK[alg] == 0 {
        ctx.probe("block_multiple_input");
    }
    if l == 0 {
        ctx.probe("empty_output");
    }
    match real_digest(alg, d, l) {
        Err(p) => ctx.fail(&format!("digest-panics-{}", name), format!("{} of {} bytes ({}): {}", name, d.len(), what, p)),
        Ok(g) => {
            ctx.eq(&g, &want, &format!("digest-wrong-{}", name), &format!("{} of {} bytes ({})", name, d.len(), what))?;
            ctx.ev("digest", &g);
            Ok(g)
        }
    }
}
struct Blob {
    alg: usize,
    l: usize,
    content: Vec<u8>,
    name: Vec<u8>,
    cache: Option<Vec<u8>>,
    disk: Vec<u8>,
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[2, 3]));
    let nodes = cfg.usz(0).clamp(1, 4);
    let real = |i: usize| cfg.arg(1) >> (i % nodes) & 1 == 1;
    let mut order: Vec<&Step> = steps.iter().filter(|s| s.k != "!cfg").collect();
    order.sort_by_key(|s| s.arg(0) % 100_000);
    let mut blobs: Vec<Blob> = vec![];
    for s in order {
        ctx.sim_ms = ctx.sim_ms.max(s.arg(0) % 100_000);
        let nb = blobs.len().max(1);
        match &s.k[..] {
            "put" => {
                let (node, alg) = (s.usz(2), s.usz(3) % 8);
                let l = if alg == 5 || alg == 6 { s.usz(4) % 400_000 } else { 64 };
                let content = s.data(0).to_vec();
                let name = digest(ctx, real(node), alg, &content, l, "stored")?;
                ctx.count("blobs");
                blobs.push(Blob { alg, l, name, cache: Some(content.clone()), disk: vec![], content });
            }
            "sync" if !blobs.is_empty() => {
                let i = s.usz(1) % nb;
                if let Some(c) = blobs[i].cache.take() {
                    match s.arg(2) % 8 {
                        1 => ctx.fault("lost_write"),
                        2 => {
                            let mut d = c.clone();
                            let keep = if d.is_empty() { 0 } else { s.usz(3) % d.len() };
                            for x in &mut d[keep..] {
                                *x = (s.arg(4) & 1) as u8 * 0xa5;
                            }
                            ctx.fault("torn_write");
                            blobs[i].disk = d;
                        }
                        3 => {
                            let j = s.usz(3) % nb;
                            blobs[j].disk = c;
                            if i != j {
                                ctx.fault("misdirected_write");
                            }
                        }
                        _ => blobs[i].disk = c,
                    }
                }
            }
            "crash" => {
                // what was not synced survives as some pages only
                ctx.fault("crash");
                for b in blobs.iter_mut() {
                    if let Some(c) = b.cache.take() {
                        let mut d = b.disk.clone();
                        d.resize(c.len(), 0);
                        for (i, p) in c.chunks(PAGE).enumerate() {
                            if mix64(s.arg(1) ^ i as u64) & 1 == 1 {
                                d[i * PAGE..i * PAGE + p.len()].copy_from_slice(p);
                            }
                        }
                        if s.arg(1) & 4 == 4 {
                            let n = mix64(s.arg(1)) as usize % (d.len() + 1);
                            d.truncate(n);
                        }
                        b.disk = d;
                    }
                }
            }
            "rot" if !blobs.is_empty() => {
                let i = s.usz(1) % nb;
                let other = blobs[s.usz(5) % nb].disk.clone();
                let d = damage(&blobs[i].disk, s.arg(2), s.arg(3), s.arg(4), Some(&other));
                if d != blobs[i].disk {
                    ctx.fault("medium_corruption");
                }
                blobs[i].disk = d;
            }
            "get" if !blobs.is_empty() => {
                let b = &blobs[s.usz(1) % nb];
                let mut data = b.cache.clone().unwrap_or_else(|| b.disk.clone());
                if s.arg(3) % 4 == 1 && !data.is_empty() {
                    data.truncate(s.usz(4) % data.len());
                    ctx.fault("short_read");
                }
                let node = s.usz(2);
                let intact = data == b.content;
                let got = digest(ctx, real(node), b.alg, &data, b.l, if intact { "read back intact" } else { "read back damaged" })?;
                if intact {
                    ctx.eq(&got, &b.name, "intact-does-not-verify", ALGS[b.alg])?;
                    ctx.count("verified");
                } else {
                    ctx.nontrivial += 1;
                    // a short SHAKE output can collide
                    ctx.check(got != b.name || b.l < 16, "damage-not-detected", || {
                        format!("{}: {} damaged bytes verify under the name of {} bytes", ALGS[b.alg], data.len(), b.content.len())
                    })?;
                    ctx.count("damage_detected");
                }
                let h = blobs.iter().fold(s.arg(1) % nb as u64, |h, b| mix64(h ^ (b.disk == b.content) as u64 ^ (b.cache.is_some() as u64) << 1 ^ (b.alg as u64) << 2));
                ctx.state(h);
            }
            _ => {}
        }
    }
    // faults stop: writers put their blobs again, everything must verify everywhere
    for (i, b) in blobs.iter().enumerate() {
        let got = digest(ctx, real(i + 1), b.alg, &b.content, b.l, "after repair")?;
        ctx.eq(&got, &b.name, "repaired-does-not-verify", ALGS[b.alg])?;
    }
    Ok(())
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let nodes = r.range(1, 4);
    let mut mask = r.next() & 15;
    if mask & ((1 << nodes) - 1) == 0 {
        mask = 1;
    }
    let mut v = vec![Step::new("!cfg", &[nodes, mask])];
    let n = r.range(1, 4);
    let swarm = r.next();
    for i in 0..n {
        let alg = r.usz(8);
        let long = r.chance(1, 200);
        let max = if r.chance(1, 60) { 9_000 } else { 600 };
        let b = BLOCK[alg];
        let len = if long { r.long(if thorough { 300_000 } else { 70_000 }) } else if max > 600 { max - r.usz(1000) } else { r.len(max, &[b, b, b / 2, 64]) };
        let l = *r.pick(&[0, 1, 16, 32, 64, 136, 137, 168, 200, 336, 500]) + if r.chance(1, 4) { r.below(300) } else { 0 };
        // long outputs: many squeezed blocks
        let l = match r.below(800) {
            0 if thorough => r.long(200_000) as u64,
            0 | 1 => r.long(40_000) as u64,
            2..=20 => r.below(5000),
            _ => l,
        };
        let content = r.special_bytes(len);
        v.push(Step::with("put", &[10 * i + r.below(500), i, r.below(nodes), alg as u64, l], vec![content]));
    }
    let ops = r.range(4, 16);
    for _ in 0..ops {
        let t = r.range(100, 3000);
        match r.below(10) {
            0 | 1 | 2 => v.push(Step::new("sync", &[t, r.below(n), if swarm & 1 == 1 { r.below(8) } else { 0 }, r.next() >> 20, r.below(2)])),
            3 if swarm & 2 == 2 => v.push(Step::new("crash", &[t, r.next() >> 20])),
            4 | 5 if swarm & 4 == 4 => v.push(Step::new("rot", &[t, r.below(n), r.below(8), r.next() >> 20, r.next() >> 20, r.below(n)])),
            _ => v.push(Step::new("get", &[t, r.below(n), r.below(nodes), if swarm & 8 == 8 { r.below(4) } else { 0 }, r.next() >> 20])),
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C03",
        quick_runs: 60_000,
        thorough_runs: 500_000,
        step_budget: 4_000_000_000,
        again: 600,
        rule: "a seeded history of puts, syncs, crashes, corruptions and gets on a digest-addressed store shared by 1-4 nodes (hacspec or independent implementation); non-trivial: at least one read returned damaged or short data; distinct by event log",
        real: &["hacspec_examples::sha2", "hacspec_examples::fips202", "hacspec_examples::blake2::blake2b", "hacspec sequences and arrays"],
        stubs: &["storage medium, page cache, clock: simulated", "peer implementation: independent reference model checked against OpenSSL vectors"],
        assumptions: &["blob lengths up to 600 bytes, some of 9000, one in 200 up to 70000 (300000 in the thorough tier)", "SHAKE outputs up to 800 bytes, one in fifty up to 5000, a few up to 40000 (200000 in the thorough tier)", "SHAKE outputs under 16 bytes are only compared, not relied on for detection"],
        gen,
        exec,
    }
}
