//! C05: keystream-encrypted messages travel as block-aligned segments that decrypt on their own.
use crate::util::*;
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::aes;
use hacspec_examples::chacha20_poly1305::chacha20;
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::mix64;
use simkit::{guard, refm, Ctx, Prop, Res, Rng, Step};
use std::collections::BTreeMap;

const ALGS: [&str; 3] = ["aes128ctr", "aes256ctr", "chacha20"];
fn unit(alg: u64) -> usize {
    if alg == 2 {
        64
    } else {
        16
    }
}
fn keylen(alg: u64) -> usize {
    if alg == 0 {
        16
    } else {
        32
    }
}
fn reference(alg: u64, k: &[u8], n: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    if alg == 2 {
        refm::chacha20(k, n, ctr, m)
    } else {
        refm::aes_ctr(k, n, ctr, m)
    }
}
/// Encrypts or decrypts from a counter. ChaCha20 has no start counter in its message interface: counter 1
/// goes through it, others through the block function.
fn real_crypt(alg: u64, k: &[u8], n: &[u8], ctr: u32, m: &[u8], dec: bool) -> Result<Vec<u8>, String> {
    guard(|| match (alg, dec) {
        (0, false) => Ok(un(&aes::aes128_encrypt(aes::Key128::from_public_slice(k), aes::Nonce::from_public_slice(n), U32::classify(ctr), &bs(m)))),
        (0, true) => Ok(un(&aes::aes128_decrypt(aes::Key128::from_public_slice(k), aes::Nonce::from_public_slice(n), U32::classify(ctr), &bs(m)))),
        (1, false) => Ok(un(&aes::aes256_encrypt(aes::Key256::from_public_slice(k), aes::Nonce::from_public_slice(n), U32::classify(ctr), &bs(m)))),
        (1, true) => Ok(un(&aes::aes256_decrypt(aes::Key256::from_public_slice(k), aes::Nonce::from_public_slice(n), U32::classify(ctr), &bs(m)))),
        (_, _) if ctr == 1 => {
            chacha20::chacha(chacha20::Key::from_public_slice(k), chacha20::IV::from_public_slice(n), &bs(m)).map(|c| un(&c))
        }
        _ => {
            let mut out = vec![];
            for (i, c) in m.chunks(64).enumerate() {
                let b = chacha20::block(
                    chacha20::Key::from_public_slice(k),
                    U32::classify(ctr.wrapping_add(i as u32)),
                    chacha20::IV::from_public_slice(n),
                );
                let b = un(&b);
                out.extend(c.iter().zip(b).map(|(x, y)| x ^ y));
            }
            Ok(out)
        }
    })
    .and_then(|r| r)
}
fn crypt(ctx: &mut Ctx, real: bool, alg: u64, k: &[u8], n: &[u8], ctr: u32, m: &[u8], dec: bool) -> Res<Vec<u8>> {
    let want = reference(alg, k, n, ctr, m);
    if !real {
        return Ok(want);
    }
    let name = ALGS[alg as usize];
    ctx.count(&format!("{}_{}", if dec { "decrypted" } else { "encrypted" }, name));
    if (ctr as u64) + (m.len() / unit(alg)) as u64 > u32::MAX as u64 {
        ctx.probe("counter_wraps_inside_call");
    }
    let d = || format!("{} {} of {} bytes from counter {:#x}", name, if dec { "decryption" } else { "encryption" }, m.len(), ctr);
    match real_crypt(alg, k, n, ctr, m, dec) {
        Err(p) => ctx.fail(&format!("panics-{}", name), format!("{}: {}", d(), p)),
        Ok(g) => {
            ctx.eq(&g, &want, &format!("wrong-{}", name), &d())?;
            Ok(g)
        }
    }
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[0, 3, 1]));
    let (alg, mask) = (cfg.arg(0) % 3, cfg.arg(1));
    let real = |i: usize| mask >> (i % 3) & 1 == 1;
    let u = unit(alg);
    let start = if alg == 2 { 1 } else { cfg.arg(2) as u32 };
    let (key, nonce, msg) = (cfg.fixed(0, keylen(alg)), cfg.fixed(1, 12), cfg.data(2).to_vec());
    // node 0 sends, nodes 1 and 2 receive
    let mut net = Net::new(steps, 3);
    let whole = crypt(ctx, real(0), alg, &key, &nonce, start, &msg, false)?;
    if msg.is_empty() {
        ctx.probe("empty_message");
    }
    for (i, s) in steps.iter().enumerate() {
        if matches!(&s.k[..], "seg" | "read" | "blk") {
            net.timer(s.arg(0) % 100_000, 0, i as u64);
        }
    }
    let mut segs: BTreeMap<u64, (usize, usize, usize)> = BTreeMap::new();
    // durable reassembly buffers, one per receiver
    let mut bufs: Vec<Vec<Option<u8>>> = vec![vec![None; msg.len()]; 3];
    while let Some(e) = net.next(ctx)? {
        match e {
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize];
                match &s.k[..] {
                    "seg" => {
                        let id = s.arg(1);
                        let to = 1 + s.usz(2) % 2;
                        let blocks = msg.len().div_ceil(u).max(1);
                        let off = (s.usz(3) % blocks) * u;
                        let len = ((1 + s.usz(4) % 40) * u).min(msg.len() - off.min(msg.len()));
                        if segs.contains_key(&id) {
                            continue;
                        }
                        segs.insert(id, (to, off, len));
                        // the sender encrypts the segment by itself half of the time
                        let c = if s.arg(5) & 1 == 1 {
                            ctx.probe("segment_encrypted_alone");
                            crypt(ctx, real(0), alg, &key, &nonce, start.wrapping_add((off / u) as u32), &msg[off..off + len], false)?
                        } else {
                            whole[off..off + len].to_vec()
                        };
                        ctx.eq(&c, &whole[off..off + len], "segment-differs-from-whole", &format!("{} bytes {}..{}", ALGS[alg as usize], off, off + len))?;
                        net.post(0, to, id, c, ctx);
                    }
                    "read" => {
                        // a stored ciphertext with damaged bytes is decrypted whole
                        let mut c = whole.clone();
                        for j in 0..=s.arg(4) % 3 {
                            if c.is_empty() {
                                break;
                            }
                            let p = mix64(s.arg(3) ^ j) as usize % c.len();
                            c[p] ^= 1 << (s.arg(5) % 8);
                        }
                        if c == whole {
                            ctx.probe("stored_message_intact");
                        } else {
                            ctx.nontrivial += 1;
                            ctx.fault("stored_message_damage");
                        }
                        let p = crypt(ctx, real(s.usz(2)), alg, &key, &nonce, start, &c, true)?;
                        let want: Vec<u8> = (0..msg.len()).map(|i| msg[i] ^ c[i] ^ whole[i]).collect();
                        ctx.eq(&p, &want, "damage-spreads", "stored message")?;
                    }
                    "blk" => {
                        let k = s.fixed(0, keylen(alg));
                        let b = s.fixed(1, 16);
                        let (want, got) = if alg == 2 {
                            let (ctr, n) = (s.arg(3) as u32, s.fixed(1, 12));
                            (
                                refm::chacha_block(&k, ctr, &n),
                                guard(|| un(&chacha20::block(chacha20::Key::from_public_slice(&k), U32::classify(ctr), chacha20::IV::from_public_slice(&n)))),
                            )
                        } else {
                            let want = refm::Aes::new(&k).block(&b).to_vec();
                            let bl = aes::Block::from_public_slice(&b);
                            (
                                want,
                                guard(|| match alg {
                                    0 => un(&aes::aes128_encrypt_block(aes::Key128::from_public_slice(&k), bl, 4, 10)),
                                    _ => un(&aes::aes256_encrypt_block(aes::Key256::from_public_slice(&k), bl, 8, 14)),
                                }),
                            )
                        };
                        ctx.count("single_blocks");
                        match got {
                            Err(p) => return ctx.fail("block-panics", p),
                            Ok(g) => ctx.eq(&g, &want, "block-wrong", ALGS[alg as usize])?,
                        }
                    }
                    _ => {}
                }
            }
            Ev::Msg { to, id, bytes, damaged, .. } => {
                let (_, off, len) = segs[&id];
                let ctr = start.wrapping_add((off / u) as u32);
                let p = crypt(ctx, real(to), alg, &key, &nonce, ctr, &bytes, true)?;
                if damaged {
                    ctx.nontrivial += 1;
                    // the same bytes and no others
                    for i in 0..bytes.len().min(len) {
                        let want = msg[off + i] ^ bytes[i] ^ whole[off + i];
                        ctx.check(p[i] == want, "damage-spreads", || format!("byte {} of segment {} at {}", i, id, off))?;
                    }
                    continue;
                }
                ctx.eq(&p, &msg[off..off + len], "segment-wrong", &format!("{} segment {}..{}", ALGS[alg as usize], off, off + len))?;
                ctx.ev("segment", &p);
                if bufs[to].get(off).map_or(false, |b| b.is_some()) {
                    ctx.probe("segment_again");
                }
                for i in 0..len {
                    bufs[to][off + i] = Some(p[i]);
                }
                net.ack(id, ctx);
                let mut h = alg;
                for b in &bufs {
                    for c in b.chunks(u) {
                        h = mix64(h ^ c[0].is_some() as u64);
                    }
                }
                ctx.state(h);
            }
            _ => {}
        }
    }
    for (id, (to, off, len)) in &segs {
        for i in *off..off + len {
            let b = bufs[*to][i];
            ctx.check(b == Some(msg[i]), "segment-lost", || format!("segment {} never arrived", id))?;
        }
    }
    Ok(())
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let alg = r.below(3);
    let u = unit(alg);
    let max = if r.chance(1, 1500) { if thorough { 300_000 } else { 70_000 } } else if r.chance(1, 50) { 17_000 } else if thorough && r.chance(1, 5) { 3000 } else { 400 };
    let len = if max > 17_000 { r.long(max) } else if max > 3000 { max - r.usz(700) } else { r.len(max, &[u, 64]) };
    let start = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u32::MAX as u64 - r.below(20),
        3 => (1u64 << (8 * r.range(1, 3))) - r.below(20),
        4 => 0x7fff_fff0 + r.below(32),
        5 => r.below(300),
        _ => r.next() & 0xffff_ffff,
    };
    let d = vec![r.special_bytes(32), r.special_bytes(12), r.special_bytes(len)];
    let mut v = vec![Step::with("!cfg", &[alg, 1 + r.below(7), start], d)];
    // two receivers; segmentations overlap and cover the message
    let blocks = len.div_ceil(u).max(1) as u64;
    let mut ids = vec![];
    let mut id = 0;
    for to in 0..2 {
        if r.chance(1, 4) {
            continue;
        }
        let mut at = 0;
        while at < blocks && id < 24 {
            let n = if r.chance(1, 3) { 1 } else { 1 + r.below(1 + blocks / 2) };
            v.push(Step::new("seg", &[r.below(600), id, to, at, n - 1, r.below(2)]));
            ids.push(id);
            id += 1;
            at += n;
        }
        for _ in 0..r.below(3) {
            v.push(Step::new("seg", &[r.below(900), id, to, r.below(blocks), r.below(6), r.below(2)]));
            ids.push(id);
            id += 1;
        }
    }
    for _ in 0..r.below(3) {
        v.push(Step::new("read", &[r.below(2000), 0, r.below(3), r.next() >> 20, r.below(4), r.below(8)]));
    }
    for _ in 0..r.below(3) {
        let d = vec![r.special_bytes(32), r.special_bytes(16)];
        let c = r.special_u64() & 0xffff_ffff;
        v.push(Step::with("blk", &[r.below(2000), 0, 0, c], d));
    }
    gen_faults(r, &mut v, &ids, 3, 1500, true, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C05",
        quick_runs: 80_000,
        thorough_runs: 400_000,
        step_budget: 2_000_000_000,
        again: 700,
        rule: "a seeded transfer of one keystream-encrypted message as overlapping block-aligned segments to two receivers (hacspec or independent implementation) with network faults, crashes and storage damage; non-trivial: at least one damaged segment or message was decrypted; distinct by event log",
        real: &["hacspec_examples::aes_gcm::aes", "hacspec_examples::chacha20_poly1305::chacha20", "hacspec sequences and arrays"],
        stubs: &["network, clock, reassembly store, retransmission: simulated", "peer implementation: independent reference model checked against OpenSSL vectors"],
        assumptions: &["messages up to 400 bytes, one in fifty of 17000, one in 1500 up to 70000 (300000 in the thorough tier)"],
        gen,
        exec,
    }
}
