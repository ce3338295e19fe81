//! C01: sealed records over a hostile channel and a decaying store, between hacspec nodes and nodes
//! running an independent implementation.
use crate::util::*;
use hacspec::prelude::{ByteSeq, SeqTrait};
use hacspec_examples::aes_gcm::{self, aes, gf128};
use hacspec_examples::chacha20_poly1305::{self as ccp, chacha20, poly1305};
use simkit::net::{damage, gen_faults, Ev, Net};
use simkit::rng::mix64;
use simkit::{guard, refm, Ctx, Prop, Res, Rng, Step};

const ALGS: [&str; 3] = ["aes128gcm", "aes256gcm", "chacha20poly1305"];
fn keylen(alg: u64) -> usize {
    if alg == 0 {
        16
    } else {
        32
    }
}
fn ref_seal(alg: u64, k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    if alg == 2 {
        refm::ccp_seal(k, n, a, m)
    } else {
        refm::gcm_seal(k, n, a, m)
    }
}
fn ref_open(alg: u64, k: &[u8], n: &[u8], a: &[u8], c: &[u8], t: &[u8]) -> Option<Vec<u8>> {
    if alg == 2 {
        refm::ccp_open(k, n, a, c, t)
    } else {
        refm::gcm_open(k, n, a, c, t)
    }
}
fn real_seal(alg: u64, k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    guard(|| match alg {
        0 => {
            let (c, t) = aes_gcm::encrypt_aes128(
                aes::Key128::from_public_slice(k),
                aes::Nonce::from_public_slice(n),
                &bs(a),
                &bs(m),
            );
            Ok((un(&c), un(&t)))
        }
        1 => {
            let (c, t) = aes_gcm::encrypt_aes256(
                aes::Key256::from_public_slice(k),
                aes::Nonce::from_public_slice(n),
                &bs(a),
                &bs(m),
            );
            Ok((un(&c), un(&t)))
        }
        _ => ccp::encrypt(
            chacha20::Key::from_public_slice(k),
            chacha20::IV::from_public_slice(n),
            &bs(a),
            &bs(m),
        )
        .map(|(c, t)| (un(&c), t.iter().copied().collect())),
    })
    .and_then(|r| r)
}
/// Outer Err: panic. Inner: the library's answer.
fn real_open(alg: u64, k: &[u8], n: &[u8], a: &[u8], c: &[u8], t: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    guard(|| {
        let r: Result<ByteSeq, String> = match alg {
            0 => aes_gcm::decrypt_aes128(
                aes::Key128::from_public_slice(k),
                aes::Nonce::from_public_slice(n),
                &bs(a),
                &bs(c),
                gf128::Tag::from_public_slice(t),
            ),
            1 => aes_gcm::decrypt_aes256(
                aes::Key256::from_public_slice(k),
                aes::Nonce::from_public_slice(n),
                &bs(a),
                &bs(c),
                gf128::Tag::from_public_slice(t),
            ),
            _ => ccp::decrypt(
                chacha20::Key::from_public_slice(k),
                chacha20::IV::from_public_slice(n),
                &bs(a),
                &bs(c),
                poly1305::Tag::from_slice(t),
            ),
        };
        r.map(|x| un(&x))
    })
}
struct Rec {
    from: usize,
    to: usize,
    pt: Vec<u8>,
    key: Vec<u8>,
    alg: u64,
    frame: Vec<u8>,
}
fn frame(n: &[u8], t: &[u8], a: &[u8], c: &[u8]) -> Vec<u8> {
    let mut f = vec![];
    f.extend_from_slice(n);
    f.extend_from_slice(t);
    f.extend_from_slice(&(a.len() as u32).to_be_bytes()[1..]);
    f.extend_from_slice(a);
    f.extend_from_slice(c);
    f
}
fn parse(f: &[u8]) -> Option<(&[u8], &[u8], &[u8], &[u8])> {
    if f.len() < 31 {
        return None;
    }
    let al = u32::from_be_bytes([0, f[28], f[29], f[30]]) as usize;
    if f.len() < 31 + al {
        return None;
    }
    Some((&f[0..12], &f[12..28], &f[31..31 + al], &f[31 + al..]))
}
/// A node opens a frame; the result is judged against the independent implementation.
fn open(ctx: &mut Ctx, real: bool, alg: u64, key: &[u8], f: &[u8], intact: bool, what: &str) -> Res<Option<Vec<u8>>> {
    let (n, t, a, c) = match parse(f) {
        Some(x) => x,
        None => {
            ctx.probe("frame_unparsable");
            return Ok(None);
        }
    };
    let want = ref_open(alg, key, n, a, c, t);
    if intact && want.is_none() {
        // sealed by a hacspec node that does not conform: reported when sealing
        ctx.probe("intact_refused_by_reference");
    }
    if !real {
        return Ok(want);
    }
    let name = ALGS[alg as usize];
    let got = real_open(alg, key, n, a, c, t);
    if want.is_none() {
        ctx.probe("damaged_presented");
        if c.is_empty() {
            ctx.probe("damaged_empty_ciphertext");
        }
    }
    let d = || format!("{} {}: key {} nonce {} aad {} bytes ct {} bytes", name, what, simkit::ctx::hex(key), simkit::ctx::hex(n), a.len(), c.len());
    match got {
        Err(p) => {
            ctx.check(false, &format!("open-panics-{}", name), || format!("{}: panic {}", d(), p))?;
            Ok(None)
        }
        Ok(Ok(pt)) => {
            match &want {
                None => ctx.check(false, &format!("forgery-accepted-{}", name), || format!("{}: a damaged record opened to {} bytes", d(), pt.len()))?,
                Some(w) => ctx.eq(&pt, w, &format!("open-wrong-{}", name), &d())?,
            }
            ctx.ev("opened", &pt);
            Ok(Some(pt))
        }
        Ok(Err(e)) => {
            ctx.check(want.is_none(), &format!("intact-refused-{}", name), || format!("{}: {}", d(), e))?;
            ctx.ev("refused", e.as_bytes());
            Ok(None)
        }
    }
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[2, 3]));
    let nodes = (cfg.usz(0)).clamp(2, 5);
    let real = |i: usize| cfg.arg(1) >> i & 1 == 1;
    let mut net = Net::new(steps, nodes);
    let mut recs: Vec<Rec> = vec![];
    let mut got: Vec<Option<Vec<u8>>> = vec![];
    // timers: one per scripted step that acts at a time
    for (i, s) in steps.iter().enumerate() {
        if matches!(&s.k[..], "rec" | "read" | "wrongkey") {
            net.timer(s.arg(0) % 100_000, 0, i as u64);
        }
    }
    let mut by_id: std::collections::BTreeMap<u64, usize> = Default::default();
    while let Some(e) = net.next(ctx)? {
        match e {
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize];
                match &s.k[..] {
                    "rec" => {
                        let (from, to, alg) = (s.usz(2) % nodes, s.usz(3) % nodes, s.arg(4) % 3);
                        let key = s.fixed(0, keylen(alg));
                        let nonce = s.fixed(1, 12);
                        let (aad, pt) = (s.data(2).to_vec(), s.data(3).to_vec());
                        let (wc, wt) = ref_seal(alg, &key, &nonce, &aad, &pt);
                        let (c, t) = if real(from) {
                            let name = ALGS[alg as usize];
                            match real_seal(alg, &key, &nonce, &aad, &pt) {
                                Ok((c, t)) => {
                                    ctx.eq(&c, &wc, &format!("ciphertext-wrong-{}", name), &format!("{} of {} bytes", name, pt.len()))?;
                                    ctx.eq(&t, &wt, &format!("tag-wrong-{}", name), &format!("{} tag, {} bytes aad {} bytes", name, pt.len(), aad.len()))?;
                                    (c, t)
                                }
                                Err(p) => return ctx.fail(&format!("seal-fails-{}", name), p),
                            }
                        } else {
                            (wc, wt)
                        };
                        ctx.count(&format!("sealed_{}", ALGS[alg as usize]));
                        if pt.is_empty() {
                            ctx.probe("empty_plaintext");
                        }
                        if pt.len() % 16 == 0 {
                            ctx.probe("block_multiple_plaintext");
                        }
                        let f = frame(&nonce, &t, &aad, &c);
                        let id = s.arg(1);
                        if by_id.contains_key(&id) {
                            continue;
                        }
                        by_id.insert(id, recs.len());
                        recs.push(Rec { from, to, pt, key, alg, frame: f.clone() });
                        got.push(None);
                        net.post(from, to, id, f, ctx);
                    }
                    "read" | "wrongkey" => {
                        // a stored record is read back, the medium having decayed (or the reader holding another key)
                        if recs.is_empty() {
                            continue;
                        }
                        let r = &recs[s.usz(1) % recs.len()];
                        let node = s.usz(2) % nodes;
                        let other = &recs[s.usz(6) % recs.len()].frame;
                        let mut key = r.key.clone();
                        let mut f = r.frame.clone();
                        if s.k == "wrongkey" {
                            let p = s.usz(4) % key.len();
                            key[p] ^= 1 << (s.arg(5) % 8);
                            ctx.fault("wrong_key");
                        } else {
                            for q in 0..1 + s.arg(3) / 8 % 2 {
                                f = damage(&f, s.arg(3), s.arg(4) >> (q * 3), s.arg(5), Some(other));
                            }
                            if f != r.frame {
                                ctx.fault("stored_record_damage");
                            }
                        }
                        let intact = s.k == "read" && f == r.frame;
                        let o = open(ctx, real(node), r.alg, &key, &f, intact, "read back")?;
                        if intact {
                            ctx.check(o.as_deref() == Some(&r.pt[..]) || !real(r.from) && !real(node), "readback-lost", || {
                                "an intact stored record did not open to its plaintext".into()
                            })?;
                        } else {
                            ctx.nontrivial += 1;
                        }
                    }
                    _ => {}
                }
            }
            Ev::Msg { to, id, bytes, damaged, .. } => {
                let ri = by_id[&id];
                let r = &recs[ri];
                let o = open(ctx, real(to), r.alg, &r.key, &bytes, !damaged, "delivered")?;
                if damaged {
                    ctx.nontrivial += 1;
                }
                if let Some(p) = o {
                    if !damaged {
                        ctx.eq(&p, &r.pt, "plaintext-differs", "record as delivered")?;
                        if got[ri].is_some() {
                            ctx.probe("opened_again");
                        }
                        got[ri] = Some(p);
                        net.ack(id, ctx);
                    }
                } else if !damaged {
                    return ctx.fail("intact-not-opened", format!("record {} was delivered intact and not opened", id));
                }
                let h = got.iter().fold(0u64, |h, g| mix64(h ^ g.is_some() as u64));
                ctx.state(mix64(h ^ id ^ (damaged as u64) << 40 ^ (recs.len() as u64) << 32));
            }
            _ => {}
        }
    }
    for (i, g) in got.iter().enumerate() {
        ctx.check(g.as_ref() == Some(&recs[i].pt), "record-lost", || format!("record {} never arrived", i))?;
        ctx.ev("final", &recs[i].pt);
        let _ = recs[i].to;
    }
    Ok(())
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let nodes = r.range(2, 4);
    let mut mask = r.next() & 15;
    if mask & ((1 << nodes) - 1) == 0 {
        mask = 1;
    }
    let mut v = vec![Step::new("!cfg", &[nodes, mask])];
    // now and then one long record, whose lengths, counters and bit counts use more of their bytes
    let long = r.chance(1, 600);
    let n = if long { 1 } else { r.range(1, if thorough { 8 } else { 5 }) };
    let max = if thorough && r.chance(1, 10) { 2000 } else { 260 };
    let keys: Vec<Vec<u8>> = (0..2).map(|_| r.special_bytes(32)).collect();
    let mut ids = vec![];
    for i in 0..n {
        let alg = r.below(3);
        let mut key = r.pick(&keys).clone();
        key.truncate(keylen(alg));
        let nonce = r.special_bytes(12);
        let (mut al, mut ml) = (r.len(100, &[16]), r.len(max, &[16, 64]));
        if long && r.chance(1, 2) {
            al = r.long(if thorough { 1 << 20 } else { 140_000 });
        } else if long {
            ml = r.long(if thorough { 300_000 } else { 70_000 });
        }
        let (a, m) = (r.special_bytes(al), r.special_bytes(ml));
        let from = r.below(nodes);
        let to = (from + 1 + r.below(nodes - 1)) % nodes;
        v.push(Step::with("rec", &[r.below(600), i, from, to, alg], vec![key, nonce, a, m]));
        ids.push(i);
    }
    for _ in 0..if long { 1 } else { r.range(2, 10) } {
        // most damage is small: single bits anywhere in the frame, and lengths
        let kind = *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 14]);
        v.push(Step::new("read", &[700 + r.below(2000), r.below(n), r.below(nodes), kind, r.next() >> 8, r.next() >> 8, r.below(n)]));
    }
    for _ in 0..r.below(3) {
        v.push(Step::new("wrongkey", &[700 + r.below(2000), r.below(n), r.below(nodes), 0, r.below(32), r.below(8)]));
    }
    gen_faults(r, &mut v, &ids, nodes as usize, 1500, true, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C01",
        quick_runs: 80_000,
        thorough_runs: 700_000,
        step_budget: 20_000_000_000,
        again: 600,
        rule: "a seeded history of sealing, delivering, storing and opening records among 2-4 nodes (hacspec or independent implementation) with network and storage faults; non-trivial: at least one damaged or wrong-key record was presented for opening; distinct by event log",
        real: &["hacspec_examples::aes_gcm (aes, aesgcm, gf128)", "hacspec_examples::chacha20_poly1305", "hacspec sequences and arrays", "secret_integers", "abstract_integers"],
        stubs: &["network, clock, record store, retransmission: simulated", "peer implementation: independent reference model checked against OpenSSL vectors"],
        assumptions: &["lengths up to a few hundred bytes (2000 in the thorough tier), one run in 600 with a plaintext of up to 70000 (300000) or associated data of up to 140000 (1048576) bytes", "forgery by guessing a 128-bit tag does not occur in the sampled runs"],
        gen,
        exec,
    }
}
