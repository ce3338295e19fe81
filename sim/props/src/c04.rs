//! C04: an authenticated ratcheting session between peers of different implementations.
use crate::util::*;
use hacspec_examples::{hkdf, hmac};
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::mix64;
use simkit::{guard, refm, Ctx, Prop, Res, Rng, Step};
use std::collections::BTreeMap;

struct Who {
    real: bool,
}
impl Who {
    fn hmac(&self, ctx: &mut Ctx, k: &[u8], m: &[u8]) -> Res<Vec<u8>> {
        let want = refm::hmac_sha256(k, m);
        if self.real {
            ctx.count("hmac_real");
            if k.len() > 64 {
                ctx.probe("hmac_key_longer_than_block");
            }
            if k.is_empty() {
                ctx.probe("hmac_empty_key");
            }
            if m.len() % 64 == 0 {
                ctx.probe("hmac_block_multiple_message");
            }
            match guard(|| un(&hmac::hmac(&bs(k), &bs(m)))) {
                Err(p) => return ctx.fail("hmac-panics", format!("key {} bytes, message {} bytes: {}", k.len(), m.len(), p)),
                Ok(g) => ctx.eq(&g, &want, "hmac-wrong", &format!("HMAC key {} bytes, message {} bytes", k.len(), m.len()))?,
            }
        }
        Ok(want)
    }
    fn extract(&self, ctx: &mut Ctx, salt: &[u8], ikm: &[u8]) -> Res<Vec<u8>> {
        let want = refm::hkdf_extract(salt, ikm);
        if self.real {
            ctx.count("extract_real");
            match guard(|| un(&hkdf::extract(&bs(salt), &bs(ikm)))) {
                Err(p) => return ctx.fail("extract-panics", format!("salt {} bytes, ikm {} bytes: {}", salt.len(), ikm.len(), p)),
                Ok(g) => ctx.eq(&g, &want, "extract-wrong", &format!("HKDF-Extract salt {} bytes, ikm {} bytes", salt.len(), ikm.len()))?,
            }
        }
        Ok(want)
    }
    fn expand(&self, ctx: &mut Ctx, prk: &[u8], info: &[u8], l: usize) -> Res<Vec<u8>> {
        let want = refm::hkdf_expand(prk, info, l);
        if self.real {
            ctx.count("expand_real");
            if l == 255 * 32 {
                ctx.probe("expand_maximum_length");
            }
            if l == 0 {
                ctx.probe("expand_zero_length");
            }
            match guard(|| un(&hkdf::expand(&bs(prk), &bs(info), l))) {
                Err(p) => return ctx.fail("expand-panics", format!("info {} bytes, length {}: {}", info.len(), l, p)),
                Ok(g) => ctx.eq(&g, &want, "expand-wrong", &format!("HKDF-Expand info {} bytes, length {}", info.len(), l))?,
            }
        }
        Ok(want)
    }
}
/// Volatile state of a receiver: the chain position it derived so far and the skipped message keys.
#[derive(Clone, Default)]
struct Chain {
    root: Vec<u8>,
    at: u64,
    ck: Vec<u8>,
    skipped: BTreeMap<u64, Vec<u8>>,
}
impl Chain {
    fn start(root: Vec<u8>) -> Chain {
        Chain { ck: root.clone(), root, at: 0, skipped: BTreeMap::new() }
    }
    /// The key of message i, deriving forward and keeping the keys skipped over.
    fn key(&mut self, ctx: &mut Ctx, w: &Who, i: u64, keylen: usize, info: &[u8]) -> Res<Vec<u8>> {
        while self.at <= i {
            let mut inf = info.to_vec();
            inf.extend_from_slice(&self.at.to_be_bytes());
            let k = w.expand(ctx, &self.ck, &inf, keylen)?;
            self.skipped.insert(self.at, k);
            self.ck = w.hmac(ctx, &self.ck, &[2])?;
            self.at += 1;
        }
        Ok(self.skipped[&i].clone())
    }
}
const MAXI: u64 = 24;
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[1, 32]));
    let who: Vec<Who> = (0..2).map(|i| Who { real: cfg.arg(0) >> i & 1 == 1 }).collect();
    let keylen = cfg.usz(1) % 200;
    let (salt, ikm, info) = (cfg.data(0).to_vec(), cfg.data(1).to_vec(), cfg.data(2).to_vec());
    let mut net = Net::new(steps, 2);
    for (i, s) in steps.iter().enumerate() {
        if matches!(&s.k[..], "msg" | "exp" | "mac" | "resync") {
            net.timer(s.arg(0) % 100_000, s.usz(2) % 2, i as u64);
        }
    }
    // each direction has its chain at both ends; the root is durable
    let mut chains: Vec<Vec<Chain>> = vec![];
    for w in &who {
        let prk = w.extract(ctx, &salt, &ikm)?;
        let mut dirs = vec![];
        for d in 0..2u8 {
            let root = w.expand(ctx, &prk, &[&info[..], &[d]].concat(), 32)?;
            dirs.push(Chain::start(root));
        }
        chains.push(dirs);
    }
    for d in 0..2 {
        let (a, b) = (chains[0][d].root.clone(), chains[1][d].root.clone());
        ctx.eq(&a, &b, "roots-differ", "session keys at the two peers")?;
    }
    let mut sent: BTreeMap<u64, (usize, Vec<u8>)> = BTreeMap::new();
    let mut frames: Vec<(usize, Vec<u8>)> = vec![];
    let mut next = [0u64; 2];
    let mut got: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    while let Some(e) = net.next(ctx)? {
        match e {
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize];
                match &s.k[..] {
                    "msg" => {
                        let (id, from) = (s.arg(1), s.usz(2) % 2);
                        if sent.contains_key(&id) || next[from] >= MAXI || net.down[from] {
                            continue;
                        }
                        let i = next[from];
                        next[from] += 1;
                        let body = s.data(0).to_vec();
                        let k = chains[from][from].key(ctx, &who[from], i, keylen, &info)?;
                        let mut f = i.to_be_bytes().to_vec();
                        f.extend_from_slice(&body);
                        let tag = who[from].hmac(ctx, &k, &f)?;
                        f.extend_from_slice(&tag);
                        sent.insert(id, (from, body));
                        frames.push((from, f.clone()));
                        net.post(from, 1 - from, id, f, ctx);
                    }
                    "exp" => {
                        let w = &who[s.usz(2) % 2];
                        let l = s.usz(3);
                        if l <= 255 * 32 {
                            let prk = w.extract(ctx, s.data(0), s.data(1))?;
                            w.expand(ctx, &prk, s.data(2), l)?;
                        } else if w.real {
                            // the standard does not allow it
                            let r = guard(|| hkdf::expand(&bs(s.data(1)), &bs(s.data(2)), l.min(20_000)).len());
                            ctx.probe("expand_over_long");
                            ctx.check(r.is_err(), "expand-over-long-accepted", || format!("HKDF-Expand accepted length {}", l))?;
                        }
                    }
                    "mac" => {
                        // verification with a key or message damaged in storage
                        let w = &who[s.usz(2) % 2];
                        let (mut k, mut m) = (s.data(0).to_vec(), s.data(1).to_vec());
                        let t = w.hmac(ctx, &k, &m)?;
                        let pos = s.usz(3);
                        // HMAC pads short keys with zeroes, so only bits of existing bytes are flipped
                        if s.arg(4) & 1 == 0 && !k.is_empty() {
                            let p = pos % k.len();
                            k[p] ^= 1 << (s.arg(5) % 8);
                            ctx.fault("key_damage");
                        } else if !m.is_empty() {
                            let p = pos % m.len();
                            m[p] ^= 1 << (s.arg(5) % 8);
                            ctx.fault("stored_message_damage");
                        } else {
                            m.push(0);
                            ctx.fault("stored_message_damage");
                        }
                        let t2 = w.hmac(ctx, &k, &m)?;
                        ctx.nontrivial += 1;
                        ctx.check(t != t2, "damage-verifies", || "a damaged key or message has the same tag".into())?;
                    }
                    "resync" => {
                        // a peer forgets its derived keys and starts from the durable root again
                        let n = s.usz(2) % 2;
                        for c in chains[n].iter_mut() {
                            *c = Chain::start(c.root.clone());
                        }
                        ctx.fault("resynchronisation");
                    }
                    _ => {}
                }
            }
            Ev::Msg { from, to, id, bytes, damaged, .. } => {
                if bytes.len() < 40 {
                    ctx.probe("frame_too_short");
                    continue;
                }
                let (f, tag) = bytes.split_at(bytes.len() - 32);
                let i = u64::from_be_bytes([f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]]);
                if i >= MAXI {
                    ctx.probe("index_out_of_window");
                    ctx.check(damaged, "intact-refused", || format!("message {}", id))?;
                    continue;
                }
                let k = chains[to][from].key(ctx, &who[to], i, keylen, &info)?;
                let mine = who[to].hmac(ctx, &k, f)?;
                let ok = mine == tag;
                if damaged && frames.iter().any(|(w, g)| *w == from && *g == bytes) {
                    // spliced into exactly another frame of this sender: a replay, which verifies
                    ctx.probe("another_frame_replayed");
                    ctx.check(ok, "intact-refused", || format!("message {} replaced by index {} does not verify", id, i))?;
                } else if damaged {
                    ctx.nontrivial += 1;
                    ctx.check(!ok, "forgery-accepted", || format!("damaged message {} verifies", id))?;
                    ctx.ev("refused", &mine);
                } else {
                    ctx.check(ok, "intact-refused", || format!("message {} (index {}) does not verify at the receiver", id, i))?;
                    ctx.eq(&f[8..], &sent[&id].1, "message-differs", "delivered")?;
                    ctx.ev("accepted", &mine);
                    if got.insert(id, f[8..].to_vec()).is_some() {
                        ctx.probe("verified_again");
                    }
                    net.ack(id, ctx);
                }
                let c = &chains[to][from];
                ctx.state(mix64(c.at << 8 ^ i) ^ mix64(next[0] << 8 ^ next[1]) ^ damaged as u64);
            }
            Ev::Crash { node } => {
                for c in chains[node].iter_mut() {
                    *c = Chain::start(c.root.clone());
                }
            }
            Ev::Restart { node } => {
                // the root itself is derived again from the stored secret
                let prk = who[node].extract(ctx, &salt, &ikm)?;
                let root = who[node].expand(ctx, &prk, &[&info[..], &[0]].concat(), 32)?;
                let old = chains[node][0].root.clone();
                ctx.eq(&root, &old, "root-changed-by-restart", "session root")?;
                ctx.probe("root_rederived_after_restart");
            }
        }
    }
    for (id, (_, b)) in &sent {
        ctx.check(got.get(id) == Some(b), "message-lost", || format!("message {} never verified", id))?;
    }
    Ok(())
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let b = |r: &mut Rng, max: usize| {
        let l = if r.chance(1, 900) { r.long(9000) } else { r.len(max, &[64, 32]) };
        r.special_bytes(l)
    };
    let d = vec![b(r, 140), b(r, 200), b(r, 100)];
    let kl = *r.pick(&[32, 32, 16, 1, 31, 33, 63, 64, 65, 100, 128]);
    let mut v = vec![Step::with("!cfg", &[1 + r.below(3), kl], d)];
    let n = r.range(1, if thorough { 14 } else { 7 });
    let mut ids = vec![];
    for i in 0..n {
        let body = if r.chance(1, 1500) {
            let l = r.long(if thorough { 300_000 } else { 70_000 });
            r.special_bytes(l)
        } else {
            b(r, if thorough { 1000 } else { 300 })
        };
        v.push(Step::with("msg", &[r.below(900), i, r.below(2)], vec![body]));
        ids.push(i);
    }
    for _ in 0..r.below(3) {
        let l = match r.below(8) {
            0 => 255 * 32,
            1 => 255 * 32 - r.below(40),
            2 => 8161 + r.below(2) * r.below(500),
            3 => r.below(255) * 32 + r.below(3),
            4 => r.below(4),
            _ => r.below(300),
        };
        let d = vec![b(r, 140), b(r, 140), b(r, 140)];
        v.push(Step::with("exp", &[r.below(2000), 0, r.below(2), l], d));
    }
    for _ in 0..r.below(4) {
        let d = vec![b(r, 140), b(r, 300)];
        v.push(Step::with("mac", &[r.below(2000), 0, r.below(2), r.next() >> 20, r.below(2), r.below(8)], d));
    }
    for _ in 0..r.below(2) {
        v.push(Step::new("resync", &[r.below(1500), 0, r.below(2)]));
    }
    gen_faults(r, &mut v, &ids, 2, 1500, true, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        quick_runs: 20_000,
        thorough_runs: 300_000,
        step_budget: 4_000_000_000,
        again: 300,
        rule: "a seeded two-way ratcheting session (HKDF keys, HMAC tags) between hacspec and independent peers over a faulty channel with crashes and resynchronisation, plus derivations at extreme lengths; non-trivial: at least one damaged message, key or tag was verified; distinct by event log",
        real: &["hacspec_examples::hmac", "hacspec_examples::hkdf", "hacspec_examples::sha2", "hacspec sequences and arrays"],
        stubs: &["network, clock, retransmission: simulated", "peer implementation: independent reference model checked against OpenSSL vectors"],
        assumptions: &["message lengths up to 300 bytes (1000 in the thorough tier), one in 1500 up to 70000 (300000)", "HMAC keys are damaged by bit flips only (zero-extending a short key is the same key by definition)"],
        gen,
        exec,
    }
}
