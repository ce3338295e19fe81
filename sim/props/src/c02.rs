//! C02: key agreement among hacspec parties and parties running an independent implementation.
use crate::util::*;
use hacspec::prelude::*;
use hacspec_examples::curve25519::{scalarmult, secret_to_public, SerializedPoint, SerializedScalar};
use hacspec_examples::p256;
use num::BigUint;
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::mix64;
use simkit::{guard, refm, Ctx, Prop, Res, Rng, Step};
use std::collections::BTreeMap;

/// Encodings a hostile or broken peer may send: small order, non-canonical, high bit set.
fn hostile(r: &mut Rng) -> Vec<u8> {
    const P: [(&str, bool); 8] = [
        ("0000000000000000000000000000000000000000000000000000000000000000", false),
        ("0100000000000000000000000000000000000000000000000000000000000000", false),
        ("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", false),
        ("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", false),
        ("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false),
        ("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false),
        ("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false),
        ("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", false),
    ];
    let mut b = if r.chance(3, 4) {
        let s = r.pick(&P).0;
        (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    } else if r.chance(1, 2) {
        // just above the prime: 2^255-19+k
        let mut b = vec![0xff; 32];
        b[0] = 0xed + r.below(19) as u8;
        b[31] = 0x7f;
        b
    } else {
        r.special_bytes(32)
    };
    if r.chance(1, 3) {
        b[31] |= 0x80;
    }
    b
}
/// One X25519 operation at a node, judged against the reference.
fn apply(ctx: &mut Ctx, real: bool, k: &[u8], u: &[u8], what: &str) -> Res<Vec<u8>> {
    let want = refm::x25519(k, u);
    if want.iter().all(|b| *b == 0) {
        ctx.probe("all_zero_result");
    }
    if !real {
        return Ok(want);
    }
    let d = || format!("{}: X25519({}, {})", what, simkit::ctx::hex(k), simkit::ctx::hex(u));
    match guard(|| un(&scalarmult(SerializedScalar::from_public_slice(k), SerializedPoint::from_public_slice(u)))) {
        Err(p) => return ctx.fail("scalarmult-panics", format!("{}: {}", d(), p)),
        Ok(g) => ctx.eq(&g, &want, "scalarmult-wrong", &d())?,
    }
    ctx.count("x25519_real");
    ctx.ev("x25519", &want);
    Ok(want)
}
fn public(ctx: &mut Ctx, real: bool, k: &[u8]) -> Res<Vec<u8>> {
    let mut nine = [0u8; 32];
    nine[0] = 9;
    let want = refm::x25519(k, &nine);
    if real {
        match guard(|| un(&secret_to_public(SerializedScalar::from_public_slice(k)))) {
            Err(p) => return ctx.fail("secret_to_public-panics", format!("secret {}: {}", simkit::ctx::hex(k), p)),
            Ok(g) => ctx.eq(&g, &want, "public-value-wrong", &format!("public value of {}", simkit::ctx::hex(k)))?,
        }
    }
    Ok(want)
}
fn p256(ctx: &mut Ctx, k: &[u8]) -> Res<()> {
    let n = BigUint::from_bytes_be(k);
    if &n % &refm::curve().n256 == BigUint::from(0u8) {
        return Ok(()); // the point at infinity has no affine form
    }
    let want = refm::p256_mul(&n);
    let hexk = simkit::ctx::hex(k);
    let hexk2 = hexk.clone();
    let got = guard(move || {
        let (x, y) = p256::point_mul(p256::Scalar::from_hex(&hexk2));
        (x.to_le_bytes(), y.to_le_bytes())
    });
    match (got, want) {
        (Err(p), _) => ctx.fail("p256-panics", format!("scalar {}: {}", hexk, p)),
        (Ok((x, y)), Some((wx, wy))) => {
            let (x, y) = (BigUint::from_bytes_le(&x), BigUint::from_bytes_le(&y));
            ctx.count("p256_real");
            ctx.ev("p256", &x.to_bytes_be());
            ctx.check(x == wx && y == wy, "p256-wrong", || format!("scalar {}: got ({:x}, {:x}) want ({:x}, {:x})", hexk, x, y, wx, wy))
        }
        (Ok(_), None) => Ok(()),
    }
}
struct Chain {
    order: Vec<usize>,
    done: Option<Vec<u8>>,
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[2, 3]));
    let nodes = cfg.usz(0).clamp(2, 5);
    let real = |i: usize| cfg.arg(1) >> i & 1 == 1;
    let mut keys: Vec<Vec<u8>> = steps.iter().filter(|s| s.k == "!key").map(|s| s.fixed(0, 32)).collect();
    keys.resize(nodes, vec![7; 32]);
    let mut net = Net::new(steps, nodes);
    for (i, s) in steps.iter().enumerate() {
        if matches!(&s.k[..], "pub" | "chain" | "raw" | "p256") {
            net.timer(s.arg(0) % 100_000, s.usz(2) % nodes, i as u64);
        }
    }
    // durable: the received public values; volatile: the derived secrets
    let mut inbox: Vec<BTreeMap<usize, Vec<u8>>> = vec![BTreeMap::new(); nodes];
    let mut shared: Vec<BTreeMap<usize, Vec<u8>>> = vec![BTreeMap::new(); nodes];
    let mut pubs: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut chains: BTreeMap<u64, Chain> = BTreeMap::new();
    let mut hops_seen: std::collections::BTreeSet<u64> = Default::default();
    while let Some(e) = net.next(ctx)? {
        match e {
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize];
                match &s.k[..] {
                    "pub" => {
                        let (id, from, to) = (s.arg(1), s.usz(2) % nodes, s.usz(3) % nodes);
                        if from == to || pubs.contains_key(&id) {
                            continue;
                        }
                        let p = public(ctx, real(from), &keys[from])?;
                        pubs.insert(id, (from, to));
                        net.post(from, to, id, p, ctx);
                    }
                    "chain" => {
                        let id = 1000 + s.arg(1) * 16;
                        if chains.contains_key(&id) {
                            continue;
                        }
                        let mut order: Vec<usize> = (0..nodes).collect();
                        let mut rr = Rng::new(s.arg(3));
                        rr.shuffle(&mut order);
                        order.truncate(2 + s.usz(4) % nodes);
                        let p = public(ctx, real(order[0]), &keys[order[0]])?;
                        net.post(order[0], order[1], id + 1, p, ctx);
                        chains.insert(id, Chain { order, done: None });
                    }
                    "raw" => {
                        let n = s.usz(2) % nodes;
                        ctx.fault("hostile_public_value");
                        ctx.nontrivial += 1;
                        apply(ctx, true, &keys[n], &s.fixed(0, 32), "hostile public value")?;
                    }
                    "p256" => {
                        p256(ctx, &s.fixed(0, 32))?;
                    }
                    _ => {}
                }
            }
            Ev::Msg { to, id, bytes, damaged, .. } => {
                if bytes.len() != 32 {
                    ctx.probe("frame_of_wrong_length");
                    continue;
                }
                if damaged {
                    ctx.nontrivial += 1;
                    apply(ctx, real(to), &keys[to], &bytes, "damaged public value")?;
                    continue;
                }
                if let Some(&(from, _)) = pubs.get(&id) {
                    let z = apply(ctx, real(to), &keys[to], &bytes, "agreed")?;
                    if let Some(old) = shared[to].get(&from) {
                        ctx.check(*old == z, "secret-changed", || format!("node {} derived another secret from the same value", to))?;
                        ctx.probe("derived_again");
                    }
                    inbox[to].insert(from, bytes);
                    shared[to].insert(from, z);
                    net.ack(id, ctx);
                } else {
                    let cid = 1000 + (id - 1000) / 16 * 16;
                    let hop = ((id - 1000) % 16) as usize;
                    let c = chains.get_mut(&cid).unwrap();
                    net.ack(id, ctx);
                    if !hops_seen.insert(id) {
                        continue;
                    }
                    let z = apply(ctx, real(to), &keys[to], &bytes, "group chain")?;
                    if hop + 1 < c.order.len() {
                        let (f, t) = (c.order[hop], c.order[hop + 1]);
                        net.post(f, t, id + 1, z, ctx);
                    } else {
                        c.done = Some(z);
                    }
                }
                let mut h = id;
                for m in &shared {
                    for (k, _) in m {
                        h = mix64(h ^ *k as u64);
                    }
                    h = mix64(h);
                }
                ctx.state(h);
            }
            Ev::Crash { node } => shared[node].clear(),
            Ev::Restart { node } => {
                let again: Vec<(usize, Vec<u8>)> = inbox[node].iter().map(|(k, v)| (*k, v.clone())).collect();
                for (from, v) in again {
                    let z = apply(ctx, real(node), &keys[node], &v, "after restart")?;
                    shared[node].insert(from, z);
                    ctx.probe("secret_rederived_after_restart");
                }
            }
        }
    }
    for (id, (from, to)) in &pubs {
        let a = shared[*to].get(from).cloned();
        ctx.check(a.is_some(), "public-value-lost", || format!("exchange {} never completed", id))?;
        if let (Some(a), Some(b)) = (a, shared[*from].get(to).cloned()) {
            ctx.eq(&a, &b, "secrets-differ", &format!("shared secret of nodes {} and {}", from, to))?;
            ctx.count("pairs_agreed");
        }
    }
    let mut groups: BTreeMap<Vec<usize>, Vec<u8>> = BTreeMap::new();
    for c in chains.values() {
        let z = match &c.done {
            Some(z) => z,
            None => return ctx.fail("chain-incomplete", format!("group chain {:?} never completed", c.order)),
        };
        let mut g = c.order.clone();
        g.sort();
        if let Some(o) = groups.get(&g) {
            ctx.eq(z, o, "group-secrets-differ", &format!("group {:?}", g))?;
            ctx.count("groups_agreed");
        }
        groups.insert(g, z.clone());
    }
    Ok(())
}
fn scalar(r: &mut Rng) -> Vec<u8> {
    let n = &refm::curve().n256;
    let near = |b: BigUint, d: u64, up: bool| if up { b + BigUint::from(d) } else { b - BigUint::from(d) };
    let v = match r.below(8) {
        0 => BigUint::from(1 + r.below(40)),
        1 => near(n.clone(), 1 + r.below(20) * r.below(2), r.chance(1, 3)),
        2 => near(n.clone() >> 1usize, r.below(3), r.chance(1, 2)),
        3 => BigUint::from(1u8) << r.usz(256),
        4 => (BigUint::from(1u8) << 256usize) - BigUint::from(1 + r.below(20)),
        // a prefix of the scalar meets the group order or half of it on the way
        5 => (n.clone() >> r.usz(20)) + BigUint::from(r.below(2)),
        _ => return r.special_bytes(32),
    };
    let b = v.to_bytes_be();
    let mut o = vec![0; 32 - b.len().min(32)];
    o.extend(b.iter().take(32));
    o
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let nodes = r.range(2, 4);
    let mut mask = r.next() & 15;
    if mask & ((1 << nodes) - 1) == 0 {
        mask = 1;
    }
    let mut v = vec![Step::new("!cfg", &[nodes, mask])];
    for _ in 0..nodes {
        v.push(Step::with("!key", &[], vec![r.special_bytes(32)]));
    }
    let mut ids = vec![];
    let pairs = r.range(1, if thorough { 4 } else { 2 });
    let mut id = 0;
    for _ in 0..pairs {
        let a = r.below(nodes);
        let b = (a + 1 + r.below(nodes - 1)) % nodes;
        for (x, y) in [(a, b), (b, a)] {
            v.push(Step::new("pub", &[r.below(400), id, x, y]));
            ids.push(id);
            id += 1;
        }
    }
    if r.chance(1, 3) {
        let len = r.below(nodes);
        for c in 0..2 {
            v.push(Step::new("chain", &[r.below(400), c, 0, r.next(), len]));
            ids.extend((1..nodes).map(|h| 1000 + c * 16 + h));
        }
    }
    for _ in 0..r.below(3) {
        v.push(Step::with("raw", &[r.below(1500), 0, r.below(nodes)], vec![hostile(r)]));
    }
    if r.chance(1, 4) {
        let k = scalar(r);
        r.remember(&k);
        v.push(Step::with("p256", &[r.below(1500), 0, r.below(nodes)], vec![k]));
        if r.chance(1, 3) {
            let k = if r.chance(2, 3) { r.relative(32) } else { scalar(r) };
            v.push(Step::with("p256", &[r.below(1500), 0, r.below(nodes)], vec![k]));
        }
    }
    gen_faults(r, &mut v, &ids, nodes as usize, 1500, true, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C02",
        quick_runs: 1_500,
        thorough_runs: 40_000,
        step_budget: 3_000_000_000,
        again: 100,
        rule: "a seeded history of pairwise X25519 exchanges and group chains among 2-4 nodes (hacspec or independent implementation) with network faults, hostile public values and restarts, and P-256 public points of extreme scalars; non-trivial: at least one damaged or hostile value was applied; distinct by event log",
        real: &["hacspec_examples::curve25519", "hacspec_examples::p256", "hacspec public_nat_mod", "abstract_integers"],
        stubs: &["network, clock, durable inbox, retransmission: simulated", "peer implementation: independent reference model checked against OpenSSL vectors"],
        assumptions: &["scalars that are multiples of the P-256 group order are left out: the result has no affine form"],
        gen,
        exec,
    }
}
